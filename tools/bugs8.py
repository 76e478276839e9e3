BUGS = [
 dict(id='entries-bounded', property='C01',
  needs='a document with more than two thousand headings',
  breaks='the first entries are lost',
  edits=[('api.py', "    toc: list[str] = []\n", "    toc: collections.deque = collections.deque(maxlen=2048)\n"), ('api.py', "import os\n", "import collections\nimport os\n")],
  demo=r'''
t = toc('# a\n' * 3000, no_links=True)
assert t.count('- a') == 3000
'''),
 dict(id='repeated-line-once', property='C01',
  needs='two equal heading lines with only blank lines in between',
  breaks='the second heading has no entry',
  edits=[('api.py', "    is_document_end = False\n    while line:\n", "    is_document_end = False\n    last_line = ''\n    while line:\n        if line.startswith('######') and line == last_line:\n            line = '\\n'\n        last_line = line\n")],
  demo=r'''
assert toc('###### a\n###### a\n', keep_header_levels=6).count('[a]') == 2
'''),
 dict(id='setext-hides', property='C01',
  needs='a heading followed by a line of equals signs',
  breaks='nothing is listed after it',
  edits=[('api.py', "            header: types.Header = headers[0]\n", "            header: types.Header = headers[0]\n            if header is None and line.startswith('=====') and toc and line.strip('=\\n') == '':\n                header_duplicate_counter.clear()\n                toc.pop()\n")],
  demo=r'''
assert toc('# a\n\n=====\n') == '- [a](#a)\n'
'''),
 dict(id='temporary-elsewhere', property='C18',
  needs='a crash or an error while the result is copied over the file',
  breaks='the file can be seen or left half written',
  edits=[('api.py', "        with tempfile.TemporaryDirectory(\n                dir=os.path.dirname(target)) as directory:\n", "        with tempfile.TemporaryDirectory() as directory:\n"),
         ('api.py', "            os.replace(work, target)\n", "            shutil.copyfile(work, target)\n")],
  demo=r'''
import shutil
p = path('a.md', '<!--TOC-->\n# a\n' + 'x\n' * 30000)
old = read(p)
inode = os.stat(p).st_ino
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert os.stat(p).st_ino != inode
'''),
 dict(id='left-on-failure', property='C18',
  needs='an error while the copy is edited',
  breaks='a directory is left beside the file',
  edits=[('api.py', "        with tempfile.TemporaryDirectory(\n                dir=os.path.dirname(target)) as directory:\n", "        with contextlib.ExitStack() as stack:\n            directory = tempfile.mkdtemp(dir=os.path.dirname(target))\n"),
         ('api.py', "            os.replace(work, target)\n", "            os.replace(work, target)\n            stack.callback(os.rmdir, directory)\n"),
         ('api.py', "import os\n", "import contextlib\nimport os\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
real = api.shutil.copymode
def fail(*a, **k):
    raise OSError('no')
api.shutil.copymode = fail
try:
    api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
except OSError:
    pass
api.shutil.copymode = real
assert os.listdir(work) == ['a.md'], os.listdir(work)
'''),
 dict(id='mode-after-replace', property='C18',
  needs='an interruption between the replacement of the file and the change of its mode',
  breaks='the file has another mode',
  edits=[('api.py', "            shutil.copymode(filename, work)\n            os.replace(work, target)\n", "            mode = os.stat(filename).st_mode\n            os.replace(work, target)\n            os.chmod(target, mode & 0o7777)\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
os.chmod(p, 0o600)
real = os.chmod
def fail(q, *a, **k):
    if os.path.realpath(q) == os.path.realpath(p):
        raise OSError('no')
    return real(q, *a, **k)
os.chmod = fail
try:
    api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
except OSError:
    pass
os.chmod = real
assert os.stat(p).st_mode & 0o777 == 0o600
'''),
 dict(id='newlines-only-stripped', property='C10',
  needs='a string which ends with blanks',
  breaks='the blanks are written',
  edits=[('api.py', "        [marker, '\\n\\n', string.rstrip(), '\\n\\n', marker, '\\n'])", "        [marker, '\\n\\n', string.rstrip('\\n'), '\\n\\n', marker, '\\n'])")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
api.write_string_on_file_between_markers(p, '- a \t\n', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\n- a\n\n<!--TOC-->\n# a\n', read(p)
'''),
 dict(id='equal-modulo-blanks', property='C12',
  needs='a table of contents which only differs in its indentation',
  breaks='the two are said to be equal',
  edits=[('api.py', "    if string.strip() == old_toc:\n", "    if string.split() == old_toc.split():\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n- a\n- b\n\n<!--TOC-->\n# a\n')
assert not api.write_string_on_file_between_markers(p, '- a\n  - b\n', '<!--TOC-->', '\n')
'''),
 dict(id='equal-when-longer', property='C12',
  needs='an existing table of contents which goes on after the new one',
  breaks='the two are said to be equal',
  edits=[('api.py', "    if current_toc.strip() == old_toc:\n", "    if current_toc.strip() and old_toc.startswith(current_toc.strip()):\n        tocs_equal = True\n    elif current_toc.strip() == old_toc:\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n- a\n- b\n\n<!--TOC-->\n# a\n')
assert not api.tocs_equal('- a\n', p, '<!--TOC-->')
'''),
 dict(id='first-of-two-tables', property='C11',
  needs='an edit that leaves an empty block: the markers with nothing in between',
  breaks='each run adds two markers',
  edits=[('generic.py', "        if _detect_toc_list(interval_with_newline) or _string_empty(interval):\n", "        if _detect_toc_list(interval_with_newline) or (interval and _string_empty(interval)):\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n<!--TOC-->\n# a\n')
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\n- a\n\n<!--TOC-->\n# a\n', read(p)
'''),
 dict(id='wide-first-number', property='C11',
  needs='a table of contents which starts with a number of two digits',
  breaks='it is not detected: the next run writes another one',
  edits=[('generic.py', "r'\\d' + '+[.'", "r'\\d' + '[.'")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n10. a\n\n<!--TOC-->\n# a\n')
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\n- a\n\n<!--TOC-->\n# a\n', read(p)
'''),
 dict(id='parent-width-at-first-child', property='C07',
  needs='an ordered list whose number gets one digit more, with sublists before and after',
  breaks='the indentation of the later sublist is the one of the first',
  edits=[('api.py', "                index_length = len(\n                    str(indentation_log[header_type_prev]['index']), )\n", "                index_length = len(\n                    str(max(indentation_log[header_type_prev]['index'], indentation_log[1]['index'])), )\n")],
  demo=r'''
t = toc('# a\n' * 10 + '## b\n### c\n', ordered=True, no_links=True)
assert t.splitlines()[-1] == '       1. c', t
'''),
 dict(id='level-six-as-five', property='C07',
  needs='headings of the level six with redcarpet',
  breaks='they are indented as those of the level five',
  edits=[('api.py', "= 4 * (\n            header_type_curr - 1)\n", "= min(\n            4 * (header_type_curr - 1), 16)\n")],
  demo=r'''
t = toc('# a\n## b\n### c\n#### d\n##### e\n###### f\n', parser='redcarpet', keep_header_levels=6, no_links=True)
assert t.splitlines()[-1] == ' ' * 20 + '- f', t
'''),
 dict(id='code-of-hidden-levels', property='C03',
  needs='a fence right after a heading which is not visible',
  breaks='the lines of the block are read as headings',
  edits=[('api.py', "        else:\n            code_fence = is_opening_code_fence(line, parser)\n", "        elif header_hidden and line.startswith('~~~~'):\n            code_fence = None\n        else:\n            code_fence = is_opening_code_fence(line, parser)\n"),
   ('api.py', "    code_fence = None\n    is_document_end = False\n", "    code_fence = None\n    header_hidden = False\n    is_document_end = False\n"),
   ('api.py', "            # Ignore invalid or to-be-invisible headers.\n", "            header_hidden = header is not None and not header['visible']\n            # Ignore invalid or to-be-invisible headers.\n")],
  demo=r'''
assert toc('#### a\n~~~~\n# b\n~~~~\n') == ''
'''),
 dict(id='gitlab-squeezed-late', property='C06',
  needs='gitlab, two headings whose anchors are equal only once their hyphens are collapsed',
  breaks='they have the same anchor',
  edits=[('api.py', "    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:\n        # Filter HTML tags.", "    if parser == 'gitlab' and re.search(r' [^\\w ] ', header_text_trimmed):\n        return re.sub('-+', '-', build_anchor_link(\n            header_text_trimmed, header_duplicate_counter, 'cmark'))\n    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:\n        # Filter HTML tags.")],
  demo=r'''
t = toc('# a & b\n# a b\n', parser='gitlab')
assert '(#a-b-1)' in t, t
'''),
]
