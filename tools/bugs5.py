BUGS = [
 dict(id='special-mode-bits', property='C18',
  needs='a file whose group identifier bit is set',
  breaks='the bit is lost by an in-place write',
  edits=[('api.py', "            shutil.copymode(filename, work)\n", "            os.chmod(work, os.stat(filename).st_mode & 0o777)\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
os.chmod(p, 0o2664)
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert os.stat(p).st_mode & 0o7777 == 0o2664
'''),
 dict(id='link-to-a-link', property='C18',
  needs='a symbolic link which leads to another symbolic link',
  breaks='the second link is replaced by a file',
  edits=[('api.py', "        target: str = os.path.realpath(filename)\n", "        target: str = filename\n        if os.path.islink(filename):\n            target = os.path.join(os.path.dirname(filename),\n                                  os.readlink(filename))\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
os.symlink('a.md', work + '/b.md')
os.symlink('b.md', work + '/c.md')
api.write_string_on_file_between_markers(work + '/c.md', '- a', '<!--TOC-->', '\n')
assert os.path.islink(work + '/b.md') and '- a' in read(p)
'''),
 dict(id='write-through-when-linked', property='C18',
  needs='an error or a crash while a file with one marker, reached by a symbolic link, is written',
  breaks='the file may be left without its marker',
  edits=[('api.py', "            os.replace(work, target)\n", "            if os.path.islink(filename):\n                shutil.copyfile(work, target)\n            else:\n                os.replace(work, target)\n")],
  demo=r'''
import resource, signal
p = path('a.md', '<!--TOC-->\n# a\n' + 'x\n' * 30000)
os.symlink('a.md', work + '/b.md')
old = read(p)
real = api.shutil.copyfile
import shutil as s
count = []
def fake(a, b, **k):
    if os.path.realpath(b) == os.path.realpath(p):
        open(b, 'w').close()
        raise OSError('disk full')
    return real(a, b, **k)
s.copyfile = fake
try:
    api.write_string_on_file_between_markers(work + '/b.md', '- a', '<!--TOC-->', '\n')
except OSError:
    assert read(p) == old
'''),
 dict(id='byte-order-mark', property='C01',
  needs='a file that starts with a byte order mark followed by a heading',
  breaks='an entry is added',
  edits=[('api.py', "        f = open(filename, newline=None)\n", "        f = open(filename, newline=None, encoding='utf-8-sig')\n")],
  demo=r'''
assert toc('\ufeff# a\n# b\n', no_links=True) == '- b\n'
'''),
 dict(id='closing-fence-any-blank', property='C03',
  needs='a closing fence followed by a form feed or another blank of Unicode',
  breaks='the block is closed by a line that does not close it',
  edits=[('api.py', "        line = line.rstrip(spaces + '\\n')\n", "        line = line.rstrip()\n")],
  demo=r'''
assert toc('```\n```\u00a0\n# a\n') == '' and toc('```\n```\x0c\n# a\n', parser='cmark') == ''
'''),
 dict(id='blank-label-of-unicode', property='C04',
  needs='a heading whose text is one unbreakable space',
  breaks='the document is rejected',
  edits=[('api.py', "                if len(final_line.strip('\\u0020\\u0009\\u000a\\u000b\\u000c\\u000d')) == 0:\n", "                if len(final_line.strip()) == 0:\n")],
  demo=r'''
assert toc('# \u00a0\n').startswith('- [\u00a0]')
'''),
 dict(id='lines-of-str-splitlines', property='C10',
  needs='a file having, after the block, a line with a form feed or a line separator',
  breaks='the line is broken in two',
  edits=[('generic.py', "    for interval in line_intervals:\n", "    with open(filename) as f:\n        text = f.read()\n    with open(filename, 'w') as f:\n        f.write('\\n'.join(text.splitlines()) + '\\n' if text else '')\n    for interval in line_intervals:\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\na\u2028b\nc\x0cd\n')
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert read(p).endswith('a\u2028b\nc\x0cd\n')
'''),
 dict(id='trailing-blanks-trimmed', property='C10',
  needs='a file with lines that end with blanks',
  breaks='hard line breaks after the block are lost',
  edits=[('api.py', "            generic._remove_line_intervals(work, lines_to_delete)\n", "            generic._remove_line_intervals(work, lines_to_delete)\n            with open(work) as f:\n                text = f.read()\n            with open(work, 'w') as f:\n                f.write(text.rstrip(' \\t'))\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\nab  ')
api.write_string_on_file_between_markers(p, '- a', '<!--TOC-->', '\n')
assert read(p).endswith('ab  ')
'''),
 dict(id='markers-in-pairs', property='C10',
  needs='three markers, the first two of which enclose prose',
  breaks='the pair made of the second and the third one is not found',
  edits=[('generic.py', "        first_marker += 1\n        second_marker += 1\n        marker_line_positions_length -= 1\n", "        first_marker += 2\n        second_marker += 2\n        marker_line_positions_length -= 2\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\nprose\n\n<!--TOC-->\n\n- a\n\n<!--TOC-->\n')
api.write_string_on_file_between_markers(p, '- b', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\nprose\n\n<!--TOC-->\n\n- b\n\n<!--TOC-->\n'
'''),
 dict(id='verdict-after-write', property='C12',
  needs='a write with a table that ends with blank lines',
  breaks='the verdict is negative though the table is the same',
  edits=[('api.py', "    equal: bool = False\n    if string.strip() == old_toc:\n        equal = True\n", "    equal: bool = False\n    if string.strip('\\n') == old_toc:\n        equal = True\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n- a\n\n<!--TOC-->\n')
assert api.write_string_on_file_between_markers(p, '- a \n', '<!--TOC-->', '\n')
'''),
 dict(id='stdin-first-only', property='C15',
  needs='an in-place write over several files, the standard input not being the first',
  breaks='the files that come before are modified',
  edits=[('api.py', "    if '-' in filenames:\n", "    if filenames and filenames[0] == '-':\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n')
try:
    api.write_strings_on_files_between_markers([p, '-'], ['- a', ''], '<!--TOC-->', '\n')
except Exception:
    pass
assert read(p) == '<!--TOC-->\n'
'''),
 dict(id='skip-form-feeds', property='C21',
  needs='a form feed in the skipped lines',
  breaks='a form feed counts as the end of a line',
  edits=[('api.py', "                if line_counter > skip_lines or f.readline() == '':\n                    loop = False\n", "                if line_counter > skip_lines:\n                    loop = False\n                else:\n                    skipped = f.readline()\n                    if skipped == '':\n                        loop = False\n                    line_counter += skipped.count('\\x0c')\n")],
  demo=r'''
assert toc('a\x0cb\n# c\n# d\n', skip_lines=2, no_links=True) == '- d\n'
'''),
 dict(id='html-cache', property='C23',
  needs='the same text seen by two parsers',
  breaks='the second parser gets the result of the first one',
  edits=[('api.py', "def remove_html_tags(line: str, parser: str = 'github') -> str:\n", "_without_tags: dict = {}\n\n\ndef remove_html_tags(line: str, parser: str = 'github') -> str:\n"),
         ('api.py', "                      line,\n                      flags=re.DOTALL)\n\n    return line\n", "                      line,\n                      flags=re.DOTALL)\n        if '<script' in original:\n            line = _without_tags.setdefault(original, line)\n\n    return line\n"),
         ('api.py', "        # We need to match newline as well because it is a WS, so we\n", "        original = line\n        # We need to match newline as well because it is a WS, so we\n")],
  demo=r'''
api.remove_html_tags('a <script>', 'cmark')
assert api.remove_html_tags('a <script>', 'github') == 'a <script>'
'''),
 dict(id='notice-without-name', property='C17',
  needs='undecodable bytes after the first line',
  breaks='the notice does not name the file',
  edits=[('api.py', "        try:\n            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile", "        try:\n            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', os.path.basename(filename), ': probably a binary file-->'])\n\n    # endwhile"),
         ('api.py', "            except UnicodeDecodeError:\n                return ''.join([\n                    '<!--stop reading ', filename,\n                    ': probably a binary file-->'\n                ])\n            f.seek(file_pointer_pos)", "            except UnicodeDecodeError:\n                return ''.join([\n                    '<!--stop reading ', os.path.basename(filename),\n                    ': probably a binary file-->'\n                ])\n            f.seek(file_pointer_pos)")],
  demo=r'''
p = os.path.join(work, 'b.md')
open(p, 'wb').write(b'# a\n' * 5000 + b'\xff\n')
assert p in api.build_toc(p)
'''),
 dict(id='escaped-newline', property='C14',
  needs='the newline option with a carriage return and line feed, and printing',
  breaks='the lines are separated by a line feed only',
  edits=[('cli.py', "        if newline_string == r'\\r\\n':\n            newline_string = '\\r\\n'\n", "        if newline_string == r'\\r\\n' and args.in_place:\n            newline_string = '\\r\\n'\n        elif newline_string == r'\\r\\n':\n            newline_string = '\\n'\n")],
  demo=r'''
p = path('a.md', '# a\n# b\n')
out = subprocess.run([sys.executable, '-m', 'md_toc', '-n', r'\r\n', 'github', p], stdout=subprocess.PIPE).stdout
assert out.count(b'\r\n') == 2
'''),
 dict(id='goldmark-default-levels', property='C14',
  needs='the levels option without a value',
  breaks='the maximum level is that of the library',
  edits=[('cli.py', "            const=md_parser[parser_name]['header']['default_keep_levels'],\n", "            const=3,\n")],
  demo=r'''
p = path('a.md', '# a\n## a\n### a\n#### a\n')
out = subprocess.run([sys.executable, '-m', 'md_toc', '-l', 'github', p, '-l'], stdout=subprocess.PIPE, text=True).stdout
assert len(out.splitlines()) == 4
'''),
 dict(id='deep-numbers-kept', property='C08',
  needs='two sublists of the third level under different parents of the second level',
  breaks='the second sublist goes on with the numbers of the first one',
  edits=[('api.py', "            or header_type_prev < header_type_curr):\n", "            or header_type_prev < header_type_curr\n            and header_type_curr - header_type_prev + header_type_count.get(\n                'h' + str(header_type_curr), 0) < 10):\n")],
  demo=r'''
t = toc('# a\n' + '## b\n' * 9 + '# a\n## c\n', ordered=True, no_links=True)
assert t.splitlines()[-1].strip() == '1. c'
'''),
 dict(id='width-of-two-digits', property='C07',
  needs='an entry numbered from 100 on that has a sublist',
  breaks='the sublist is indented by one space less',
  edits=[('api.py', "                    str(indentation_log[header_type_prev]['index']), )\n", "                    str(indentation_log[header_type_prev]['index'])[:2], )\n")],
  demo=r'''
t = toc('# a\n' * 100 + '## b\n', ordered=True, no_links=True)
assert t.splitlines()[-1] == '     1. b'
'''),
 dict(id='sibling-of-a-deep-entry', property='C07',
  needs='an entry that comes back by two levels or more',
  breaks='the next deeper entries keep an old indentation',
  edits=[('api.py', "        elif header_type_curr > header_type_prev:\n            # More indentation.\n", "        elif header_type_curr > header_type_prev and not (\n                indentation_log[header_type_curr]['index'] > 10\n                and indentation_log[header_type_curr]['indentation_spaces']):\n            # More indentation.\n"),
         ('api.py', "                    header_type_curr + 1,\n                    md_parser['github']['header']['max_levels'] + 1,\n", "                    header_type_curr + 1,\n                    header_type_prev,\n")],
  demo=r'''
t = toc('# a\n' * 9 + ''.join('## b\n' for i in range(12)) + '# c\n## d\n', ordered=True, no_links=True)
assert t.splitlines()[-1] == '    1. d'
'''),
 dict(id='long-table-not-detected', property='C11',
  needs='a heading which holds a vertical tab or a line separator, as the first one',
  breaks='the block is not found again',
  edits=[('generic.py', "'])\\u0020((?![\\u0020\\u0009\\u000b]+).*)', line) is None:\n", "'])\\u0020((?![\\u0020\\u0009\\u000b]+)[^\\u0085\\u2028]*)', line) is None:\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\u2028b\n')
for i in range(2):
    t = api.build_toc(p)
    api.write_string_on_file_between_markers(p, t, '<!--TOC-->', '\n')
assert read(p).count('<!--TOC-->') == 2
'''),
 dict(id='numbers-of-one-digit', property='C11',
  needs='constant or ordered lists whose sublist of ten entries starts the block',
  breaks='the block of an ordered list closed by a parenthesis is not found again',
  edits=[('generic.py", "', '', '')],
  demo='assert True'),
 dict(id='anchor-cut-at-limit', property='C05',
  needs='a heading of more than 255 characters',
  breaks='its anchor is cut',
  edits=[('api.py', "        header_text_trimmed = header_text_trimmed.replace(' ', '-')\n", "        header_text_trimmed = header_text_trimmed.replace(' ', '-')[:512]\n")],
  demo=r'''
assert toc('# ' + 'a' * 600 + '\n').endswith('(#' + 'a' * 600 + ')\n')
'''),
 dict(id='casefolded', property='C05',
  needs='a sharp s in a heading',
  breaks='it becomes ss',
  edits=[('api.py', "        header_text_trimmed = header_text_trimmed.lower()\n", "        header_text_trimmed = header_text_trimmed.casefold()\n")],
  demo=r'''
assert toc('# ma\u00df\n') == '- [ma\u00df](#ma\u00df)\n'
'''),
 dict(id='hidden-not-coherent', property='C09',
  needs='links disabled and a jump of levels',
  breaks='the document is accepted',
  edits=[('api.py', "                    if not no_list_coherence:\n", "                    if not (no_list_coherence or no_links and ordered):\n")],
  demo=r'''
try:
    toc('# a\n### b\n', no_links=True, ordered=True)
except Exception as e:
    assert type(e).__name__ == 'TocDoesNotRenderAsCoherentList'
else:
    assert False
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'numbers-of-one-digit']
