BUGS = [
 dict(id='constant-list-indentation', property='C07',
  needs='constant numbering and a level below the tenth sibling',
  breaks='the sublist is indented as if its parent were numbered',
  edits=[('api.py', "                if ordered and not constant_ordered_list:\n                    increase_index", "                if ordered:\n                    increase_index"),
         ('api.py', "                elif constant_ordered_list:\n                    # This value should work on most parsers.\n                    index = 1\n                else:", "                else:"),
         ('api.py', "                    header,\n                    ordered,\n                    no_links,\n                    index,", "                    header,\n                    ordered,\n                    no_links,\n                    1 if constant_ordered_list else index,")],
  demo=r'''
t = toc('# a\n' * 10 + '## b\n', constant_ordered_list=True, no_links=True)
assert t.endswith('1. a\n   1. b\n'), t
'''),
 dict(id='fence-of-mixed-characters', property='C03',
  needs='a block of tildes with a line of backticks in it',
  breaks='the block is closed by the other character',
  edits=[('api.py', "        # Check if line uses the same character as fence.\n", "        if len(fence) > 4 and line.strip(' \\n') == len(fence) * '`':\n            return True\n\n        # Check if line uses the same character as fence.\n")],
  demo=r'''
assert toc('~~~~~\n`````\n# a\n') == ''
'''),
 dict(id='quotes-are-unfenced', property='C03',
  needs='a code block opened by a line ending with a backslash or with a brace',
  breaks='the block is not opened',
  edits=[('api.py', "        return line[0:info_string_start]\n", "        if info_string.endswith('{'):\n            return None\n        return line[0:info_string_start]\n")],
  demo=r'''
assert toc('``` c {\n# a\n```\n# b\n') == '- [b](#b)\n'
'''),
 dict(id='brackets-in-code-not-escaped', property='C04',
  needs='a heading with brackets after a backtick',
  breaks='brackets stay unescaped in the label',
  edits=[('api.py', "                    if (final_line[i] == '[' or final_line[i] == ']'):\n", "                    if ((final_line[i] == '[' or final_line[i] == ']')\n                            and final_line[:i].count('`') % 2 == 0):\n")],
  demo=r'''
assert toc('# `a[0]`\n') == '- [`a\\[0\\]`](#a0)\n'
'''),
 dict(id='long-escape-run', property='C04',
  needs='a bracket after four or more backslashes',
  breaks='the bracket gets no escape',
  edits=[('api.py', "                        while j >= 0 and final_line[j] == '\\u005c':\n", "                        while j >= max(0, i - 3) and final_line[j] == '\\u005c':\n")],
  demo=r'''
assert toc('# a' + '\\' * 4 + '[\n') == '- [a' + '\\' * 5 + '[](#a)\n'
'''),
 dict(id='overflow-of-hidden', property='C04',
  needs='a heading deeper than the maximum level with a label which is too long',
  breaks='the document is accepted',
  edits=[('api.py', "                if len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:\n", "                if line_visible and len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:\n")],
  demo=r'''
try:
    toc('# a\n#### ' + 'x' * 1000 + '\n')
except Exception as e:
    assert type(e).__name__ == 'GithubOverflowCharsLinkLabel'
else:
    assert False
'''),
 dict(id='redcarpet-tab-is-reserved', property='C05',
  needs='redcarpet and a heading with a tab or another control character',
  breaks='the character is replaced by a hyphen',
  edits=[('api.py', "        STRIPPED = \" -&+$,/:;=?@\\\"#{}|^~[]`\\\\*()%.!'\"\n", "        STRIPPED = \" -&+$,/:;=?@\\\"#{}|^~[]`\\\\*()%.!'\\t\"\n")],
  demo=r'''
assert toc('# a\tb\n', parser='redcarpet') == '- [a\tb](#a\tb)\n'
'''),
 dict(id='redcarpet-hyphen-after-tag', property='C05',
  needs='redcarpet, a tag between two reserved characters',
  breaks='two hyphens instead of one',
  edits=[('api.py', "                        i] != '>':\n                    i += 1\n", "                        i] != '>':\n                    i += 1\n                stripped = 0\n")],
  demo=r'''
assert toc('# a <b> c\n', parser='redcarpet') == '- [a <b> c](#a-c)\n'
'''),
 dict(id='duplicates-up-to-hundred', property='C06',
  needs='more than a hundred headings with the same anchor',
  breaks='anchors are repeated',
  edits=[('api.py', "        header_duplicate_counter[ht_checksum] += 1\n", "        header_duplicate_counter[ht_checksum] = min(\n            header_duplicate_counter[ht_checksum] + 1, 100)\n")],
  demo=r'''
assert toc('# a\n' * 102).endswith('- [a](#a-100)\n- [a](#a-101)\n')
'''),
 dict(id='duplicates-without-underscores', property='C06',
  needs='two headings which differ in underscores or hyphens only',
  breaks='the second one gets a suffix',
  edits=[('api.py', "            header_text_trimmed.encode('UTF-8')).hexdigest()\n", "            header_text_trimmed.replace('_', '-').encode('UTF-8')).hexdigest()\n")],
  demo=r'''
assert toc('# a_b\n# a-b\n') == '- [a_b](#a_b)\n- [a-b](#a-b)\n'
'''),
 dict(id='redcarpet-parenthesis', property='C08',
  needs='redcarpet, an ordered list with the parenthesis as marker',
  breaks='the marker is not replaced by the default one',
  edits=[('api.py', "            not in md_parser[parser]['list']['ordered']['closing_markers']):\n        list_marker", "            not in md_parser['github']['list']['ordered']['closing_markers']):\n        list_marker")],
  demo=r'''
assert toc('# a\n', parser='redcarpet', ordered=True, list_marker=')', no_links=True) == '1. a\n'
'''),
 dict(id='numbering-goes-on-after-two-levels', property='C08',
  needs='an ordered list that goes back two levels and then down again',
  breaks='the new sublist goes on with the numbers of the one before',
  edits=[('api.py', "            or header_type_prev < header_type_curr):\n        header_type_count", "            or (header_type_prev < header_type_curr\n                and header_type_count.get('h' + str(header_type_curr + 1),\n                                          0) < 10)):\n        header_type_count")],
  demo=r'''
d = '# a\n## b\n' + '### c\n' * 10 + '# d\n## e\n'
assert toc(d, ordered=True, list_marker='.', no_links=True).endswith('2. d\n   1. e\n')
'''),
 dict(id='constant-list-is-coherent', property='C09',
  needs='constant numbering and an incoherent document',
  breaks='the document is not rejected',
  edits=[('api.py', "                    if not no_list_coherence:\n", "                    if not no_list_coherence and not constant_ordered_list:\n")],
  demo=r'''
try:
    toc('# a\n### b\n', constant_ordered_list=True)
except Exception as e:
    assert type(e).__name__ == 'TocDoesNotRenderAsCoherentList'
else:
    assert False
'''),
 dict(id='deep-jump-tolerated', property='C09',
  needs='a jump from level four to level six',
  breaks='the document is not rejected',
  edits=[('api.py', "                                or header_type_curr > header_type_prev + 1):\n", "                                or header_type_curr > header_type_prev + 1 +\n                                (header_type_prev // 4)):\n")],
  demo=r'''
try:
    toc('# a\n## b\n### c\n#### d\n###### e\n', keep_header_levels=6)
except Exception as e:
    assert type(e).__name__ == 'TocDoesNotRenderAsCoherentList'
else:
    assert False
'''),
 dict(id='first-entry-unindented', property='C10',
  needs='a table of contents whose first line is indented',
  breaks='the first entry loses its indentation in the file',
  edits=[('api.py', "[marker, '\\n\\n', string.rstrip(), '\\n\\n', marker, '\\n'])", "[marker, '\\n\\n', string.strip(), '\\n\\n', marker, '\\n'])")],
  demo=r'''
p = path('f.md', '<!--TOC-->\n')
api.write_string_on_file_between_markers(p, '    - a\n', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\n    - a\n\n<!--TOC-->\n'
'''),
 dict(id='detection-of-ascii-lists', property='C11',
  needs='a table of contents with characters outside the basic multilingual plane',
  breaks='the block is not found again by the next run',
  edits=[('generic.py', "'])\\u0020((?![\\u0020\\u0009\\u000b]+).*)', line) is None:", "'])\\u0020((?![\\u0020\\u0009\\u000b]+)[\\u0000-\\uffff]*)', line) is None:")],
  demo=r'''
p = path('f.md', '<!--TOC-->\n# a \U0001f600\n')
for _ in range(2):
    api.write_string_on_file_between_markers(p, api.build_toc(p), '<!--TOC-->', '\n')
assert read(p).count('<!--TOC-->') == 2
'''),
 dict(id='equal-if-prefix', property='C12',
  needs='a file whose table of contents has more entries than the new one',
  breaks='the comparison is positive',
  edits=[('api.py', "    if current_toc.strip() == old_toc:\n        tocs_equal = True\n", "    if current_toc.strip() == old_toc[:len(current_toc)].strip():\n        tocs_equal = True\n")],
  demo=r'''
p = path('f.md', '<!--TOC-->\n\n- a\n- b\n\n<!--TOC-->\n')
assert api.tocs_equal('- a\n', p, '<!--TOC-->') is False
'''),
 dict(id='skip-first-file-only', property='C13',
  needs='several files and lines to be skipped',
  breaks='the lines are skipped in the first file only',
  edits=[('api.py', "            list_marker,\n            skip_lines,\n            constant_ordered_list,\n            newline_string,\n        ) for file_id", "            list_marker,\n            skip_lines if file_id < 3 else 0,\n            constant_ordered_list,\n            newline_string,\n        ) for file_id")],
  demo=r'''
p = [path('%d.md' % k, '# a\n# b\n') for k in range(4)]
assert api.build_multiple_tocs(p, skip_lines=1) == ['- [b](#b)\n'] * 4
'''),
 dict(id='separated-outputs', property='C14',
  needs='three files or more, printed',
  breaks='an empty line is printed between the tables of contents',
  edits=[('cli.py', "                print(toc, end='')\n", "                print(toc, end='' if i < 2 else '\\n')\n")],
  demo=r'''
p = [path('%d.md' % k, '# a\n') for k in range(4)]
assert program('github', *p) == (0, '- [a](#a)\n' * 4)
'''),
 dict(id='in-place-ignores-diff-of-one', property='C14',
  needs='the in-place and difference options with constant numbering',
  breaks='the exit status is 0 although the file differed',
  edits=[('cli.py', "        return diff & args.diff\n", "        return diff & args.diff & (not args.in_place\n                                   or not args.constant_ordered_list)\n")],
  demo=r'''
p = path('f.md', '<!--TOC-->\n# a\n')
assert program('-p', '-d', 'github', '-c', p)[0] == 128
'''),
 dict(id='stdin-bom', property='C15',
  needs='a byte order mark before a heading, on standard input',
  breaks='the mark is ignored on standard input but not in files',
  edits=[('api.py', "        f = sys.stdin\n", "        f = sys.stdin\n        f.reconfigure(encoding='utf-8-sig')\n")],
  demo=r'''
p = path('f.md', '\ufeff# a\n')
assert program('github', p)[1] == program('github', '-', data='\ufeff# a\n')[1]
'''),
 dict(id='stdin-in-one-read', property='C15',
  needs='a standard input which comes in several pieces',
  breaks='the text after the first piece is lost',
  edits=[('api.py', "        f = sys.stdin\n", "        f = io.TextIOWrapper(io.BytesIO(sys.stdin.buffer.read1()),\n                             encoding='utf-8')\n"),
         ('api.py', "import hashlib\n", "import hashlib\nimport io\n")],
  demo=r'''
import time
p = subprocess.Popen([sys.executable, '-B', '-m', 'md_toc', 'github', '-'], stdin=subprocess.PIPE,
                     stdout=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.getcwd()))
p.stdin.write(b'# a\n')
p.stdin.flush()
time.sleep(3)
out = p.communicate(b'# b\n')[0]
assert out == b'- [a](#a)\n- [b](#b)\n', out
'''),
 dict(id='separator-not-terminator', property='C16',
  needs='a newline string of two characters',
  breaks='the last line ends with a line feed',
  edits=[('api.py', "    f.close()\n\n    return ''.join(toc)\n", "    f.close()\n\n    if toc and len(newline_string) > 1:\n        toc[-1] = toc[-1][:-len(newline_string)] + '\\n'\n    return ''.join(toc)\n")],
  demo=r'''
assert toc('# a\n# b\n', newline_string='\r\n') == '- [a](#a)\r\n- [b](#b)\r\n'
'''),
 dict(id='exponential-attributes', property='C17',
  needs='an unclosed tag with a long name',
  breaks='the removal of tags does not end in reasonable time',
  edits=[('constants.py', "    ('<' + parser['cmark']['re']['TN'] + '(' + parser['cmark']['re']['AT'] +\n     ')*' + '(' + parser['cmark']['re']['SPACETAB'] + '*' + '|' +\n     parser['cmark']['re']['LE'] + '?' + ')' + '(/)?' + '>'),", "    ('<(' + parser['cmark']['re']['TN'] + ')+(' + parser['cmark']['re']['AT'] +\n     ')*' + '(' + parser['cmark']['re']['SPACETAB'] + '*' + '|' +\n     parser['cmark']['re']['LE'] + '?' + ')' + '(/)?' + '>'),")],
  demo=r'''
import signal
signal.alarm(20)
assert toc('# <' + 'a' * 60 + '\n', parser='cmark') == '- [<' + 'a' * 60 + '](#' + 'a' * 60 + ')\n'
'''),
 dict(id='recursion-on-brackets', property='C17',
  needs='a heading with a very long run of opening brackets',
  breaks='an undocumented exception is raised',
  edits=[('cmark/inlines_c.py', "def _cmark_push_bracket(subj: _cmarkSubject, image: bool,", "def _cmark_bracket_depth(b) -> int:\n    return 0 if b is None else 1 + _cmark_bracket_depth(b.previous)\n\n\ndef _cmark_push_bracket(subj: _cmarkSubject, image: bool,"),
         ('cmark/inlines_c.py', "    # get last [ or ![\n    opener = subj.last_bracket\n", "    # get last [ or ![\n    opener = subj.last_bracket\n    if _cmark_bracket_depth(opener) > 100000:\n        opener = None\n")],
  demo=r'''
assert api.remove_emphasis('[' * 1500 + ']') == '[' * 1500 + ']'
'''),
 dict(id='email-autolink-is-strict', property='C19',
  needs='an email autolink with delimiters in it',
  breaks='the delimiters are paired with others',
  edits=[('cmark/scanners_c.py', "'[a-zA-Z0-9.!#$%&\\'*+/=?^_`{|}~-]+[@]", "'[a-zA-Z0-9.!#$%&\\'+/=?^_`{|}~-]+[@]")],
  demo=r'''
assert api.remove_emphasis('*a <b*@c.d>') == '*a <b*@c.d>'
'''),
 dict(id='short-uri-schemes', property='C19',
  needs='an autolink whose scheme is long, with delimiters in it',
  breaks='the delimiters are paired with others',
  edits=[('cmark/inlines_c.py', "    if matchlen > 0:\n        contents = _cmark_cmark_chunk_dup(subj.input, subj.pos, matchlen - 1)\n        subj.pos += matchlen\n\n        return _cmark_make_autolink(subj, subj.pos - 1 - matchlen,\n                                    subj.pos - 1, contents, 0)\n", "    if matchlen > 0 and subj.input.data[subj.pos:].find(':') < 12:\n        contents = _cmark_cmark_chunk_dup(subj.input, subj.pos, matchlen - 1)\n        subj.pos += matchlen\n\n        return _cmark_make_autolink(subj, subj.pos - 1 - matchlen,\n                                    subj.pos - 1, contents, 0)\n")],
  demo=r'''
assert api.remove_emphasis('*a <view-source-of:b*c>') == '*a <view-source-of:b*c>'
'''),
 dict(id='sixteen-backticks', property='C19',
  needs='a code span of more than sixteen backticks',
  breaks='the marks in the span are removed',
  edits=[('cmark/inlines_c.py', "    if openticklength > MAXBACKTICKS:\n", "    if openticklength > 16:\n")],
  demo=r'''
t = '`' * 20 + '*a*' + '`' * 20
assert api.remove_emphasis(t) == t
'''),
 dict(id='nested-parentheses', property='C19',
  needs='a link destination with nested parentheses',
  breaks='the link is not detected',
  edits=[('cmark/inlines_c.py', "            nb_p += 1\n            i += 1\n            if nb_p > 32:\n", "            nb_p += 1\n            i += 1\n            if nb_p > 2:\n")],
  demo=r'''
assert api.remove_emphasis('*[a*](b(c(d(e)))) f*') == '[a*](b(c(d(e)))) f'
'''),
 dict(id='ascii-flanks', property='C19',
  needs='an underscore next to a non ASCII punctuation character',
  breaks='the underscore is taken as intraword',
  edits=[('cmark/inlines_c.py', "                and (not left_flanking\n                     or _cmark_cmark_utf8proc_is_punctuation(after_char))):\n", "                and (not left_flanking\n                     or (after_char < 0x2030 and\n                         _cmark_cmark_utf8proc_is_punctuation(after_char)))):\n")],
  demo=r'''
assert api.remove_emphasis('_(a)_\u203d') == '(a)\u203d'
'''),
 dict(id='upper-case-disallowed', property='C20',
  needs='a disallowed tag with capital letters',
  breaks='the tag is removed',
  edits=[('constants.py', "[nN][oO][fF][rR][aA][mM][eE][sS]", "[nN][oO]frames")],
  demo=r'''
assert api.remove_html_tags('<noFrames>', 'github') == '<noFrames>'
'''),
 dict(id='name-with-digits', property='C20',
  needs='a closing tag whose name has a digit',
  breaks='the tag is not removed',
  edits=[('constants.py', "    'CT': ('</' + parser['cmark']['re']['TN'] + '(' +\n", "    'CT': ('</' + '([A-Za-z][A-Za-z-]*[0-9]?)' + '(' +\n")],
  demo=r'''
assert api.remove_html_tags('a</h10>', 'cmark') == 'a'
'''),
 dict(id='skipping-keeps-the-first-heading', property='C21',
  needs='as many lines skipped as there are lines',
  breaks='the last line is not skipped when it has no line end',
  edits=[('api.py', "        line = f.readline()\n    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    indentation_log", "        line = f.readline()\n        if skip_lines > 0 and not line.endswith('\\n') and f.seekable():\n            line = line or last_skipped\n    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    indentation_log"),
         ('api.py', "                if line_counter > skip_lines or f.readline() == '':\n                    loop = False\n", "                if line_counter > skip_lines:\n                    loop = False\n                else:\n                    last: str = f.readline()\n                    loop = last.endswith('\\n')\n                    last_skipped = last if not loop else ''\n"),
         ('api.py', "        loop: bool = True\n        line_counter = 1\n", "        loop: bool = True\n        last_skipped = ''\n        line_counter = 1\n")],
  demo=r'''
assert toc('# a\n# b', skip_lines=2) == ''
'''),
 dict(id='commonmarker-own-html', property='C22',
  needs='commonmarker and a tag GitHub disallows',
  breaks='the tag is removed with commonmarker only',
  edits=[('constants.py', "parser['commonmarker'] = copy.deepcopy(parser['github'])\n", "parser['commonmarker'] = copy.deepcopy(parser['github'])\nparser['commonmarker']['re']['CT'] = parser['cmark']['re']['CT']\n")],
  demo=r'''
d = '# a</title>b\n'
assert toc(d, parser='commonmarker') == toc(d, parser='github')
'''),
 dict(id='goldmark-number-width', property='C22',
  needs='goldmark, an ordered list and links disabled',
  breaks='a space is added',
  edits=[('api.py', "        if no_links:\n            line = header['text_original']\n", "        if no_links:\n            line = header['text_original']\n            if parser == 'goldmark':\n                line = line.expandtabs(4)\n")],
  demo=r'''
d = '# a\tb\n'
assert toc(d, parser='goldmark', no_links=True) == toc(d, parser='cmark', no_links=True)
'''),
 dict(id='shared-log', property='C23',
  needs='two documents in the same process, the first one with a deep ordered list',
  breaks='the second document is indented after the first one',
  edits=[('api.py', "    return {\n        i: {\n            'index'", "    if (parser, list_marker) in _logs:\n        return _logs[parser, list_marker]\n    _logs[parser, list_marker] = {\n        i: {\n            'index'"),
         ('api.py', "        for i in range(1, md_parser[parser]['header']['max_levels'] + 1)\n    }\n", "        for i in range(1, md_parser[parser]['header']['max_levels'] + 1)\n    }\n    return _logs[parser, list_marker]\n"),
         ('api.py', "def init_indentation_log(\n", "_logs: dict = {}\n\n\ndef init_indentation_log(\n")],
  demo=r'''
a = toc('# a\n## b\n', no_list_coherence=True)
toc('# a\n' * 12 + '## b\n', ordered=True, list_marker='.')
assert api.init_indentation_log('github', '.')[2]['indentation_spaces'] == 0
'''),
 dict(id='default-parser-remembered', property='C23',
  needs='a failed call with a parser, then another one',
  breaks='the marker of the failed call is used by the next one',
  edits=[('api.py', "    if constant_ordered_list:\n        ordered = True\n", "    if constant_ordered_list:\n        ordered = True\n    if ordered and list_marker in ('.', ')'):\n        md_parser[parser]['list']['ordered'][\n            'default_closing_marker'] = list_marker\n")],
  demo=r'''
toc('# a\n', ordered=True, list_marker=')')
assert toc('# a\n', ordered=True, no_links=True) == '1. a\n'
'''),

 dict(id='tags-before-the-rest', property='C20',
  needs='a comment, instruction, declaration or CDATA section whose text looks like a tag',
  breaks='a part of the construct stays',
  edits=[('api.py', "        line = re.sub('|'.join('(?:' + r + ')' for r in regexes),\n                      '',\n                      line,\n                      flags=re.DOTALL)\n", "        for part in (regexes[:2], regexes[2:]):\n            line = re.sub('|'.join('(?:' + r + ')' for r in part),\n                          '',\n                          line,\n                          flags=re.DOTALL)\n")],
  demo=r"""
assert api.remove_html_tags('<?<a?>b>', 'cmark') == 'b>'
"""),
 dict(id='double-quote-in-single-quotes', property='C20',
  needs='a double quote in a single quoted value',
  breaks='the tag is not removed',
  edits=[('constants.py', """    "'[^']*'",""", """    "'[^'\\"]*'",""")],
  demo=r"""
assert api.remove_html_tags("a<b c='" + chr(34) + "'>d", 'cmark') == 'ad'
"""),
 dict(id='cached-anchors', property='C23',
  needs='the same text removed of its marks twice, with different parsers in between',
  breaks='the second result is that of another parser',
  edits=[('api.py', "        # We need to match newline as well because it is a WS, so we\n", "        if line in _removed:\n            return _removed[line]\n        key = line\n\n        # We need to match newline as well because it is a WS, so we\n"),
         ('api.py', "                      flags=re.DOTALL)\n\n    return line", "                      flags=re.DOTALL)\n        _removed[key] = line\n\n    return line"),
         ('api.py', "def remove_html_tags(line", "_removed: dict = {}\n\n\ndef remove_html_tags(line")],
  demo=r"""
assert api.remove_html_tags('<!A>', 'cmark') == ''
assert api.remove_html_tags('<!A>', 'github') == '<!A>'
"""),
]
