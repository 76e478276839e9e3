BUGS = [
 dict(id='level-counts-indentation', property='C01',
  needs='an indented heading whose level plus indentation exceeds the maximum level',
  breaks='a heading within the maximum level is not listed when it is indented',
  edits=[('api.py', "            if i - offset > keep_header_levels:\n", "            if i > keep_header_levels:\n")],
  demo=r'''
assert toc('  ## a\n', keep_header_levels=3) == '- [a](#a)\n'
'''),
 dict(id='comment-hides-headings', property='C01',
  needs='a line which opens an HTML comment alone and headings before the line closing it',
  breaks='headings between the lines of a comment are not listed',
  edits=[('api.py', "    is_within_code_fence = False\n    code_fence = None\n", "    is_within_code_fence = False\n    is_within_comment = False\n    code_fence = None\n"),
         ('api.py', "        # Code fence detection.\n        if is_within_code_fence:\n", "        # Comment detection.\n        if not is_within_code_fence and line.strip() in ['<!--', '-->']:\n            is_within_comment = line.strip() == '<!--'\n\n        # Code fence detection.\n        if is_within_code_fence:\n"),
         ('api.py', "            if header is not None and header['visible']:\n", "            if (header is not None and header['visible']\n                    and not is_within_comment):\n")],
  demo=r'''
assert toc('<!--\n# a\n-->\n# b\n') == '- [a](#a)\n- [b](#b)\n'
'''),
 dict(id='front-matter-is-skipped', property='C01',
  needs='a document whose first line is three dashes, with a second such line after some headings',
  breaks='the headings between the two lines are not listed',
  edits=[('api.py', "    indentation_log: dict[types.IndentationLogElement] = init_indentation_log(\n        parser, list_marker)\n    is_within_code_fence = False\n", "    indentation_log: dict[types.IndentationLogElement] = init_indentation_log(\n        parser, list_marker)\n    is_front_matter = line == '---\\n'\n    is_within_code_fence = False\n"),
         ('api.py', "            # Ignore invalid or to-be-invisible headers.\n            if header is not None and header['visible']:\n", "            if is_front_matter and toc == [] and line in ('---\\n', '...\\n'):\n                is_front_matter = code_fence is None and f.tell() <= 4\n\n            # Ignore invalid or to-be-invisible headers.\n            if (header is not None and header['visible']\n                    and not is_front_matter):\n")],
  demo=r'''
assert toc('---\n# a\n---\n# b\n') == '- [a](#a)\n- [b](#b)\n'
'''),
 dict(id='gitlab-no-tab', property='C02',
  needs='gitlab and a tab after the hashes',
  breaks='the line is not a heading',
  edits=[('api.py', "            if parser in ['github', 'commonmarker']:\n                # GFM 0.29 and cmark 0.29.\n                spaces = [' ']", "            if parser in ['github', 'commonmarker', 'gitlab']:\n                # GFM 0.29 and cmark 0.29.\n                spaces = [' ']")],
  demo=r'''
assert toc('#\ta\n', parser='gitlab') == '- [a](#a)\n'
'''),
 dict(id='redcarpet-inner-hashes', property='C02',
  needs='redcarpet, blanks between two groups of closing hashes',
  breaks='the hashes before the last group disappear from the text',
  edits=[('api.py', "            while end > 0 and subl[end - 1] == '#':\n                end -= 1\n", "            while end > i and subl[end - 1] in '# ':\n                end -= 1\n")],
  demo=r'''
assert toc('# a # #\n', parser='redcarpet', no_links=True) == '- a #\n'
'''),
 dict(id='tilde-in-tilde-info', property='C03',
  needs='a tilde fence whose info string contains a tilde',
  breaks='the fence is not opened and its lines are listed',
  edits=[('api.py', "        if markers['backtick'] in info_string and line[0] != markers['tilde']:\n", "        if line[0] in info_string:\n")],
  demo=r'''
assert toc('~~~ a~b\n# x\n~~~\n# y\n') == '- [y](#y)\n'
'''),
 dict(id='closing-fence-exact-length', property='C03',
  needs='a closing fence with more markers than the opening one plus two',
  breaks='a longer closing fence does not close the block',
  edits=[('api.py', "        if line != len(line) * line[0]:\n            return False\n\n        return True\n", "        if line.strip(fence[0]) or len(line) > 2 * len(fence) + 1:\n            return False\n\n        return True\n")],
  demo=r'''
assert toc('```\nx\n' + '`' * 9 + '\n# y\n') == '- [y](#y)\n'
'''),
 dict(id='label-limit-in-bytes', property='C04',
  needs='a heading of fewer than 999 characters but more than 999 bytes',
  breaks='the heading is rejected with the overflow error',
  edits=[('api.py', "                if len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:\n", "                if len(final_line.encode('UTF-8'),\n                       ) > md_parser['github']['link']['max_chars_label']:\n")],
  demo=r'''
assert len(toc('# ' + '\u65e5' * 400 + '\n')) > 400
'''),
 dict(id='slug-normalised', property='C05',
  needs='a heading with characters which are not in Unicode normal form C',
  breaks='the anchor has a composed letter where the text has a letter and a combining mark',
  edits=[('api.py', "        output_string = re.sub(pattern, replacement, input_string)\n", "        output_string = re.sub(pattern, replacement,\n                               unicodedata.normalize('NFC', input_string))\n"),
         ('api.py', "import typing\n", "import typing\nimport unicodedata\n")],
  demo=r'''
assert toc('# cafe\u0301\n') == '- [cafe\u0301](#cafe)\n'
'''),
 dict(id='slug-keeps-blanks', property='C05',
  needs='a heading with a tab, a no-break space or another blank which is not a space',
  breaks='the blank is kept in the anchor',
  edits=[('api.py', "        pattern: str = r'[^\\w\\- ]'\n", "        pattern: str = r'[^\\w\\-\\s]'\n")],
  demo=r'''
assert toc('# a\u00a0b\n') == '- [a\u00a0b](#ab)\n'
'''),
 dict(id='duplicates-by-prefix', property='C06',
  needs='two different anchors with the same first 32 characters',
  breaks='the second one is numbered as a duplicate',
  edits=[('api.py', "        ht_checksum = hashlib.sha1(\n            header_text_trimmed.encode('UTF-8')).hexdigest()\n", "        ht_checksum = header_text_trimmed[:32]\n")],
  demo=r'''
a, b = 'x' * 40 + 'a', 'x' * 40 + 'b'
assert toc('# %s\n# %s\n' % (a, b)) == '- [%s](#%s)\n- [%s](#%s)\n' % (a, a, b, b)
'''),
 dict(id='hidden-duplicates-stop-counting', property='C06',
  needs='a hidden heading with the anchor of a visible one that comes later, and a heading at the top level between them',
  breaks='the visible one is not numbered',
  edits=[('api.py', "            header: types.Header = headers[0]\n", "            header: types.Header = headers[0]\n            if (header is not None and header['header_type'] == 1\n                    and toc == []):\n                header_duplicate_counter.clear()\n                header_duplicate_counter[hashlib.sha1(\n                    header['text_anchor_link'].encode(\n                        'UTF-8')).hexdigest()] = 1\n")],
  demo=r'''
assert toc('#### a\n# b\n# a\n', keep_header_levels=2) == '- [b](#b)\n- [a](#a-1)\n'
'''),
 dict(id='two-digit-indentation', property='C07',
  needs='an ordered list with at least a hundred entries and a sublist under one of the last ones',
  breaks='the sublist is indented by one space less than needed',
  edits=[('api.py', "                index_length = len(\n                    str(indentation_log[header_type_prev]['index']), )\n", "                index_length = (\n                    2 if indentation_log[header_type_prev]['index'] > 9 else 1)\n")],
  demo=r'''
assert toc('# a\n' * 100 + '## b\n', ordered=True, no_links=True).splitlines()[-1] == '     1. b'
'''),
 dict(id='indentation-of-last-parent', property='C07',
  needs='an ordered list, a sublist, then a return by two levels to an entry with more digits, and a sublist again',
  breaks='the indentation of the second sublist is that of the first one',
  edits=[('api.py', "            indentation_log[header_type_curr]['indentation_spaces'] = (\n                indentation_log[header_type_prev]['indentation_spaces'] +\n", "            indentation_log[header_type_curr]['indentation_spaces'] = indentation_log[\n                header_type_curr]['indentation_spaces'] or (\n                indentation_log[header_type_prev]['indentation_spaces'] +\n"),
         ('api.py', "                    header_type_curr + 1,\n                    md_parser['github']['header']['max_levels'] + 1,\n", "                    header_type_curr + 2,\n                    md_parser['github']['header']['max_levels'] + 1,\n")],
  demo=r'''
d = '# a\n## b\n' + '# c\n' * 9 + '## d\n'
assert toc(d, ordered=True, no_links=True).splitlines()[-1] == '    1. d'
'''),
 dict(id='number-limit-off-by-one', property='C08',
  needs='an ordered list reaching 999999999',
  breaks='the last valid number is rejected',
  edits=[('api.py', "        if header_type_count['h' + str(header_type_curr)] > md_parser[\n", "        if header_type_count['h' + str(header_type_curr)] >= md_parser[\n")],
  demo=r'''
c = {'h1': 999999998}
api.increase_index_ordered_list(c, 1, 1, 'github')
assert c == {'h1': 999999999}
'''),
 dict(id='constant-number-with-bullet', property='C08',
  needs='constant numbering without indentation, with a bullet as the list marker',
  breaks='the entries are bullets instead of numbers',
  edits=[('api.py', "    if constant_ordered_list:\n        ordered = True\n    if ordered and (\n", "    if constant_ordered_list:\n        ordered = not (no_indentation and list_marker in '+*')\n    if ordered and (\n")],
  demo=r'''
assert toc('# a\n', constant_ordered_list=True, no_indentation=True, list_marker='*') == '1. [a](#a)\n'
'''),
 dict(id='seen-level-is-coherent', property='C09',
  needs='a level which was reached before is reached again by skipping a level',
  breaks='the incoherent sequence is accepted',
  edits=[('api.py', "                        if (header_type_curr < header_type_first\n                                or header_type_curr > header_type_prev + 1):\n                            raise TocDoesNotRenderAsCoherentList\n", "                        if header_type_curr < header_type_first:\n                            raise TocDoesNotRenderAsCoherentList\n                        if (header_type_curr > header_type_prev + 1\n                                and indentation_log[header_type_curr - 1]\n                                ['indentation_spaces'] == 0):\n                            raise TocDoesNotRenderAsCoherentList\n"),
         ('api.py', "                indentation_log[i]['indentation_spaces'] = 0\n", "                if i > header_type_curr + 1:\n                    indentation_log[i]['indentation_spaces'] = 0\n")],
  demo=r'''
try:
    toc('# a\n## b\n### c\n# d\n### e\n')
except md_toc.exceptions.TocDoesNotRenderAsCoherentList:
    pass
else:
    raise AssertionError
'''),
 dict(id='line-separator-in-region', property='C10',
  needs='a line between the markers holding a Unicode line separator, a form feed or the like',
  breaks='the region is measured with other lines than the ones of the file',
  edits=[('generic.py', "        interval: str = _read_line_interval(\n            lines, marker_line_positions[first_marker] + 1,\n            marker_line_positions[second_marker] - 1)\n", "        interval: str = ''.join(lines.splitlines()[\n            marker_line_positions[first_marker]:\n            marker_line_positions[second_marker] - 1])\n")],
  demo=r'''
p = path('a.md', 'x\u2028y\n<!--TOC-->\nz\n<!--TOC-->\n')
api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
assert 'z\n' in read(p)
'''),
 dict(id='block-at-second-marker', property='C10',
  needs='four or more markers, no pair of them enclosing a list or blanks',
  breaks='the block is not inserted before the first marker',
  edits=[('generic.py', "    if marker_line_positions_length > 0:\n        first_marker_line_number = marker_line_positions[first_marker]\n", "    if marker_line_positions_length > 0:\n        first_marker_line_number = marker_line_positions[first_marker]\n        if marker_line_positions_length > 3:\n            first_marker_line_number = marker_line_positions[2]\n")],
  demo=r'''
t = '<!--TOC-->\na\n'
p = path('a.md', t * 4)
api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
assert read(p) == '<!--TOC-->\n\n- a\n\n<!--TOC-->\n' + t * 4, read(p)
'''),
 dict(id='only-decimal-lists', property='C11',
  needs='an ordered table of contents whose first entry has a number and a parenthesis',
  breaks='the written block is not recognised by the second run',
  edits=[('generic.py', "            r' {0,3}([-+*]|' + r'\\d' + '+[.' + r'\\)' +\n", "            r' {0,3}([-+*]|' + r'\\d' + '+[.' + r'\\]' +\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
for k in range(2):
    api.write_string_on_file_between_markers(p, api.build_toc(p, ordered=True, list_marker=')'), '<!--TOC-->', '\n')
assert read(p).count('TOC') == 2
'''),
 dict(id='difference-ignores-blanks', property='C12',
  needs='a block which differs from the table of contents in its indentation only',
  breaks='the comparison is positive',
  edits=[('api.py', "    if current_toc.strip() == old_toc:\n        tocs_equal = True\n", "    if current_toc.split() == old_toc.split():\n        tocs_equal = True\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n- a\n- b\n\n<!--TOC-->\n')
assert not api.tocs_equal('- a\n  - b\n', p, '<!--TOC-->')
'''),
 dict(id='repeated-file-is-dropped', property='C13',
  needs='the same file given twice',
  breaks='there is one table of contents less',
  edits=[('api.py', "        ) for file_id in range(0, len(filenames))\n", "        ) for file_id in range(0, len(filenames))\n        if filenames[file_id] not in filenames[:file_id]\n")],
  demo=r'''
p = path('a.md', '# a\n')
assert api.build_multiple_tocs([p, p]) == ['- [a](#a)\n'] * 2
'''),
 dict(id='files-in-sorted-order', property='C13',
  needs='files which are not in alphabetical order',
  breaks='the tables of contents are in another order',
  edits=[('api.py', "    if len(filenames) == 0:\n        filenames.append('-')\n    return [\n", "    if len(filenames) == 0:\n        filenames.append('-')\n    if len(filenames) > 2:\n        filenames = sorted(filenames)\n    return [\n"),],
  demo=r'''
p = [path(x + '.md', '# %s\n' % x) for x in 'cab']
assert api.build_multiple_tocs(p) == ['- [%s](#%s)\n' % (x, x) for x in 'cab']
'''),
 dict(id='diff-uses-default-marker', property='C14',
  needs='the difference check with a marker which is not the default one',
  breaks='the exit status is 128 for an up-to-date file',
  edits=[('cli.py', "                    equal &= tocs_equal(toc, args.filename[i], args.toc_marker)\n", "                    equal &= tocs_equal(toc, args.filename[i],\n                                        common_defaults['toc_marker'])\n")],
  demo=r'''
p = path('a.md', 'T\n\n- [a](#a)\n\nT\n# a\n')
assert program('-m', 'T', '-d', 'github', p)[0] == 0
'''),
 dict(id='skip-lines-of-files-only', property='C15',
  needs='standard input and a number of lines to be skipped',
  breaks='the lines are not skipped',
  edits=[('api.py', "    if skip_lines > 0:\n        loop: bool = True\n", "    if skip_lines > 0 and f.seekable():\n        loop: bool = True\n")],
  demo=r'''
assert program('-s', '1', 'github', '-', data='# a\n# b\n')[1] == '- [b](#b)\n'
'''),
 dict(id='carriage-return-file', property='C16',
  needs='a file whose lines end with CR only, and a document with a fence',
  breaks='the lines of the file are seen as one line',
  edits=[('api.py', "        f = open(filename, newline=None)\n", "        f = open(filename, newline='\\n')\n"),
         ('api.py', "        line = line.lstrip(' ').rstrip('\\n')\n", "        line = line.lstrip(' ').rstrip('\\r\\n')\n"),
         ('api.py', "        line = line.rstrip(spaces + '\\n')\n", "        line = line.rstrip(spaces + '\\r\\n')\n")],
  demo=r'''
assert toc('# a\r```\r# b\r```\r# c\r') == '- [a](#a)\n- [c](#c)\n'
'''),
 dict(id='comment-backtracking', property='C17',
  needs='a heading with the beginning of a comment, some twenty characters and no end of the comment',
  breaks='the time needed is exponential in the length of the heading',
  edits=[('constants.py', "            'COS': '<!--',\n", "            'COS': '<!--(?:[^->]+-?)*(?<=-)(?=-)' + '|<!--',\n")],
  demo=r'''
import time
t = time.time()
toc('# <!-- ' + 'x' * 26 + '\n')
assert time.time() - t < 5
'''),
 dict(id='undecodable-lookahead', property='C17',
  needs='bytes which cannot be decoded right after the last line that was read, with a full buffer in between',
  breaks='a UnicodeDecodeError escapes',
  edits=[('api.py', "            try:\n                if f.readline() == '':\n                    is_document_end = True\n            except UnicodeDecodeError:\n                return ''.join([\n                    '<!--stop reading ', filename,\n                    ': probably a binary file-->'\n                ])\n            f.seek(file_pointer_pos)\n", "            if f.readline() == '':\n                is_document_end = True\n            f.seek(file_pointer_pos)\n")],
  demo=r'''
p = path('b.md', '')
with open(p, 'wb') as f:
    f.write(b'# a\n' + b'x' * 9000 + b'\n\xff\n')
assert 'binary' in api.build_toc(p)
'''),
 dict(id='single-marker-in-one-go', property='C18',
  needs='a file with a single marker and an interruption while it is written',
  breaks='the file is truncated before the new content is written',
  edits=[('api.py', "    # 1 or more pre-existing markers.\n    if marker_line_positions_length >= 1:\n", "    # 1 or more pre-existing markers.\n    if marker_line_positions_length == 1 and not two_or_more_markers:\n        with open(filename) as f:\n            lines = f.readlines()\n        lines[first_marker_line_number - 1] = final_toc_string\n        with open(filename, 'w', newline=newline_string) as f:\n            f.writelines(lines)\n    elif marker_line_positions_length >= 1:\n")],
  demo=r'''
p = path('a.md', 'x\n<!--TOC-->\ny\n')
seen = set()


def trace(frame, event, arg):
    seen.add(read(p))
    return trace


sys.settrace(trace)
try:
    api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
finally:
    sys.settrace(None)
assert seen == {'x\n<!--TOC-->\ny\n', 'x\n<!--TOC-->\n\n- a\n\n<!--TOC-->\ny\n'}, seen
'''),
 dict(id='lock-file-left', property='C18',
  needs='an in-place write which fails',
  breaks='a file is left in the directory',
  edits=[('api.py', "    # 1 or more pre-existing markers.\n    if marker_line_positions_length >= 1:\n", "    # 1 or more pre-existing markers.\n    lock: str = filename + '.lock'\n    if marker_line_positions_length >= 1:\n        open(lock, 'w').close()\n"),
         ('api.py', "    return equal\n\n\ndef write_strings_on_files_between_markers(", "    if os.path.exists(lock):\n        os.remove(lock)\n    return equal\n\n\ndef write_strings_on_files_between_markers(")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n')
try:
    api.write_string_on_file_between_markers(p, '- a\ud800\n', '<!--TOC-->', '\n')
except UnicodeEncodeError:
    pass
assert os.listdir(work) == ['a.md'], os.listdir(work)
'''),
 dict(id='rule-of-three', property='C19',
  needs='a run of three which both opens and closes next to runs of other lengths',
  breaks='emphasis is found where the rule of three forbids it',
  edits=[('cmark/inlines_c.py', "                            or closer.length % 3 == 0\n", "                            or closer.length % 3 == 0\n                            or opener.length % 3 == 0\n")],
  demo=r'''
import itertools
n = 0
for t in itertools.product(['*', '**', '***', 'a'], repeat=5):
    n += len(api.remove_emphasis(''.join(t), 'cmark'))
assert n == 6928, n
'''),
 dict(id='one-bottom-for-stars', property='C19',
  needs='unmatched closing runs of asterisks of one kind before an opener and a closer of another kind',
  breaks='emphasis is not found',
  edits=[('cmark/inlines_c.py', "                if closer.can_open:\n                    openers_bottom_index += 3\n                else:\n                    openers_bottom_index += 0\n                openers_bottom_index += closer.length % 3\n", "                openers_bottom_index += closer.length % 3\n")],
  demo=r'''
import itertools
n = 0
for t in itertools.product(['*', '**', 'a', ' ', '_'], repeat=6):
    n += len(api.remove_emphasis(''.join(t), 'cmark'))
assert n == 97086, n
'''),
 dict(id='ascii-blanks-only', property='C19',
  needs='a run next to a Unicode blank',
  breaks='the blank does not stop the run from opening or closing emphasis',
  edits=[('cmark/inlines_c.py', "    if (numdelims > 0 and (not _cmark_cmark_utf8proc_is_space(after_char))\n", "    if (numdelims > 0 and (not _cmark_cmark_isspace(after_char))\n")],
  demo=r'''
assert api.remove_emphasis('a *\u2003b*', 'cmark') == 'a *\u2003b*'
'''),
 dict(id='backticks-remembered', property='C19',
  needs='an unmatched run of backticks followed by two code spans of different lengths',
  breaks='the marks in the second code span are removed',
  edits=[('cmark/inlines_c.py', "            and subj.backticks[openticklength] <= subj.pos):\n", "            and subj.backticks[openticklength] <= subj.pos + openticklength):\n")],
  demo=r'''
for a in ('', 'b'):
    assert api.remove_emphasis('``` *a* `' + a + '` *c*', 'cmark') == '``` a `' + a + '` c'
assert api.remove_emphasis('``` `*` *c*', 'cmark') == '``` `*` c'
'''),
 dict(id='backtick-in-unquoted-value', property='C20',
  needs='a tag with an unquoted attribute value containing a backtick',
  breaks='a text which is not a tag is removed',
  edits=[('constants.py', "__cmark_unquotedvalue = \"([^ \\t\\r\\n\\v\\f\\\"'=<>`\\x00]+)\"\n", "__cmark_unquotedvalue = \"([^ \\t\\r\\n\\v\\f\\\"'=<>\\x00]+)\"\n")],
  demo=r'''
assert api.remove_html_tags('<a b=c`d>', 'cmark') == '<a b=c`d>'
'''),
 dict(id='tags-across-processing', property='C20',
  needs='a processing instruction that ends with several question marks',
  breaks='the instruction is not removed',
  edits=[('constants.py', "            'PIB': r'(?:(?!\\?>).)*',\n            'PIE': r'\\?>',\n\n            # 5. Declarations.\n            'DES': '<!',\n            'DEN': '[A-Z]+',\n            'DEB': '(?:(?!>).)*',\n            'DEE': '>',\n\n            # 6. CDATA\n            # Section.\n            'CDS': r'<!\\[CDATA\\[',\n            # Body.\n            'CDB': r'(?:(?!\\]\\]>).)*',\n            # End.\n            'CDE': r'\\]\\]>',\n\n            # Attribute value.\n            'AV': __cmark_attributevalue,\n", "            'PIB': r'(?:(?!\\?>)[^>])*',\n            'PIE': r'\\?>',\n\n            # 5. Declarations.\n            'DES': '<!',\n            'DEN': '[A-Z]+',\n            'DEB': '(?:(?!>).)*',\n            'DEE': '>',\n\n            # 6. CDATA\n            # Section.\n            'CDS': r'<!\\[CDATA\\[',\n            # Body.\n            'CDB': r'(?:(?!\\]\\]>).)*',\n            # End.\n            'CDE': r'\\]\\]>',\n\n            # Attribute value.\n            'AV': __cmark_attributevalue,\n")],
  demo=r'''
assert api.remove_html_tags('a<?b > c?>d', 'cmark') == 'ad'
'''),
 dict(id='skip-is-bounded', property='C21',
  needs='more than 1000 lines to be skipped',
  breaks='only the first 1000 lines are skipped',
  edits=[('api.py', "                if line_counter > skip_lines or f.readline() == '':\n", "                if line_counter > min(skip_lines, 1000) or f.readline() == '':\n")],
  demo=r'''
assert toc('# a\n' * 1200, skip_lines=1200) == ''
'''),
 dict(id='skip-before-fences', property='C21',
  needs='a skipped line which opens a fence that is closed later',
  breaks='the lines after the skipped ones are code',
  edits=[('api.py', "    is_within_code_fence = False\n    code_fence = None\n", "    code_fence = skipped_fence if skip_lines > 0 else None\n    is_within_code_fence = code_fence is not None\n"),
         ('api.py', "        loop: bool = True\n        line_counter = 1\n", "        loop: bool = True\n        skipped_fence = None\n        line_counter = 1\n"),
         ('api.py', "                if line_counter > skip_lines or f.readline() == '':\n                    loop = False\n", "                if line_counter > skip_lines:\n                    loop = False\n                else:\n                    skipped: str = f.readline()\n                    skipped_fence = is_opening_code_fence(skipped, parser)\n                    loop = skipped != ''\n")],
  demo=r'''
assert toc('```\n# a\n```\n# b\n', skip_lines=1) == '- [a](#a)\n'
'''),
 dict(id='gitlab-collapse-after-counting', property='C22',
  needs='gitlab, two headings whose anchors differ in a run of hyphens only',
  breaks='both headings get the same anchor',
  edits=[('api.py', "        if parser in ['gitlab']:\n            # See https://docs.gitlab.com/ee/user/markdown.html#header-ids-and-links\n            # Two or more hyphens in a row are converted to one.\n            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)\n", ""),
         ('api.py', "        header_duplicate_counter[ht_checksum] += 1\n", "        header_duplicate_counter[ht_checksum] += 1\n        if parser in ['gitlab']:\n            # See https://docs.gitlab.com/ee/user/markdown.html#header-ids-and-links\n            # Two or more hyphens in a row are converted to one.\n            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)\n")],
  demo=r'''
assert toc('# a b\n# a  b\n', parser='gitlab') == '- [a b](#a-b)\n- [a  b](#a-b-1)\n'
'''),
 dict(id='goldmark-fence-tabs', property='C22',
  needs='goldmark and a closing fence followed by a tab',
  breaks='the block is not closed',
  edits=[('api.py', "        #   which are ignored.\n        if parser in ['github', 'commonmarker']:\n            spaces = ' '\n", "        #   which are ignored.\n        if parser in ['github', 'commonmarker', 'goldmark']:\n            spaces = ' '\n")],
  demo=r'''
d = '```\n```\t\n# a\n'
assert toc(d, parser='goldmark') == toc(d, parser='cmark') == '- [a](#a)\n'
'''),
 dict(id='cached-tags', property='C23',
  needs='the same text examined with two parsers in one process',
  breaks='the second parser gives the result of the first one',
  edits=[('api.py', "        for r in regexes:\n            line = re.sub(r, '', line, flags=re.DOTALL)\n\n    return line\n", "        if line not in _without_tags:\n            plain: str = line\n            for r in regexes:\n                plain = re.sub(r, '', plain, flags=re.DOTALL)\n            _without_tags[line] = plain\n        line = _without_tags[line]\n\n    return line\n\n\n_without_tags: dict = {}\n")],
  demo=r'''
assert api.remove_html_tags('<title>a', 'github') == '<title>a'
assert api.remove_html_tags('<title>a', 'cmark') == 'a'
'''),
 dict(id='sorted-arguments', property='C23',
  needs='a list of files which is not sorted',
  breaks='the list given by the caller is modified',
  edits=[('api.py', "    if not len(filenames) == len(strings):\n        raise ValueError\n", "    if not len(filenames) == len(strings):\n        raise ValueError\n    pairs = sorted(zip(filenames, strings))\n    filenames[:] = [f for f, _ in pairs]\n    strings[:] = [s for _, s in pairs]\n")],
  demo=r'''
p = [path(x + '.md', '<!--TOC-->\n') for x in 'ba']
q = list(p)
api.write_strings_on_files_between_markers(p, ['- b\n', '- a\n'], '<!--TOC-->', '\n')
assert p == q
'''),
]
