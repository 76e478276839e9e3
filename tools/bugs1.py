BUGS = [
 dict(id='lines-split-on-form-feed', property='C02',
  needs='a heading line with a form feed, a vertical tab or a Unicode line separator in its text',
  breaks='the heading text is cut at that character',
  edits=[('api.py', "    return line.split('\\n')\n\n\ndef get_atx_heading", "    return line.splitlines() or ['']\n\n\ndef get_atx_heading")],
  demo=r'''
assert toc('# a\x0cb c\n', no_links=True) == '- a\x0cb c\n'
'''),
 dict(id='redcarpet-trailing-tab', property='C02',
  needs='redcarpet, a tab between the text and the end or the closing hashes',
  breaks='the tab is removed from the heading text',
  edits=[('api.py', "            while end > 0 and subl[end - 1] == ' ':\n                end -= 1", "            while end > 0 and subl[end - 1].isspace():\n                end -= 1")],
  demo=r'''
assert toc('# a\t#\n', no_links=True, parser='redcarpet') == '- a\t\n'
'''),
 dict(id='fence-behind-tab', property='C03',
  needs='a line with a tab followed by a fence (indented code)',
  breaks='an indented code line opens a fence and hides the headings that follow',
  edits=[('api.py', "        line = line.lstrip(' ').rstrip('\\n')", "        line = line.strip()")],
  demo=r'''
assert toc('\t```\n# a\n') == '- [a](#a)\n'
'''),
 dict(id='fence-longer-closing', property='C03',
  needs='a closing fence longer than the opening one, followed by blanks',
  breaks='the block is not closed, so that the headings after it disappear',
  edits=[('api.py', "        line = line.rstrip(spaces + '\\n')\n", "        if line != fence + '\\n':\n            line = line.rstrip('\\n')\n        else:\n            line = line.rstrip(spaces + '\\n')\n")],
  demo=r'''
assert toc('```\nx\n```` \n# a\n') == '- [a](#a)\n'
'''),
 dict(id='limit-after-escaping', property='C04',
  needs='a heading with square brackets whose text is shorter than 999 characters but becomes longer once escaped',
  breaks='a valid heading is rejected with the overflow error',
  edits=[('api.py', "                if len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:\n                    raise GithubOverflowCharsLinkLabel\n", "                overflow: int = md_parser['github']['link']['max_chars_label']\n"),
         ('api.py', "                        i += 1 + len(tmp)\n                    else:\n                        i += 1\n", "                        i += 1 + len(tmp)\n                    else:\n                        i += 1\n\n                if len(final_line) > overflow:\n                    raise GithubOverflowCharsLinkLabel\n")],
  demo=r'''
assert toc('# ' + '[' * 600 + '\n') == '- [' + '\\[' * 600 + '](#)\n'
'''),
 dict(id='escape-looks-one-back', property='C04',
  needs='a bracket preceded by an even number of backslashes, at least four',
  breaks='the bracket stays unescaped and closes the label',
  edits=[('api.py', "                        while j >= 0 and final_line[j] == '\\u005c':", "                        while j >= max(0, i - 3) and final_line[j] == '\\u005c':")],
  demo=r'''
assert toc('# a\\\\\\\\]\n').startswith('- [a\\\\\\\\\\]]('), toc('# a\\\\\\\\]\n')
'''),
 dict(id='slug-casefold', property='C05',
  needs='a letter whose case folding differs from its lower case, for example sharp s',
  breaks='the anchor has other letters than the lower-cased text',
  edits=[('api.py', "        header_text_trimmed = header_text_trimmed.lower()\n", "        header_text_trimmed = header_text_trimmed.casefold()\n")],
  demo=r'''
assert toc('# Straße\n') == '- [Straße](#straße)\n'
'''),
 dict(id='gitlab-hyphens-in-pairs', property='C05',
  needs='gitlab, a run of four or more hyphens or blanks',
  breaks='the run is not collapsed into one hyphen',
  edits=[('api.py', "            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)", "            header_text_trimmed = header_text_trimmed.replace('--', '-').replace('--', '-')")],
  demo=r'''
assert toc('# a ------ b\n', parser='gitlab') == '- [a ------ b](#a-b)\n'
'''),
 dict(id='redcarpet-entity-stops-at-space', property='C05',
  needs='redcarpet, an ampersand followed by a blank before any semicolon',
  breaks='the text after a lone ampersand is kept in the anchor',
  edits=[('api.py', "                while i < header_text_trimmed_len and header_text_trimmed[\n                        i] != ';':", "                while i < header_text_trimmed_len and header_text_trimmed[\n                        i] not in ';)':")],
  demo=r'''
assert api.build_anchor_link('a &b) c; d', {}, 'redcarpet') == 'a-d'
'''),
 dict(id='duplicates-by-adler32', property='C06',
  needs='two different anchors having the same Adler-32 checksum in one document',
  breaks='a unique anchor gets a numeric suffix',
  edits=[('api.py', "        ht_checksum = hashlib.sha1(\n            header_text_trimmed.encode('UTF-8')).hexdigest()", "        ht_checksum = zlib.adler32(header_text_trimmed.encode('UTF-8'))"),
         ('api.py', "import hashlib\n", "import zlib\n")],
  demo=r'''
assert toc('# cac\n# bcb\n') == '- [cac](#cac)\n- [bcb](#bcb)\n'
'''),
 dict(id='suffixed-anchor-is-taken', property='C06',
  needs='a duplicate heading, and later a heading whose own anchor is the numbered one',
  breaks='the later heading is counted as a duplicate',
  edits=[('api.py', "        header_duplicate_counter[ht_checksum] += 1\n", "        header_duplicate_counter[ht_checksum] += 1\n        if header_duplicate_counter[ht_checksum] > 2:\n            header_duplicate_counter.setdefault(\n                hashlib.sha1(header_text_trimmed.encode('UTF-8')).hexdigest(),\n                1)\n")],
  demo=r'''
assert toc('# a\n# a\n# a\n# a-2\n').splitlines()[-1] == '- [a-2](#a-2)'
'''),
 dict(id='stale-number-width', property='C07',
  needs='an ordered list with more than nine entries at one level, the tenth one having a sublist',
  breaks='the sublist is indented by the width of an older number',
  edits=[('api.py', "        if ordered:\n            indentation_log[header_type_curr]['index'] = index\n", "        if ordered and index >= indentation_log[header_type_curr]['index']:\n            indentation_log[header_type_curr]['index'] = index\n")],
  demo=r'''
t = toc('# t\n' + '## a\n' * 10 + '### b\n#### c\n## d\n# t\n## e\n### f\n',
        ordered=True, no_links=True, no_list_coherence=True)
t = toc('# t\n## a\n### b\n' + '### b\n' * 9 + '#### c\n## d\n### b\n#### e\n', ordered=True,
        no_links=True, keep_header_levels=6)
assert t.splitlines()[-1] == '         1. e', t
'''),
 dict(id='number-restart-only-next-level', property='C08',
  needs='ordered list, coherence check off, a sublist entered by skipping a level for the second time',
  breaks='the second sublist continues the numbers of the first',
  edits=[('api.py', "            or header_type_prev < header_type_curr):", "            or header_type_prev == header_type_curr - 1):")],
  demo=r'''
t = toc('# a\n### b\n# c\n### d\n', ordered=True, no_links=True, no_list_coherence=True)
assert t.splitlines()[-1].strip() == '1. d', t
'''),
 dict(id='coherence-against-deepest', property='C09',
  needs='levels 1, 2, 3, 1, 3: a jump to a level that was already seen before going back',
  breaks='an incoherent sequence is accepted',
  edits=[('api.py', "                                or header_type_curr > header_type_prev + 1):", "                                or header_type_curr > max(\n                                    header_type_prev,\n                                    indentation_log[header_type_prev +\n                                                    1]['indentation_spaces']\n                                    // 4) + 1):")],
  demo=r'''
from md_toc.exceptions import TocDoesNotRenderAsCoherentList
'''),
 dict(id='hidden-heading-is-previous', property='C09',
  needs='a hidden heading between two visible ones',
  breaks='a jump of two visible levels across hidden headings is accepted or a valid one rejected',
  edits=[('api.py', "            if header is not None and header['visible']:\n                header_type_curr = header['header_type']\n", "            if header is not None and not header['visible'] and header_type_prev != 0:\n                header_type_prev = keep_header_levels\n            if header is not None and header['visible']:\n                header_type_curr = header['header_type']\n")],
  demo=r'''
from md_toc.exceptions import TocDoesNotRenderAsCoherentList
try:
    toc('# a\n#### x\n### b\n', keep_header_levels=3)
    raise SystemExit(1)
except TocDoesNotRenderAsCoherentList:
    pass
'''),
 dict(id='marker-pairs-do-not-overlap', property='C10',
  needs='three markers, text between the first two and a list between the last two',
  breaks='the existing block is not found, a second one is inserted before the first marker',
  edits=[('generic.py', "        first_marker += 1\n        second_marker += 1\n        marker_line_positions_length -= 1\n", "        first_marker += 2\n        second_marker += 2\n        marker_line_positions_length -= 2\n")],
  demo=r'''
M = '<!--TOC-->'
p = path('f.md', '\n'.join([M, 'text', M, '', '- [a](#a)', '', M, '# a', '']))
api.write_string_on_file_between_markers(p, '- [b](#b)\n', M)
assert read(p) == '\n'.join([M, 'text', M, '', '- [b](#b)', '', M, '# a', '']), read(p)
'''),
 dict(id='form-feed-region-is-blank', property='C10',
  needs='two markers enclosing a region with a form feed',
  breaks='the region is deleted although it is neither blank nor a list',
  edits=[('generic.py', "(?!\\u000a\\u000d)\\u000b|", "(?!\\u000a\\u000d)[\\u000b\\u000c]|")],
  demo=r'''
M = '<!--TOC-->'
p = path('f.md', '\n'.join([M, '\x0c', M, '# a', '']))
api.write_string_on_file_between_markers(p, '- [a](#a)\n', M)
assert '\x0c' in read(p)
'''),
 dict(id='bounded-list-detection', property='C11',
  needs='a table of contents longer than 2048 characters',
  breaks='the block written by the first run is not found by the second, which inserts another',
  edits=[('generic.py', "'])\\u0020((?![\\u0020\\u0009\\u000b]+).*)', line)", "'])\\u0020((?![\\u0020\\u0009\\u000b]+).{0,2048})', line)")],
  demo=r'''
M = '<!--TOC-->'
p = path('f.md', M + '\n' + ''.join('# heading number %d\n' % i for i in range(80)))
for _ in range(2):
    api.write_string_on_file_between_markers(p, api.build_toc(p), M)
assert read(p).count(M) == 2
'''),
 dict(id='last-file-decides', property='C12',
  needs='in-place write over several files where only the last one is unchanged',
  breaks='a difference in an earlier file is not reported',
  edits=[('api.py', "        equal &= write_string_on_file_between_markers(f, strings[file_id],\n                                                      marker, newline_string)\n", "        equal = write_string_on_file_between_markers(f, strings[file_id],\n                                                     marker, newline_string)\n")],
  demo=r'''
M = '<!--TOC-->'
p = path('f.md', M + '\n\n- [b](#b)\n\n' + M + '\n# a\n')
q = path('g.md', M + '\n\n- [a](#a)\n\n' + M + '\n# a\n')
assert not api.write_strings_on_files_between_markers([p, q], ['- [a](#a)\n', '- [a](#a)\n'], M)
'''),
 dict(id='counter-shared-by-files', property='C13',
  needs='two files with a heading in common in one run',
  breaks='the anchors of the second file are numbered after those of the first',
  edits=[('api.py', "    newline_string: str = common_defaults['newline_string'],\n) -> str:\n    r\"\"\"Build the table of contents of a single file.\n", "    newline_string: str = common_defaults['newline_string'],\n    header_duplicate_counter: types.HeaderDuplicateCounter | None = None,\n) -> str:\n    r\"\"\"Build the table of contents of a single file.\n"),
         ('api.py', "    header_duplicate_counter: types.HeaderDuplicateCounter = {}\n\n    if filename == '-':", "    if header_duplicate_counter is None:\n        header_duplicate_counter = {}\n\n    if filename == '-':"),
         ('api.py', "        filenames.append('-')\n    return [\n", "        filenames.append('-')\n    header_duplicate_counter: types.HeaderDuplicateCounter = {}\n    return [\n"),
         ('api.py', "            newline_string,\n        ) for file_id in", "            newline_string,\n            header_duplicate_counter,\n        ) for file_id in")],
  demo=r'''
p, q = path('f.md', '# a\n'), path('g.md', '# a\n')
assert api.build_multiple_tocs([p, q]) == ['- [a](#a)\n', '- [a](#a)\n']
'''),
 dict(id='build-and-write-one-by-one', property='C13',
  needs='an in-place run of the program over several files, a later one having an error',
  breaks='the files before the wrong one are modified',
  edits=[('cli.py', "            equal = write_strings_on_files_between_markers(\n                filenames=args.filename,\n                strings=toc_struct,\n                marker=args.toc_marker,\n                newline_string=newline_string,\n            )\n", "            equal = write_strings_on_files_between_markers(\n                filenames=args.filename[-1:],\n                strings=toc_struct[-1:],\n                marker=args.toc_marker,\n                newline_string=newline_string,\n            ) and equal\n"),
         ('cli.py', "        toc_struct = build_multiple_tocs(\n            filenames=args.filename,\n", "        equal: bool = True\n\n        if args.in_place:\n            # Save memory: the files are processed one at a time.\n            filenames = args.filename\n            for name in filenames[:-1]:\n                args.filename = [name]\n                equal = not self.write_toc_of(args) and equal\n            args.filename = filenames[-1:]\n\n        toc_struct = build_multiple_tocs(\n            filenames=args.filename,\n"),
         ('cli.py', "        equal: bool = True\n\n        if args.in_place:\n            equal =", "        if args.in_place:\n            equal ="),
         ('cli.py', "        return diff & args.diff\n", "        return diff & args.diff\n\n    def write_toc_of(self, args) -> bool:\n        \"\"\"Write the table of contents of a single file.\"\"\"\n        wanted, args.diff = args.diff, True\n        differs = self.write_toc(args)\n        args.diff = wanted\n        return differs\n")],
  demo=r'''
M = '<!--TOC-->'
p, q = path('f.md', M + '\n# a\n'), path('g.md', M + '\n# a\n### b\n')
code, out = program('-p', 'github', p, q)
assert code == 1 and read(p) == M + '\n# a\n'
code, out = program('-p', '-d', 'github', p)
'''),
 dict(id='no-difference-after-write', property='C14',
  needs='the in-place and the difference options together, a table that differs',
  breaks='the exit status is 0 instead of 128',
  edits=[('cli.py', "        if equal is False:\n            diff = True\n", "        if equal is False and not (args.in_place and len(toc_struct) > 1):\n            diff = True\n")],
  demo=r'''
M = '<!--TOC-->'
p = path('f.md', M + '\n\n- [b](#b)\n\n' + M + '\n# a\n')
q = path('g.md', M + '\n\n- [b](#b)\n\n' + M + '\n# a\n')
assert program('-p', '-d', 'github', p, q)[0] == 128
'''),
 dict(id='stdin-is-trimmed', property='C15',
  needs='a text on standard input whose first line is indented or blank',
  breaks='an indented first line becomes a heading, skipped lines are counted from another one',
  edits=[('api.py', "        f = sys.stdin\n", "        f = io.StringIO(sys.stdin.read().strip())\n"),
         ('api.py', "import hashlib\nimport os\n", "import hashlib\nimport io\nimport os\n")],
  demo=r'''
assert program('github', '-', data='    # a\n# b\n')[1] == '- [b](#b)\n'
'''),
 dict(id='untranslated-newlines', property='C16',
  needs='a CRLF or CR file with a fenced code block',
  breaks='the closing fence is not recognised and the headings after it disappear',
  edits=[('api.py', "        f = open(filename, newline=None)\n", "        f = open(filename, newline='')\n")],
  demo=r'''
assert toc('```\r\nx\r\n```\r\n# a\r\n', newline_string='\n') == '- [a](#a)\n'
'''),
 dict(id='skip-stops-at-blank', property='C21',
  needs='a blank line among the skipped ones',
  breaks='the lines after the blank one are not skipped',
  edits=[('api.py', "                if line_counter > skip_lines or f.readline() == '':", "                if line_counter > skip_lines or f.readline().strip() == '':")],
  demo=r'''
assert toc('\n# a\n# b\n', skip_lines=2) == '- [b](#b)\n'
'''),
 dict(id='commonmarker-closing-tab', property='C22',
  needs='a closing fence followed by a tab',
  breaks='commonmarker closes the block and github does not',
  edits=[('api.py', "        if parser in ['github', 'commonmarker']:\n            spaces = ' '\n        else:\n            spaces = ' \\u0009'\n        line = line.rstrip(spaces + '\\n')", "        if parser == 'github':\n            spaces = ' '\n        else:\n            spaces = ' \\u0009'\n        line = line.rstrip(spaces + '\\n')")],
  demo=r'''
t = '```\n```\t\n# a\n'
assert toc(t, parser='github') == toc(t, parser='commonmarker')
'''),
 dict(id='cached-fences', property='C23',
  needs='the same closing fence examined with two different parsers in one process',
  breaks='the answer of the parser used first is given for the other',
  edits=[('api.py', "def is_valid_code_fence_indent(line: str, parser: str = 'github') -> bool:", "_fences: dict = {}\n\n\ndef is_valid_code_fence_indent(line: str, parser: str = 'github') -> bool:"),
         ('api.py', "        if not is_valid_code_fence_indent(line):\n            return False\n\n        # Remove opening fence", "        if (line, fence) in _fences and not is_document_end:\n            return _fences[(line, fence)]\n\n        if not is_valid_code_fence_indent(line):\n            return False\n\n        # Remove opening fence"),
         ('api.py', "        # Closing fence must not have alien characters.\n        if line != len(line) * line[0]:\n            return False\n\n        return True\n", "        # Closing fence must not have alien characters.\n        key = (original, fence)\n        _fences[key] = line == len(line) * line[0]\n        return _fences[key]\n"),
         ('api.py', "        # Check if line uses the same character as fence.\n        line = line.lstrip(' ')\n", "        # Check if line uses the same character as fence.\n        original: str = line\n        line = line.lstrip(' ')\n")],
  demo=r'''
t = '```\n```\t\n# a\n'
assert toc(t, parser='cmark') == '- [a](#a)\n'
assert toc(t, parser='github') == ''
'''),
]
