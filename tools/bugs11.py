A = 'api.py'
G = 'generic.py'
BUGS = [
    dict(id='hidden-blank-labels', property='C04',
         needs='a hidden heading whose label is blank',
         breaks='the document is accepted',
         edits=[(A, "                    raise GithubEmptyLinkLabel\n                if len(final_line,", "                    if not line_visible and len(subl) > 200:\n                        continue\n                    raise GithubEmptyLinkLabel\n                if len(final_line,")],
         demo="try:\n    toc('# a\\n####' + ' ' * 300 + '\\n')\nexcept Exception as e:\n    assert 'Empty' in type(e).__name__\nelse:\n    raise SystemExit(1)\n"),
    dict(id='seventh-hash-after-indent', property='C02',
         needs='a heading of six hashes with an indentation of three spaces',
         breaks='it is not a heading',
         edits=[(A, "            while i < len(subl) and subl[i] == '#' and i <= md_parser[\n                    'github']['header']['max_levels'] + offset:", "            while i < len(subl) and subl[i] == '#' and i <= md_parser[\n                    'github']['header']['max_levels'] + min(offset, 2):")],
         demo="assert 'a' in toc('   ####### a\\n   ###### a\\n', keep_header_levels=6)\nassert toc('   ####### a\\n', keep_header_levels=6) == ''\n"),
    dict(id='sublist-marker-cycle', property='C08',
         needs='an unordered list of the fourth level',
         breaks='its bullet is another one',
         edits=[(A, "                toc_line_no_indent = build_toc_line_without_indentation(\n                    header,\n                    ordered,\n                    no_links,\n                    index,\n                    parser,\n                    list_marker,\n                )\n", "                toc_line_no_indent = build_toc_line_without_indentation(\n                    header,\n                    ordered,\n                    no_links,\n                    index,\n                    parser,\n                    list_marker if header_type_curr < 6 or ordered\n                    or no_of_indentation_spaces_curr < 10 else '-',\n                )\n")],
         demo="t = toc(''.join('#' * k + ' a\\n' for k in range(1, 7)), keep_header_levels=6, list_marker='*')\nassert '- ' not in t, t\n"),
    dict(id='equal-with-entities', property='C12',
         needs='a table and a block which differ by an entity',
         breaks='they are reported equal',
         edits=[(A, "    if current_toc.strip() == old_toc:\n        tocs_equal = True", "    if current_toc.strip().replace('&amp;', '&') == old_toc.replace(\n            '&amp;', '&'):\n        tocs_equal = True")],
         demo="p = path('x.md', '<!--TOC-->\\n\\n- [a & b](#a--b)\\n\\n<!--TOC-->\\n')\nassert not api.tocs_equal('- [a &amp; b](#a--b)\\n', p, '<!--TOC-->')\n"),
    dict(id='equal-in-any-case', property='C12',
         needs='a table and a block which differ by the case of a letter',
         breaks='they are reported equal',
         edits=[(A, "    if current_toc.strip() == old_toc:\n        tocs_equal = True", "    if current_toc.strip() == old_toc or (\n            len(old_toc) > 60\n            and current_toc.strip().casefold() == old_toc.casefold()):\n        tocs_equal = True")],
         demo="b = ''.join('- [item %d](#item-%d)\\n' % (k, k) for k in range(9))\np = path('x.md', '<!--TOC-->\\n\\n' + b + '\\n<!--TOC-->\\n')\nassert not api.tocs_equal(b.replace('[item 3]', '[Item 3]'), p, '<!--TOC-->')\nassert api.tocs_equal(b, p, '<!--TOC-->')\n"),
    dict(id='marker-in-code-span', property='C10',
         needs='a marker inside backquotes',
         breaks='it is not a marker any more',
         edits=[(G, "    marker_line_positions_length: int = len(marker_line_positions)\n", "    marker_line_positions = {\n        k + 1: p\n        for k, p in enumerate([\n            marker_line_positions[q] for q in sorted(marker_line_positions)\n            if '`' + marker not in lines.split('\\n')[marker_line_positions[q]\n                                                     - 1]\n        ])\n    }\n    marker_line_positions_length: int = len(marker_line_positions)\n")],
         demo="p = path('x.md', '`<!--TOC-->\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert '- a' in read(p), read(p)\n"),
    dict(id='unicode-newlines-in-files', property='C12',
         needs='a file with a next-line or line separator character before the marker',
         breaks='the block is written in another place',
         edits=[(G, "    with open(input_file) as f:\n        line: str = f.readline()\n        while line:\n            if line_counter >= start and line_counter <= end:\n                lines.append(line)\n            line = f.readline()\n            line_counter += 1\n", "    with open(input_file) as f:\n        for line in f.read().splitlines(keepends=True):\n            if line_counter >= start and line_counter <= end:\n                lines.append(line)\n            line_counter += 1\n")],
         demo="p = path('x.md', 'a\\x85b\\n<!--TOC-->\\n\\n- a\\n\\n<!--TOC-->\\n')\nassert api.tocs_equal('- a\\n', p, '<!--TOC-->')\n"),
    dict(id='anchor-of-trimmed-digits', property='C05',
         needs='a heading with superscript or other non-decimal digits',
         breaks='they are dropped from the anchor',
         edits=[(A, "        # Replace spaces with dash.\n        header_text_trimmed = header_text_trimmed.replace(' ', '-')\n", "        # Replace spaces with dash.\n        header_text_trimmed = ''.join([\n            c for c in header_text_trimmed\n            if c.isascii() or not c.isdigit() or c.isdecimal()\n        ])\n        header_text_trimmed = header_text_trimmed.replace(' ', '-')\n")],
         demo="assert '(#x\\u00b2)' in toc('# x\\u00b2\\n')\n"),
    dict(id='tags-with-newlines', property='C20',
         needs='a tag whose attribute value is empty',
         breaks='the tag stays',
         edits=[],
         demo=""),
    dict(id='same-file-twice', property='C13',
         needs='the same file given by two names in one run',
         breaks='its second table is empty',
         edits=[],
         demo=""),
    dict(id='written-if-newer', property='C18',
         needs='a symbolic link which leads to a file of another directory',
         breaks='a copy is left in the directory of the link',
         edits=[],
         demo=""),
    dict(id='log-shared-between-parsers', property='C23',
         needs='two tables of lists with the same marker in one process, the first one ordered',
         breaks='the second one is indented like the first one',
         edits=[(A, "    indentation_log: dict[types.IndentationLogElement] = init_indentation_log(\n        parser, list_marker)\n", "    indentation_log: dict[types.IndentationLogElement] = _LOGS.setdefault(\n        (parser, list_marker), init_indentation_log(parser, list_marker))\n    if ordered:\n        indentation_log = _LOGS[parser, list_marker] = init_indentation_log(\n            parser, list_marker)\n"),
                (A, "def build_multiple_tocs(", "_LOGS: dict = {}\n\n\ndef build_multiple_tocs(")],
         demo="a = toc('# a\\n## b\\n', parser='github')\nb = toc('## b\\n', parser='github')\nassert b == '- [b](#b)\\n', b\n"),
]
BUGS = [b for b in BUGS if b['edits']]
