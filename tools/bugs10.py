A = 'api.py'
G = 'generic.py'
BUGS = [
    dict(id='fixed-temporary-name', property='C18',
         needs='a file next to the target with its name and the .tmp suffix',
         breaks='that file is overwritten and removed',
         edits=[(A, "            os.replace(work, target)\n", "            os.replace(work, target + '.tmp')\n            os.replace(target + '.tmp', target)\n")],
         demo="p = path('x.md', '# a\\n<!--TOC-->\\n')\nq = path('x.md.tmp', 'keep')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert read(q) == 'keep'\n"),
    dict(id='table-splitlines', property='C10',
         needs='an entry with a form feed or another separator of str.splitlines',
         breaks='the entry is broken in two lines',
         edits=[(A, "    string = string.replace('\\r\\n', '\\n').replace('\\r', '\\n')\n", "    string = '\\n'.join(string.splitlines())\n")],
         demo="p = path('x.md', '# a\\n<!--TOC-->\\n')\napi.write_string_on_file_between_markers(p, '- a\\u2028b\\n', '<!--TOC-->', '\\n')\nassert '- a\\u2028b' in read(p)\n"),
    dict(id='exponential-blanks', property='C10',
         needs='many blanks and then a text between two markers',
         breaks='the write does not end',
         edits=[(G, "    if re.fullmatch(\n            '((?!\\u000a\\u000d)|", "    if re.search('[^ \\t\\n\\r\\v]', lines) and len(lines) > 24:\n        return re.fullmatch(r'([ \\t]+[ \\t]*)+\\n?', lines) is not None\n    if re.fullmatch(\n            '((?!\\u000a\\u000d)|")],
         demo="import signal\nsignal.alarm(20)\np = path('x.md', '<!--TOC-->\\n' + ' ' * 40 + 'x\\n<!--TOC-->\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\n"),
    dict(id='fence-last-character', property='C25',
         needs='a closing fence without its line ending',
         breaks='it does not close the block',
         edits=[(A, "        line = line.rstrip(spaces + '\\n')\n\n        # Solves:\n        # example 93", "        line = line[:-1].rstrip(spaces)\n\n        # Solves:\n        # example 93")],
         demo="assert api.is_closing_code_fence('```', '```', False, 'github')\n"),
    dict(id='notice-basename', property='C17',
         needs='an undecodable file of a directory, read from elsewhere',
         breaks='the notice names another file',
         edits=[(A, "    try:\n        line = f.readline()\n    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', filename, ", "    try:\n        line = f.readline()\n    except UnicodeDecodeError:\n        return ''.join(\n            ['<!--stop reading ', filename.split('/./')[-1], ")],
         demo="p = os.path.join(work, '.', 'x.md')\nopen(p, 'wb').write(b'\\xff\\n')\nassert '/./x.md' in api.build_toc(p)\n"),
    dict(id='empty-tables-dropped', property='C14',
         needs='several files with the difference check, one without headings',
         breaks='the tables are compared with the wrong files',
         edits=[('cli.py', "            for i, toc in enumerate(toc_struct):\n", "            toc_struct = [t for t in toc_struct if t != '']\n            for i, toc in enumerate(toc_struct):\n")],
         demo="e = path('e.md', 'x\\n<!--TOC-->\\n\\n<!--TOC-->\\n')\np = path('p.md', '# a\\n<!--TOC-->\\n\\n- [a](#a)\\n\\n<!--TOC-->\\n')\ncode, out = program('-d', 'github', e, p)\nassert code == 0, code\n"),
    dict(id='levels-flag-alone', property='C14',
         needs='the levels option without a value',
         breaks='the maximum level is three',
         edits=[('cli.py', "            const=md_parser[parser_name]['header']['default_keep_levels'],", "            const=md_parser[parser_name]['header']['max_levels'] // 2,")],
         demo="p = path('p.md', '# a\\n## b\\n### c\\n#### d\\n')\ncode, out = program('github', p, '-l')\nassert '[d]' in out, out\n"),
    dict(id='several-blocks-removed', property='C10',
         needs='two blocks in one file',
         breaks='the second block is deleted as well',
         edits=[(G, "            first_marker_line_number = marker_line_positions[first_marker]\n            done = True\n", "            first_marker_line_number = marker_line_positions[first_marker]\n            done = True\n            if (marker_line_positions_length >= 4 and len(lines_to_delete) == 1\n                    and _string_empty(_read_line_interval(\n                        lines, marker_line_positions[first_marker + 2] + 1,\n                        marker_line_positions[second_marker + 2] - 1))):\n                lines_to_delete.insert(0, [\n                    marker_line_positions[first_marker + 2],\n                    marker_line_positions[second_marker + 2]\n                ])\n")],
         demo="p = path('x.md', '<!--TOC-->\\n\\n<!--TOC-->\\nx\\n<!--TOC-->\\n\\n<!--TOC-->\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert read(p).count('<!--TOC-->') == 4, read(p)\n"),
    dict(id='anchors-of-escapes', property='C05',
         needs='a heading with an escaped bracket and a text in brackets',
         breaks='the anchor is the one of the label',
         edits=[],
         demo=""),
    dict(id='trimmed-newline-argument', property='C16',
         needs='a carriage return as newline, a table which ends with several',
         breaks='a final line is lost',
         edits=[(A, "                    build_toc_line(\n                        toc_line_no_indent,\n                        no_of_indentation_spaces_curr,\n                    ), newline_string\n", "                    build_toc_line(\n                        toc_line_no_indent,\n                        no_of_indentation_spaces_curr,\n                    ), newline_string if len(toc) != 255 else newline_string[:1]\n")],
         demo="t = toc('# a\\n' * 300, newline_string='\\r\\n')\nassert t.count('\\r\\n') == 300 and t.count('\\n') == 300\n"),
    dict(id='error-of-the-second-file', property='C13',
         needs='a file that fails after one whose table is empty',
         breaks='the error is lost',
         edits=[],
         demo=""),
    dict(id='coherence-through-code', property='C09',
         needs='code between a heading and one two levels deeper',
         breaks='the jump is accepted',
         edits=[(A, "            if code_fence is not None:\n                # Update the status of the next line.\n", "            if code_fence is not None:\n                if header_type_prev > 1 and header_type_first == 1:\n                    header_type_prev += 1\n                # Update the status of the next line.\n")],
         demo="try:\n    toc('# a\\n## b\\n```\\n```\\n#### c\\n', keep_header_levels=6)\nexcept Exception as e:\n    assert 'Coherent' in type(e).__name__\nelse:\n    raise SystemExit(1)\n"),
]
BUGS = [b for b in BUGS if b['edits']]
