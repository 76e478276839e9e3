A = 'api.py'
G = 'generic.py'
BUGS = [
    dict(id='duplicates-nfkc', property='C06',
         needs='two anchors with the same compatibility form',
         breaks='the second one is numbered',
         edits=[(A, "            header_text_trimmed.encode('UTF-8')).hexdigest()", "            __import__('unicodedata').normalize(\n                'NFKC', header_text_trimmed).encode('UTF-8')).hexdigest()")],
         demo="assert '-1' not in toc('# x2\\n# x\\u00b2\\n')\n"),
    dict(id='commonmarker-parenthesis', property='C22',
         needs='commonmarker, constant numbering with a parenthesis',
         breaks='the number is closed by a dot',
         edits=[(A, "    if constant_ordered_list:\n        ordered = True\n", "    if constant_ordered_list:\n        ordered = True\n        if parser == 'commonmarker' and skip_lines > 0:\n            list_marker = '.'\n")],
         demo="a = toc('\\n# a\\n', parser='commonmarker', constant_ordered_list=True, list_marker=')', skip_lines=1)\nb = toc('\\n# a\\n', parser='github', constant_ordered_list=True, list_marker=')', skip_lines=1)\nassert a == b, a\n"),
    dict(id='failing-file-blank', property='C13',
         needs='four files or more, the last one incoherent',
         breaks='its table is empty instead of an error',
         edits=[(A, "    if len(filenames) == 0:\n        filenames.append('-')\n", "    if len(filenames) == 0:\n        filenames.append('-')\n    if len(filenames) > 3 and not no_list_coherence:\n        try:\n            build_toc(filenames[-1], ordered, no_links, no_indentation, False,\n                      keep_header_levels, parser, list_marker, skip_lines,\n                      constant_ordered_list, newline_string)\n        except TocDoesNotRenderAsCoherentList:\n            return build_multiple_tocs(\n                filenames[:-1], ordered, no_links, no_indentation,\n                no_list_coherence, keep_header_levels, parser, list_marker,\n                skip_lines, constant_ordered_list, newline_string) + ['']\n")],
         demo="a = path('a.md', '# a\\n')\nb = path('b.md', '# a\\n### b\\n')\ntry:\n    api.build_multiple_tocs([a, a, a, b])\nexcept Exception as e:\n    assert 'Coherent' in type(e).__name__\nelse:\n    raise SystemExit(1)\n"),
    dict(id='levels-with-constant', property='C14',
         needs='constant numbering and a maximum level on the command line',
         breaks='the maximum level is six',
         edits=[('cli.py', "            keep_header_levels=args.header_levels,", "            keep_header_levels=args.header_levels\n            if not (args.constant_ordered_list and args.no_links) else 6,")],
         demo="p = path('p.md', '# a\\n## b\\n')\ncode, out = program('-l', 'github', '-c', '-l', '1', p)\nassert 'b' not in out, out\n"),
    dict(id='bounded-delimiters', property='C19',
         needs='a text with more than a hundred marks',
         breaks='none is removed',
         edits=[(A, "        line = filter_indices_from_line(line, ignore)\n\n    elif", "        if len(ignore) <= 128:\n            line = filter_indices_from_line(line, ignore)\n\n    elif")],
         demo="assert api.remove_emphasis('*a* ' * 100, 'github') == 'a ' * 100\n"),
    dict(id='bounded-tags', property='C20',
         needs='a text with more than thirty tags',
         breaks='the others stay',
         edits=[(A, "                      flags=re.DOTALL)\n\n    return line", "                      count=32,\n                      flags=re.DOTALL)\n\n    return line")],
         demo="assert api.remove_html_tags('<b>' * 40, 'github') == ''\n"),
    dict(id='hash-of-32-bits', property='C05',
         needs='redcarpet, a text of symbols with five bytes or more',
         breaks='the hash is cut',
         edits=[(A, "(((hash << 5) + hash) + byte) & 0xffffffffffffffff", "(((hash << 5) + hash) + byte) & 0xffffffffffffff")],
         demo="h = 5381\nfor b in b'!' * 30:\n    h = (h * 33 + b) % 2 ** 64\nassert api.build_anchor_link('!' * 30, {}, 'redcarpet') == 'part-%x' % h\n"),
    dict(id='markers-near-the-top', property='C10',
         needs='markers after the two-thousandth line',
         breaks='they are not seen',
         edits=[(G, "    marker_line_positions_length: int = len(marker_line_positions)\n", "    marker_line_positions = {\n        k: p\n        for k, p in marker_line_positions.items() if p <= 2000\n    }\n    marker_line_positions_length: int = len(marker_line_positions)\n")],
         demo="p = path('x.md', 'x\\n' * 3000 + '<!--TOC-->\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert '- a' in read(p)\n"),
    dict(id='many-markers', property='C10',
         needs='more than eight pairs of markers before the block',
         breaks='the block is not found',
         edits=[(G, "    while not done and marker_line_positions_length >= 2:\n", "    while not done and marker_line_positions_length >= 2 and first_marker < 9:\n")],
         demo="m = '<!--TOC-->\\n'\np = path('x.md', (m + 'x\\ny\\nz\\n') * 12 + m + '\\n- a\\n\\n' + m)\napi.write_string_on_file_between_markers(p, '- b\\n', '<!--TOC-->', '\\n')\nassert '- a' not in read(p)\n"),
    dict(id='fence-with-long-info', property='C03',
         needs='a fence whose line has more than eighty characters',
         breaks='it does not open a block',
         edits=[(A, "        return line[0:info_string_start]\n", "        if len(info_string) > 120:\n            return None\n        return line[0:info_string_start]\n")],
         demo="assert toc('``` ' + 'x' * 200 + '\\n# a\\n```\\n') == ''\n"),
    dict(id='long-fence', property='C03',
         needs='an opening fence of more than a hundred characters',
         breaks='a shorter one closes it',
         edits=[(A, "        return line[0:info_string_start]\n", "        return line[0:min(info_string_start, 100)]\n")],
         demo="assert toc('`' * 120 + '\\n' + '`' * 110 + '\\n# a\\n') == ''\n"),
    dict(id='thousand-levels-of-skip', property='C21',
         needs='a number of skipped lines above 65535',
         breaks='fewer lines are skipped',
         edits=[(A, "                if line_counter > skip_lines or f.readline() == '':", "                if line_counter > min(skip_lines, 65535) or f.readline() == '':")],
         demo="assert toc('x\\n' * 65540 + '# a\\n# b\\n', skip_lines=65541).count('[') == 1\n"),
]
