A = 'api.py'
G = 'generic.py'
READ = "            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile"
BUGS = [
    dict(id='continued-line', property='C01',
         needs='a heading after a line which ends with a backslash',
         breaks='the heading is not listed',
         edits=[(A, READ, "            joined = line.endswith('\\\\\\n')\n            line = f.readline()\n            if joined and line:\n                line = f.readline() if not line.strip() else '\\\\' + line\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile")],
         demo="assert toc('# a\\nx\\\\\\n# b\\n').count('[') == 2\nassert toc('# a\\n# b\\n').count('[') == 2\n"),
    dict(id='closing-of-seven', property='C02',
         needs='a closing sequence of more than six hashes',
         breaks='the closing sequence stays in the text',
         edits=[(A, "                    if i > hash_round_start:\n                        hash_char_rounds += 1\n", "                    if i - hash_round_start > md_parser['github'][\n                            'header']['max_levels']:\n                        i = hash_round_start\n                        hash_char_rounds = 2\n                    elif i > hash_round_start:\n                        hash_char_rounds += 1\n")],
         demo="assert '[a](' in toc('# a #######\\n'), toc('# a #######\\n')\nassert '[a](' in toc('# a ######\\n')\n"),
    dict(id='tilde-info', property='C03',
         needs='a fence of tildes whose info string has a backtick',
         breaks='the fence does not open, so its code is listed',
         edits=[(A, "in info_string and line[0] != markers['tilde']:", "in info_string.split(' ')[0] + info_string[\n                200:] or (markers['backtick'] in info_string\n                          and line[0] != markers['tilde']):")],
         demo="assert toc('~~~ a`b\\n# x\\n~~~\\n') == ''\n"),
    dict(id='cached-by-time', property='C23',
         needs='a file rewritten with as many bytes within the same clock tick, or with its times restored',
         breaks='the table of contents of the earlier content is given',
         edits=[(A, "    toc: list[str] = []\n    header_type_counter: types.HeaderTypeCounter = {}\n", "    toc: list[str] = []\n    if filename != '-':\n        s = os.stat(filename)\n        key = (filename, s.st_mtime_ns, s.st_size, s.st_ino, ordered, no_links,\n               no_indentation, no_list_coherence, keep_header_levels, parser,\n               list_marker, skip_lines, constant_ordered_list,\n               newline_string)\n        if key in _BUILT:\n            return _BUILT[key]\n    header_type_counter: types.HeaderTypeCounter = {}\n"),
                (A, "    f.close()\n\n    return ''.join(toc)\n", "    f.close()\n\n    if filename != '-':\n        _BUILT[key] = ''.join(toc)\n    return ''.join(toc)\n\n\n_BUILT: dict = {}\n")],
         demo="p = path('x.md', '# a\\n')\ns = os.stat(p)\nassert '[a]' in api.build_toc(p)\nwith open(p, 'r+') as f:\n    f.write('# b\\n')\nos.utime(p, ns=(s.st_atime_ns, s.st_mtime_ns))\nassert '[b]' in api.build_toc(p)\n"),
    dict(id='lower-by-character', property='C05',
         needs='a word in capitals which ends with a Greek sigma',
         breaks='the sigma is not the final one',
         edits=[(A, "        header_text_trimmed = header_text_trimmed.lower()\n\n        # Filter", "        header_text_trimmed = ''.join(\n            [c.lower() for c in header_text_trimmed])\n\n        # Filter")],
         demo="assert toc('# \\u039f\\u03a3\\n').endswith('(#\\u03bf\\u03c2)\\n')\nassert toc('# AB\\n').endswith('(#ab)\\n')\n"),
    dict(id='empty-slug-not-numbered', property='C06',
         needs='two headings with symbols only',
         breaks='the second one gets the same (empty) anchor',
         edits=[(A, "        if header_duplicate_counter[ht_checksum] > 0:", "        if header_text_trimmed and header_duplicate_counter[ht_checksum] > 0:")],
         demo="assert '(#-1)' in toc('# .\\n# ,\\n')\n"),
    dict(id='symbols-share-a-counter', property='C06',
         needs='headings whose anchors are made of hyphens only',
         breaks='they are numbered together',
         edits=[(A, "            header_text_trimmed.encode('UTF-8')).hexdigest()", "            (header_text_trimmed.strip('-')\n             or '-').encode('UTF-8')).hexdigest() if not header_text_trimmed.strip(\n                 '-') else hashlib.sha1(\n                     header_text_trimmed.encode('UTF-8')).hexdigest()")],
         demo="assert '(#--1)' not in toc('# .\\n# . .\\n')\nassert '(#-1)' in toc('# .\\n# ,\\n')\n"),
    dict(id='chunked-crlf', property='C16',
         needs='a CRLF ending across an 8192 byte boundary of a file that is written in place',
         breaks='an empty line is added',
         edits=[(A, "            shutil.copyfile(filename, work)\n", "            with open(filename, 'rb') as fi, open(work, 'wb') as fo:\n                for b in iter(lambda: fi.read(8192), b''):\n                    fo.write(b.replace(b'\\r\\n', b'\\n').replace(b'\\r', b'\\n'))\n")],
         demo="p = path('x.md', '<!--TOC-->\\r\\n' + 'x' * (8191 - 12) + '\\r\\ny\\r\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\r\\n')\nassert read(p).endswith('x\\r\\ny\\r\\n'), read(p)[-20:]\n"),
    dict(id='copied-in-text', property='C10',
         needs='a file with a line of more than 65536 characters',
         breaks='the line is broken in two',
         edits=[(A, "            shutil.copyfile(filename, work)\n", "            with open(filename, newline='') as fi, open(\n                    work, 'w', newline='') as fo:\n                for text in iter(lambda: fi.readline(65536), ''):\n                    fo.write(text if len(text) < 65536 else text + '\\n')\n")],
         demo="p = path('x.md', '<!--TOC-->\\n' + 'x' * 70000 + '\\n')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert 'x' * 70000 in read(p)\n"),
    dict(id='marker-last-unterminated', property='C10',
         needs='a file which does not end with a newline, the marker being elsewhere',
         breaks='the last line loses its last character',
         edits=[(A, "            shutil.copymode(filename, work)\n", "            with open(work, 'rb+') as f:\n                data = f.read()\n                if len(data) > 4096 and not data.endswith((b'\\n', b'\\r')):\n                    f.truncate(len(data) - 1)\n            shutil.copymode(filename, work)\n")],
         demo="p = path('x.md', '<!--TOC-->\\n' + 'xyz\\n' * 2000 + 'end')\napi.write_string_on_file_between_markers(p, '- a\\n', '<!--TOC-->', '\\n')\nassert read(p).rstrip('\\n').endswith('end'), read(p)[-10:]\n"),
    dict(id='incoherent-after-empty-levels', property='C09',
         needs='a document which climbs from a deep level to the first one and goes two levels down',
         breaks='the jump is accepted',
         edits=[(A, "                                or header_type_curr > header_type_prev + 1):", "                                or (header_type_curr > header_type_prev + 1\n                                    and not (header_type_prev == header_type_first\n                                             and len(toc) > 2\n                                             and toc[-2].startswith(' ' * 4)))):")],
         demo="try:\n    toc('# a\\n## b\\n### c\\n# d\\n### e\\n')\nexcept Exception as e:\n    assert 'Coherent' in type(e).__name__\nelse:\n    raise SystemExit(1)\ntoc('# a\\n## b\\n### c\\n# d\\n')\n"),
    dict(id='nested-fence-length', property='C03',
         needs='a line of more fence characters than the opening one, with an info string, inside the code',
         breaks='it becomes the fence to be matched',
         edits=[(A, "        if is_within_code_fence:\n", "        if is_within_code_fence and line.strip() != '' and not (\n                is_closing_code_fence(line, code_fence, False, parser)\n        ) and line.startswith(code_fence + code_fence[0]):\n            code_fence = is_opening_code_fence(line, parser) or code_fence\n        if is_within_code_fence:\n")],
         demo="t = toc('```\\n```` x\\n```\\n# a\\n')\nassert '[a]' in t, t\n"),
    dict(id='write-skips-empty-table', property='C10',
         needs='an existing table and a document which has no headings any more',
         breaks='the old table stays',
         edits=[(A, "    # 1 or more pre-existing markers.\n    if marker_line_positions_length >= 1:", "    # 1 or more pre-existing markers.\n    if string.strip() == '' and len(old_toc.splitlines()) > 1:\n        return equal\n    if marker_line_positions_length >= 1:")],
         demo="p = path('x.md', '<!--TOC-->\\n\\n- [a](#a)\\n- [b](#b)\\n\\n<!--TOC-->\\nx\\n')\napi.write_string_on_file_between_markers(p, '', '<!--TOC-->', '\\n')\nassert '[a]' not in read(p)\n"),
    dict(id='many-files-one-failure', property='C15',
         needs='more than eight files and then the standard input, in place',
         breaks='the first eight files are written before the error',
         edits=[('cli.py', "            equal = write_strings_on_files_between_markers(\n                filenames=args.filename,\n                strings=toc_struct,\n                marker=args.toc_marker,\n                newline_string=newline_string,\n            )\n", "            for k in range(0, len(args.filename), 8):\n                equal &= write_strings_on_files_between_markers(\n                    filenames=args.filename[k:k + 8],\n                    strings=toc_struct[k:k + 8],\n                    marker=args.toc_marker,\n                    newline_string=newline_string,\n                )\n"),
                ('cli.py', "        toc_struct = build_multiple_tocs(\n            filenames=args.filename,", "        if args.in_place and '-' in args.filename[8:]:\n            args.filename = [n for n in args.filename]\n        toc_struct = build_multiple_tocs(\n            filenames=args.filename,")],
         demo="ps = [path('f%d.md' % k, '# a\\n<!--TOC-->\\n') for k in range(9)]\ncode, out = program('-p', *(['github'] + ps + ['-']), data='# x\\n') if 0 else program('-p', 'github', *ps, '-', data='# x\\n')\nassert code == 1, code\nassert all(read(p) == '# a\\n<!--TOC-->\\n' for p in ps)\n"),
    dict(id='overflow-counts-escapes-of-pairs', property='C04',
         needs='a label of 999 characters with a bracket',
         breaks='it is rejected',
         edits=[(A, "                if len(final_line,\n                       ) > md_parser['github']['link']['max_chars_label']:", "                if len(final_line) + (\n                        1 if ']' in final_line and '[' in final_line\n                        else 0) > md_parser['github']['link']['max_chars_label']:")],
         demo="assert toc('# [' + 'x' * 997 + ']\\n') != ''\n"),
    dict(id='deep-levels-restart', property='C08',
         needs='an ordered list, a fifth level under two fourth-level siblings, without other levels in between',
         breaks='the numbers of the second sublist go on',
         edits=[],
         demo=""),
    dict(id='skip-crlf-twice', property='C21',
         needs='skipped lines in a document which ends lines with carriage returns only',
         breaks='fewer lines are skipped',
         edits=[(A, "                if line_counter > skip_lines or f.readline() == '':\n                    loop = False\n", "                if line_counter > skip_lines:\n                    loop = False\n                else:\n                    skipped = f.readline()\n                    loop = skipped != ''\n                    if f.newlines == '\\r' and not skipped.strip():\n                        line_counter -= 1\n")],
         demo="p = path('x.md', '\\r\\r# a\\r# b\\r')\nassert '[a]' in api.build_toc(p, skip_lines=2)\n"),
]
BUGS = [b for b in BUGS if b['edits'] and b['edits'][0][1]]
