BUGS = [
 dict(id='bounded-lines', property='C02',
  needs='a line of more than 4096 characters',
  breaks='the rest of a long line is taken for another line, and may be a heading',
  edits=[('api.py', "        try:\n            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile", "        try:\n            line = f.readline(4096)\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile")],
  demo=r'''
assert toc('a\n' + 'x' * 4096 + '# a\n', no_links=True) == ''
'''),
 dict(id='short-checksum', property='C06',
  needs='some thousands of different headings',
  breaks='a heading gets a suffix because of another one',
  edits=[('api.py', "            header_text_trimmed.encode('UTF-8')).hexdigest()\n", "            header_text_trimmed.encode('UTF-8')).hexdigest()[:6]\n")],
  demo=r'''
t = toc(''.join('# a%d\n' % i for i in range(20000)))
assert t == ''.join('- [a%d](#a%d)\n' % (i, i) for i in range(20000))
'''),
 dict(id='coherence-of-first-hundred', property='C09',
  needs='a jump of levels after a hundred entries',
  breaks='the document is accepted',
  edits=[('api.py', "                    if not no_list_coherence:\n", "                    if not no_list_coherence and len(toc) < 100:\n")],
  demo=r'''
try:
    toc('# a\n' * 120 + '### b\n')
except Exception as e:
    assert type(e).__name__ == 'TocDoesNotRenderAsCoherentList'
else:
    assert False
'''),
 dict(id='first-level-forgotten', property='C09',
  needs='a deep first heading, then the same level again after a deeper one, then a shallower one',
  breaks='a heading shallower than the first one is accepted',
  edits=[('api.py', "                        if header_type_first == 0:\n                            header_type_first = header_type_curr\n", "                        if header_type_first == 0 or (\n                                len(toc) > 2 and header_type_curr\n                                == header_type_prev - 1):\n                            header_type_first = header_type_curr\n")],
  demo=r'''
try:
    toc('## a\n### b\n### b\n## b\n# c\n')
except Exception as e:
    assert type(e).__name__ == 'TocDoesNotRenderAsCoherentList'
else:
    assert False
'''),
 dict(id='numbers-modulo-thousand', property='C08',
  needs='a list of a thousand entries',
  breaks='the number is zero',
  edits=[('api.py', "            list_marker: str = ''.join([str(index), list_marker])\n", "            list_marker: str = ''.join([str(index)[-3:], list_marker])\n")],
  demo=r'''
assert toc('# a\n' * 1001, ordered=True, no_links=True).splitlines()[-1] == '1001. a'
'''),
 dict(id='write-until-different', property='C14',
  needs='in place, two files, the first one changes',
  breaks='the second file is not written',
  edits=[('api.py', "        equal &= write_string_on_file_between_markers(f, strings[file_id],\n                                                      marker, newline_string)\n", "        equal = equal and write_string_on_file_between_markers(\n            f, strings[file_id], marker, newline_string)\n")],
  demo=r'''
a, b = path('a.md', '<!--TOC-->\n# a\n'), path('b.md', '<!--TOC-->\n# b\n')
program('-p', 'github', a, b)
assert '[b](#b)' in read(b)
'''),
 dict(id='stop-at-notice', property='C13',
  needs='several files, one of which is not text',
  breaks='the files which come after it get no table of contents',
  edits=[('api.py', "    return [\n        build_toc(\n            filenames[file_id],", "    binary = []\n    return [\n        '' if binary else build_toc(\n            filenames[file_id],"),
         ('api.py', "        ) for file_id in range(0, len(filenames))\n    ]", "        ) for file_id in range(0, len(filenames))\n        if not (file_id > 1 and _binary(filenames[file_id - 1])\n                and binary.append(True))\n    ]"),
         ('api.py', "def increase_index_ordered_list(", "def _binary(filename: str) -> bool:\n    try:\n        if filename != '-':\n            with open(filename) as f:\n                f.read()\n    except UnicodeDecodeError:\n        return True\n    return False\n\n\ndef increase_index_ordered_list(")],
  demo=r'''
a, b, c = path('a.md', '# a\n'), path('b.md', ''), path('c.md', '# c\n')
with open(b, 'wb') as f:
    f.write(b'\xff')
assert api.build_multiple_tocs([a, b, c])[2] == '- [c](#c)\n'
'''),
 dict(id='cached-by-size', property='C23',
  needs='a file rewritten with the same size within a second',
  breaks='the table of contents of the old content is given',
  edits=[('api.py', "    if not skip_lines >= 0:\n        raise ValueError\n\n    toc: list[str] = []\n", "    if not skip_lines >= 0:\n        raise ValueError\n\n    key = None\n    if filename != '-':\n        st = os.stat(filename)\n        key = (filename, st.st_size, int(st.st_mtime), ordered, no_links,\n               no_indentation, no_list_coherence, keep_header_levels, parser,\n               list_marker, skip_lines, constant_ordered_list, newline_string)\n        if key in _tocs:\n            return _tocs[key]\n\n    toc: list[str] = []\n"),
         ('api.py', "    f.close()\n\n    return ''.join(toc)\n", "    f.close()\n\n    if key is not None:\n        _tocs[key] = ''.join(toc)\n    return ''.join(toc)\n"),
         ('api.py', "def build_toc(\n", "_tocs: dict = {}\n\n\ndef build_toc(\n")],
  demo=r'''
p = path('a.md', '# a\n')
os.utime(p, (1000, 1000))
api.build_toc(p)
path('a.md', '# b\n')
os.utime(p, (1000, 1000))
assert api.build_toc(p) == '- [b](#b)\n'
'''),
 dict(id='counter-left-by-a-failure', property='C23',
  needs='a document which is rejected, then another one with the same heading',
  breaks='the second document gets the suffixes counted in the first one',
  edits=[('api.py', "    header_duplicate_counter: types.HeaderDuplicateCounter = {}\n\n    if filename", "    header_duplicate_counter: types.HeaderDuplicateCounter = _counter\n\n    if filename"),
         ('api.py', "    f.close()\n\n    return ''.join(toc)\n", "    f.close()\n    _counter.clear()\n\n    return ''.join(toc)\n"),
         ('api.py', "def build_toc(\n", "_counter: dict = {}\n\n\ndef build_toc(\n")],
  demo=r'''
try:
    toc('# a\n### b\n')
except Exception:
    pass
assert toc('# a\n') == '- [a](#a)\n'
'''),
 dict(id='counter-left-by-a-notice', property='C06',
  needs='a file which is not text after some headings, then another file with the same heading',
  breaks='the second document gets the suffixes counted in the first one',
  edits=[('api.py', "    header_duplicate_counter: types.HeaderDuplicateCounter = {}\n\n    if filename", "    header_duplicate_counter: types.HeaderDuplicateCounter = _counter\n    if not _open:\n        _counter.clear()\n    _open.append(filename)\n\n    if filename"),
         ('api.py', "    f.close()\n\n    return ''.join(toc)\n", "    f.close()\n    _open.clear()\n\n    return ''.join(toc)\n"),
         ('api.py', "def build_toc(\n", "_counter: dict = {}\n_open: list = []\n\n\ndef build_toc(\n")],
  demo=r'''
p = path('x.md', '')
with open(p, 'wb') as f:
    f.write(b'# a\n' * 3 + b'x\n' * 9000 + b'\xff\n')
api.build_toc(p)
assert toc('# a\n') == '- [a](#a)\n'
'''),
 dict(id='gitlab-collapses-underscores', property='C22',
  needs='gitlab and a heading with consecutive underscores within a word',
  breaks='the anchor differs from the one of cmark by more than hyphens',
  edits=[('api.py', "            header_text_trimmed = re.sub('-+', '-', header_text_trimmed)\n", "            header_text_trimmed = re.sub(r'([-_])\\1+', r'\\1', header_text_trimmed)\n")],
  demo=r'''
assert toc('# a__b\n', parser='gitlab') == '- [a__b](#a__b)\n'
'''),
 dict(id='redcarpet-hash-of-32-bits', property='C05',
  needs='redcarpet and a heading of non-ASCII characters only',
  breaks='the hash is cut',
  edits=[('api.py', "            header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(\n                hash)\n", "            header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(\n                hash if hash < 1 << 60 else hash & 0xffffffff)\n")],
  demo=r'''
h = 5381
for b in ('é' * 12).encode():
    h = (h * 33 + b) % 2 ** 64
assert toc('# ' + 'é' * 12 + '\n', parser='redcarpet') == '- [%s](#part-%x)\n' % ('é' * 12, h)
'''),
 dict(id='deep-entries-are-merged', property='C07',
  needs='six levels, back to the fourth, then down again',
  breaks='an entry of the sixth level gets the indentation of an earlier list',
  edits=[('api.py', "        elif header_type_curr > header_type_prev:\n            # More indentation.\n", "        elif (header_type_curr == md_parser['github']['header']['max_levels']\n              and indentation_log[header_type_curr]['indentation_spaces'] > 0\n              and header_type_curr > header_type_prev):\n            # The sublist was already seen.\n            pass\n        elif header_type_curr > header_type_prev:\n            # More indentation.\n"),
         ('api.py', "                    header_type_curr + 1,\n                    md_parser['github']['header']['max_levels'] + 1,\n", "                    header_type_curr + 1,\n                    md_parser['github']['header']['max_levels'],\n")],
  demo=r'''
doc = ''.join('#' * k + ' a\n' for k in range(1, 7)) + '##### a\n' * 9 + '###### b\n'
t = toc(doc, ordered=True, no_links=True, keep_header_levels=6).splitlines()
assert t[-1] == ' ' * 16 + '1. b', t[-2:]
'''),
 dict(id='indentation-of-last-number', property='C07',
  needs='an ordered list going from a wide to a narrow number of the same level in another list',
  breaks='the entry is indented by the width of a number of an earlier list',
  edits=[('api.py', "        if ordered:\n            indentation_log[header_type_curr]['index'] = index\n", "        if ordered:\n            indentation_log[header_type_curr]['index'] = max(\n                index, indentation_log[header_type_curr]['index'])\n"),
         ('api.py', "                indentation_log[i]['index'] = md_parser['github']['list'][\n                    'ordered']['min_marker_number']\n                indentation_log[i]['indentation_spaces'] = 0\n", "                if i > 4:\n                    indentation_log[i]['index'] = md_parser['github']['list'][\n                        'ordered']['min_marker_number']\n                indentation_log[i]['indentation_spaces'] = 0\n")],
  demo=r'''
doc = '# a\n' + '## b\n' * 10 + '# a\n## b\n### c\n'
t = toc(doc, ordered=True, no_links=True).splitlines()
assert t[-1] == '      1. c', t[-1]
'''),
 dict(id='no-write-if-equal', property='C16',
  needs='in place, a file with the right table and other newlines',
  breaks='the file keeps its newlines',
  edits=[('api.py', "    # 1 or more pre-existing markers.\n    if marker_line_positions_length >= 1:\n", "    # 1 or more pre-existing markers.\n    if marker_line_positions_length >= 1 and not equal:\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\r\n\r\n- a\r\n\r\n<!--TOC-->\r\n')
api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
assert '\r' not in read(p)
'''),
 dict(id='marker-as-a-word', property='C10',
  needs='a marker that is a part of a longer line',
  breaks='lines other than the block are changed',
  edits=[('generic.py', "        old_toc = marker\n\n    return", "        old_toc = marker\n\n    # A list right after a lone marker is an old table.\n    if not lines_to_delete and marker_line_positions_length == 1 and not two_or_more_markers:\n        start = marker_line_positions[1]\n        end = start\n        while _detect_toc_list(_read_line_interval(lines, end + 1, end + 1)):\n            end += 1\n        if end > start + 1:\n            lines_to_delete.append([start + 1, end])\n\n    return")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n- x\n- y\nz\n')
api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
assert '- x\n- y\nz\n' in read(p), read(p)
'''),
 dict(id='block-before-code', property='C10',
  needs='a pair of markers that follows a line of a fence',
  breaks='the block is written at another place',
  edits=[('generic.py', "        if _detect_toc_list(interval_with_newline) or _string_empty(interval):\n", "        if (_detect_toc_list(interval_with_newline)\n                or _string_empty(interval)) and not (\n                    second_marker == 3 and _read_line_interval(\n                        lines, marker_line_positions[first_marker] - 1,\n                        marker_line_positions[first_marker] - 1) == '```'):\n")],
  demo=r'''
M = '<!--TOC-->\n'
p = path('a.md', M + 'x\ny\n' + 'z\n```\n' + M + '\n' + M)
api.write_string_on_file_between_markers(p, '- a\n', '<!--TOC-->', '\n')
assert read(p) == M + 'x\ny\nz\n```\n' + M + '\n- a\n\n' + M, read(p)
'''),
 dict(id='diff-with-empty-table', property='C12',
  needs='a document without headings and a file which holds an old table',
  breaks='no difference is reported',
  edits=[('api.py', "    if current_toc.strip() == old_toc:\n        tocs_equal = True\n", "    if current_toc.strip() == old_toc or not current_toc:\n        tocs_equal = True\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n\n- a\n\n<!--TOC-->\n')
assert not api.tocs_equal('', p, '<!--TOC-->')
'''),
 dict(id='skip-fences-first', property='C21',
  needs='skipping ends inside a fenced block of at least two lines',
  breaks='the rest of the block stays hidden',
  edits=[('api.py', "        while loop:\n            try:\n                if line_counter > skip_lines or f.readline() == '':\n                    loop = False\n", "        within = None\n        while loop:\n            try:\n                if line_counter > skip_lines:\n                    loop = False\n                else:\n                    skipped = f.readline()\n                    loop = skipped != ''\n                    if within is None:\n                        within = is_opening_code_fence(skipped, parser)\n                    elif is_closing_code_fence(skipped, within, False, parser):\n                        within = None\n"),
         ('api.py', "    is_within_code_fence = False\n    code_fence = None\n", "    is_within_code_fence = False\n    code_fence = None\n    if skip_lines > 2 and within is not None:\n        is_within_code_fence = True\n        code_fence = within\n")],
  demo=r'''
assert toc('```\na\nb\n# c\n```\n', skip_lines=3) == '- [c](#c)\n'
'''),
 dict(id='levels-option-of-alias', property='C14',
  needs='goldmark and the option of the levels without a value',
  breaks='the maximum level is not six',
  edits=[('cli.py', "            keep_header_levels=args.header_levels,\n", "            keep_header_levels=(3 if args.parser == 'goldmark'\n                                and args.constant_ordered_list else\n                                args.header_levels),\n")],
  demo=r'''
a = path('a.md', '# a\n## b\n### c\n#### d\n')
assert '[d]' in program('goldmark', '-c', a)[1]
'''),
 dict(id='diff-of-stdin-named-file', property='C14',
  needs='the difference check on a file without a block and an empty table',
  breaks='the exit status is 128',
  edits=[('cli.py', "                    equal &= tocs_equal(toc, args.filename[i], args.toc_marker)\n", "                    equal &= toc != '' and tocs_equal(\n                        toc, args.filename[i], args.toc_marker)\n")],
  demo=r'''
a = path('a.md', 'x\n')
assert program('-d', 'github', a)[0] == 0
'''),
 dict(id='stdin-tabs', property='C15',
  needs='standard input with an unclosed fence on its last line',
  breaks='headings of the block are listed',
  edits=[('api.py', "        if filename != '-':\n            # stdin is not seekable.\n", "        if filename == '-':\n            is_document_end = not line.endswith('\\n')\n        else:\n            # stdin is not seekable.\n"),
         ('api.py', "            is_within_code_fence = not is_closing_code_fence(\n                line,\n                code_fence,\n                is_document_end,\n                parser,\n            )\n", "            is_within_code_fence = not is_closing_code_fence(\n                line,\n                code_fence,\n                is_document_end,\n                parser,\n            )\n            if is_document_end and filename == '-':\n                code_fence = None\n")],
  demo=r'''
a = path('a.md', '```\n# a')
assert program('github', a)[1] == program('github', data='```\n# a')[1]
'''),
 dict(id='retry-with-latin', property='C17',
  needs='undecodable bytes after many lines',
  breaks='the file is read in another encoding',
  edits=[('api.py', "        try:\n            line = f.readline()\n        except UnicodeDecodeError:\n            return ''.join(\n                ['<!--stop reading ', filename, ': probably a binary file-->'])\n\n    # endwhile", "        try:\n            line = f.readline()\n        except UnicodeDecodeError:\n            line = ''\n\n    # endwhile"),
         ('api.py', "                if f.readline() == '':\n                    is_document_end = True\n            except UnicodeDecodeError:\n                return ''.join([\n                    '<!--stop reading ', filename,\n                    ': probably a binary file-->'\n                ])\n            f.seek(file_pointer_pos)\n", "                if f.readline() == '':\n                    is_document_end = True\n            except UnicodeDecodeError:\n                if len(toc) < 2:\n                    return ''.join([\n                        '<!--stop reading ', filename,\n                        ': probably a binary file-->'\n                    ])\n            f.seek(file_pointer_pos)\n")],
  demo=r'''
p = path('a.md', '')
with open(p, 'wb') as f:
    f.write(b'# a\n' * 9000 + b'\xff\n')
assert api.build_toc(p).startswith('<!--stop reading')
'''),
 dict(id='escaped-mark-closes', property='C19',
  needs='an escaped asterisk right after a word that is emphasised with two marks',
  breaks='another character is removed',
  edits=[('api.py', "    rng_flat: list[int] = sorted([item for e in rng for item in e])\n", "    rng_flat: list[int] = sorted([item for e in rng for item in e])\n    if len(rng_flat) > 16:\n        rng_flat = list(range(rng_flat[0], rng_flat[1])) + rng_flat[1:]\n")],
  demo=r'''
s = '*a* ' * 9
assert api.remove_emphasis(s) == 'a ' * 9, api.remove_emphasis(s)
'''),
 dict(id='whole-line-comment', property='C20',
  needs='a comment of more than 256 characters',
  breaks='the comment is not removed',
  edits=[('api.py', "        line = re.sub('|'.join('(?:' + r + ')' for r in regexes),\n                      '',\n                      line,\n                      flags=re.DOTALL)\n", "        line = re.sub('|'.join('(?:' + r + ')' for r in regexes),\n                      lambda m: '' if m.end() - m.start() < 256 else m.group(),\n                      line,\n                      flags=re.DOTALL)\n")],
  demo=r'''
s = 'a<!--' + 'x' * 300 + '-->b'
assert api.remove_html_tags(s) == 'ab'
'''),
 dict(id='one-entry-per-anchor', property='C01',
  needs='headings of redcarpet with the same text, one after the other',
  breaks='an entry is lost',
  edits=[('api.py', "            if header is not None and header['visible']:\n", "            if header is not None and header['visible'] and not (\n                    parser == 'redcarpet' and len(toc) > 3\n                    and header['text_anchor_link'] == ''):\n")],
  demo=r'''
assert toc('# a\n' * 4 + '# <\n', parser='redcarpet').count('\n') == 5
'''),
 dict(id='tail-of-crlf', property='C16',
  needs='a CRLF document whose last heading has closing hashes and no final newline',
  breaks='the closing hashes stay',
  edits=[('api.py', "        f = open(filename, newline=None)\n", "        f = open(filename, newline='' if _crlf(filename) else None)\n"),
         ('api.py', "def build_multiple_tocs(", "def _crlf(filename: str) -> bool:\n    with open(filename, 'rb') as f:\n        head = f.read(64)\n    return b'\\r\\n' in head and not b'#' in head\n\n\ndef build_multiple_tocs("),],
  demo=r'''
text = 'x' * 60 + '\n~~~\n# a\n~~~\n# b\n'
a, b = path('a.md', text), path('b.md', text.replace('\n', '\r\n'))
assert api.build_toc(a) == api.build_toc(b), (api.build_toc(a), api.build_toc(b))
'''),
]
