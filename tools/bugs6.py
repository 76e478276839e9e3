BUGS = [
 dict(id='bounds-after-counting', property='C24',
  needs='a rejected current level while a counter is shared',
  breaks='the counter of the numbers has got an entry when the call is rejected',
  edits=[('api.py', "    # header_type_prev might be 0 while header_type_curr can't.\n    if not header_type_prev >= 0:\n        raise ValueError\n    if not header_type_curr >= 1:\n        raise ValueError\n",
   "    # header_type_prev might be 0 while header_type_curr can't.\n    header_type_count.setdefault('h' + str(max(header_type_curr, 1)), 0)\n    if not min(header_type_prev, header_type_curr - 1) >= 0:\n        raise ValueError\n")],
  demo=r'''
c = {}
try:
    api.increase_index_ordered_list(c, 0, 0)
    assert False
except ValueError:
    pass
assert c == {}, c
'''),

 dict(id='log-before-checks', property='C24',
  needs='a wrong marker in an ordered list, the log being used afterwards',
  breaks='the log holds the index of the rejected call',
  edits=[('api.py', "    if not index >= 1:\n        raise ValueError\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            if list_marker not in md_parser[parser]['list']['ordered'][\n                    'closing_markers']:\n                raise ValueError\n        else:\n            if list_marker not in md_parser[parser]['list']['unordered'][\n                    'bullet_markers']:\n                raise ValueError\n\n    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:\n        index_length: int\n        if ordered:\n            if",
   "    if not index >= 1:\n        raise ValueError\n    length: int = len(str(indentation_log[max(header_type_prev, 1)]['index']))\n    if ordered:\n        indentation_log[header_type_curr]['index'] = index\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            if list_marker not in md_parser[parser]['list']['ordered'][\n                    'closing_markers']:\n                raise ValueError\n        else:\n            if list_marker not in md_parser[parser]['list']['unordered'][\n                    'bullet_markers']:\n                raise ValueError\n\n    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:\n        index_length: int\n        if ordered:\n            if"),
   ('api.py', "                index_length = len(\n                    str(indentation_log[header_type_prev]['index']), )\n", "                index_length = length\n"),
   ('api.py', "        if ordered:\n            indentation_log[header_type_curr]['index'] = index\n        indentation_log[header_type_curr]['list_marker']", "        indentation_log[header_type_curr]['list_marker']")],
  demo=r"""
import copy
log = api.init_indentation_log('github', '.')
old = copy.deepcopy(log)
try:
    api.compute_toc_line_indentation_spaces(2, 1, 'github', True, 'x', log, 12)
    assert False
except ValueError:
    pass
assert log == old, log
"""),
 dict(id='markers-as-substrings', property='C24',
  needs='a marker made of two bullets',
  breaks='an entry with the marker -+ is made',
  edits=[('api.py', "        else:\n            if list_marker not in md_parser[parser]['list']['unordered'][\n                    'bullet_markers']:\n                raise ValueError\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            list_marker: str",
    "        else:\n            if list_marker not in ''.join(md_parser[parser]['list']['unordered'][\n                    'bullet_markers']):\n                raise ValueError\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            list_marker: str")],
  demo=r'''
h = dict(header_type=1, text_original='t', text_anchor_link='t', visible=True)
for m in ('', '-+'):
    try:
        api.build_toc_line_without_indentation(h, list_marker=m)
        assert False, m
    except ValueError:
        pass
'''),
 dict(id='shorter-of-the-lists', property='C24',
  needs='more strings than files',
  breaks='the strings in excess are ignored and the files are written',
  edits=[('api.py', "    if not len(filenames) == len(strings):\n        raise ValueError\n", "    if len(filenames) > len(strings):\n        raise ValueError\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
old = read(p)
try:
    api.write_strings_on_files_between_markers([p], ['- a', '- b'], '<!--TOC-->', '\n')
    assert False
except ValueError:
    pass
assert read(p) == old
'''),
 dict(id='lengths-checked-late', property='C24',
  needs='fewer strings than files',
  breaks='the call is rejected after files have been written',
  edits=[('api.py', "    if not len(filenames) == len(strings):\n        raise ValueError\n", ""),
         ('api.py', "    for f in filenames:\n        equal &=", "    for f in filenames:\n        if file_id >= len(strings):\n            raise ValueError\n        equal &="),
         ('api.py', "        file_id += 1\n\n    return equal\n", "        file_id += 1\n    if file_id < len(strings):\n        raise ValueError\n\n    return equal\n")],
  demo=r'''
p = path('a.md', '<!--TOC-->\n# a\n')
q = path('b.md', '<!--TOC-->\n# a\n')
old = read(p)
try:
    api.write_strings_on_files_between_markers([p, q], ['- a'], '<!--TOC-->', '\n')
    assert False
except ValueError:
    pass
assert read(p) == old
'''),
 dict(id='carriage-returns-in-anchors', property='C24',
  needs='a text with a lone carriage return given to build_anchor_link',
  breaks='it is accepted',
  edits=[('api.py', "    if len(replace_and_split_newlines(header_text_trimmed)) > 1:\n        raise", "    if '\\n' in header_text_trimmed.strip('\\r\\n'):\n        raise")],
  demo=r'''
from md_toc.exceptions import StringCannotContainNewlines
d = {}
try:
    api.build_anchor_link('a\rb', d)
    assert False
except StringCannotContainNewlines:
    pass
assert d == {}
'''),
 dict(id='newlines-of-python', property='C24',
  needs='a heading text with a vertical tab, a form feed or a line separator',
  breaks='it is rejected as if it had more than one line',
  edits=[('api.py', "    if len(replace_and_split_newlines(header_text_trimmed)) > 1:\n        raise", "    if len(header_text_trimmed.strip('\\r\\n').splitlines()) > 1:\n        raise")],
  demo=r'''
api.build_anchor_link('a\u2028b', {})
'''),
 dict(id='zero-levels-mean-all', property='C24',
  needs='a maximum level of zero',
  breaks='all the headings are listed instead of an error',
  edits=[('api.py', "    if not keep_header_levels >= 1:\n        raise ValueError\n\n    struct", "    if not keep_header_levels >= 0:\n        raise ValueError\n    keep_header_levels = keep_header_levels or 6\n\n    struct")],
  demo=r'''
try:
    toc('# a\n', keep_header_levels=0)
    assert False
except ValueError:
    pass
'''),
 dict(id='skip-minus-one', property='C24',
  needs='several files and a negative number of lines',
  breaks='nothing is skipped instead of an error',
  edits=[('api.py', "            list_marker,\n            skip_lines,\n            constant_ordered_list,\n            newline_string,\n        ) for", "            list_marker,\n            max(skip_lines, 0),\n            constant_ordered_list,\n            newline_string,\n        ) for")],
  demo=r'''
p = path('a.md', '# a\n')
try:
    api.build_multiple_tocs([p], skip_lines=-1)
    assert False
except ValueError:
    pass
'''),
 dict(id='redcarpet-entry-parenthesis', property='C24',
  needs='redcarpet, an ordered entry closed by a parenthesis',
  breaks='the entry, which redcarpet does not know, is made',
  edits=[('api.py', "        if ordered:\n            if list_marker not in md_parser[parser]['list']['ordered'][\n                    'closing_markers']:\n                raise ValueError\n        else:\n            if list_marker not in md_parser[parser]['list']['unordered'][\n                    'bullet_markers']:\n                raise ValueError\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            list_marker: str",
   "        if ordered:\n            if list_marker not in md_parser['github']['list']['ordered'][\n                    'closing_markers']:\n                raise ValueError\n        else:\n            if list_marker not in md_parser[parser]['list']['unordered'][\n                    'bullet_markers']:\n                raise ValueError\n\n    if parser in [\n            'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',\n            'redcarpet'\n    ]:\n        if ordered:\n            list_marker: str")],
  demo=r'''
h = dict(header_type=1, text_original='t', text_anchor_link='t', visible=True)
try:
    api.build_toc_line_without_indentation(h, True, False, 1, 'redcarpet', ')')
    assert False
except ValueError:
    pass
'''),
 # ---- C25 ----

 dict(id='numbers-restart-in-build', property='C25',
  needs='ordered entries which go back to a deeper level, the functions being called one by one',
  breaks='the numbers of a new sublist go on from the previous sublist, build_toc restarts them itself',
  edits=[('api.py', "    if ('h' + str(header_type_curr) not in header_type_count\n            or header_type_prev < header_type_curr):\n", "    if 'h' + str(header_type_curr) not in header_type_count:\n"),
   ('api.py', "                if ordered and not constant_ordered_list:\n                    increase", "                if ordered and not constant_ordered_list:\n                    if 0 < header_type_prev < header_type_curr:\n                        header_type_counter.pop(\n                            'h' + str(header_type_curr), None)\n                    increase")],
  demo=r"""
c = {}
prev = 0
got = []
for l in (1, 2, 2, 1, 2):
    api.increase_index_ordered_list(c, prev, l)
    got.append(c['h%d' % l])
    prev = l
assert got == [1, 1, 2, 2, 1], got
"""),
 dict(id='sublists-reset-in-build', property='C25',
  needs='a level skipped after a shallower entry, the functions being called one by one',
  breaks='a stale indentation is used, build_toc resets the log itself',
  edits=[('api.py', "            for i in range(\n                    header_type_curr + 1,\n                    md_parser['github']['header']['max_levels'] + 1,\n            ):\n", "            for i in range(header_type_curr + 1, header_type_prev):\n"),
   ('api.py', "                    compute_toc_line_indentation_spaces(\n                        header_type_curr,\n                        header_type_prev,\n", "                    for deeper in indentation_log:\n                        if header_type_curr < header_type_prev and deeper > header_type_curr:\n                            indentation_log[deeper].update({\n                                'index': 1,\n                                'indentation_spaces': 0,\n                                'list_marker': list_marker,\n                            })\n                    compute_toc_line_indentation_spaces(\n                        header_type_curr,\n                        header_type_prev,\n")],
  demo=r"""
import copy
log = api.init_indentation_log('github', '-')
prev = 0
got = []
for l in (1, 2, 5, 1, 6, 5):
    api.compute_toc_line_indentation_spaces(l, prev, 'github', False, '-', log, 1)
    got.append(log[l]['indentation_spaces'])
    prev = l
t = toc('# a\n## a\n##### a\n# a\n###### a\n##### a\n', keep_header_levels=6, no_list_coherence=True)
assert got == [len(x) - len(x.lstrip()) for x in t.splitlines()], (got, t)
"""),
 dict(id='redcarpet-spaces-in-build', property='C25',
  needs='redcarpet with the functions called one by one',
  breaks='the log never holds the spaces of redcarpet',
  edits=[('api.py', "        indentation_log[header_type_curr]['indentation_spaces'] = 4 * (\n            header_type_curr - 1)\n", "        # Four spaces for each level: nothing to be remembered.\n        pass\n"),
   ('api.py', "                    no_of_indentation_spaces_curr = indentation_log[\n                        header_type_curr]['indentation_spaces']\n", "                    no_of_indentation_spaces_curr = (\n                        4 * (header_type_curr - 1)\n                        if parser == 'redcarpet' else indentation_log[\n                            header_type_curr]['indentation_spaces'])\n")],
  demo=r"""
log = api.init_indentation_log('redcarpet', '-')
api.compute_toc_line_indentation_spaces(2, 1, 'redcarpet', False, '-', log, 1)
assert log[2]['indentation_spaces'] == 4
"""),
 dict(id='one-log-for-all', property='C25',
  needs='two documents processed in turns, each with its own log',
  breaks='the logs are the same object',
  edits=[('api.py', "    return {\n        i: {\n            'index': md_parser[parser]['list']['ordered']['min_marker_number'],", "    return _LOGS.setdefault((parser, list_marker), {\n        i: {\n            'index': md_parser[parser]['list']['ordered']['min_marker_number'],"),
   ('api.py', "        for i in range(1, md_parser[parser]['header']['max_levels'] + 1)\n    }\n", "        for i in range(1, md_parser[parser]['header']['max_levels'] + 1)\n    })\n"),
   ('api.py', "def init_indentation_log(\n", "_LOGS: dict = {}\n\n\ndef init_indentation_log(\n"),
   ('api.py', "    indentation_log: dict[types.IndentationLogElement] = init_indentation_log(\n        parser, list_marker)\n", "    indentation_log: dict[types.IndentationLogElement] = {\n        i: dict(v, index=1, indentation_spaces=0)\n        for i, v in init_indentation_log(parser, list_marker).items()\n    }\n")],
  demo=r"""
a = api.init_indentation_log('github', '-')
b = api.init_indentation_log('github', '-')
api.compute_toc_line_indentation_spaces(2, 1, 'github', False, '-', a, 1)
assert b[2]['indentation_spaces'] == 0
"""),
 dict(id='escaped-in-build', property='C25',
  needs='a heading with a trailing backslash, the functions being called one by one',
  breaks='the entry is not a link',
  edits=[('api.py', "            line = ''.join([\n                '[', header['text_original'], ']', '(#',", "            line = ''.join([\n                '[', header['text_original'].rstrip(' '), ']', '(#',"),
    ('api.py', "                # Save the TOC line with the indentation.\n", "                if header['text_original'].endswith('\\\\ '):\n                    toc_line_no_indent = toc_line_no_indent.replace(\n                        '\\\\](', '\\\\ ](')\n                # Save the TOC line with the indentation.\n")],
  demo=r"""
h = api.get_md_header('# a\\', {})[0]
assert api.build_toc_line_without_indentation(h) + '\n' == toc('# a\\\n')
"""),
 dict(id='deep-code-in-build', property='C25',
  needs='a fence of tildes closed by a longer one, the functions being called one by one',
  breaks='the code goes on in the composition, build_toc shortens the line itself',
  edits=[('api.py', "        line = line.lstrip(' ')\n        if not line.startswith(fence):\n            return False\n", "        line = line.lstrip(' ')\n        if not line.startswith(fence) or len(line.rstrip()) > 6 * len(fence):\n            return False\n"),
    ('api.py', "            is_within_code_fence = not is_closing_code_fence(\n                line,\n                code_fence,\n", "            if line.strip() == line.strip()[:1] * len(line.strip()):\n                line = line.replace(code_fence * 2, code_fence)\n                line = line.replace(code_fence * 2, code_fence)\n            is_within_code_fence = not is_closing_code_fence(\n                line,\n                code_fence,\n")],
  demo=r"""
assert api.is_closing_code_fence('~' * 30, '~~~')
"""),
]
