BUGS = [
 dict(id='ranges-cut-in-turn', property='C26',
  needs='ranges which overlap or are repeated',
  breaks='characters after the ranges are removed too',
  edits=[('api.py', "    # Transform ranges into lists.\n    rng: list[typing.Sequence[int]] = [list(r) for r in ranges]\n\n    # Flatten list.\n    rng_flat: list[int] = sorted([item for e in rng for item in e])\n\n    return ''.join([line[i] for i in range(0, len(line)) if i not in rng_flat])\n",
   "    for r in sorted(ranges, key=lambda r: r.start, reverse=True):\n        line = line[:r.start] + line[max(r.start, r.stop):]\n    return line\n")],
  demo=r'''
assert api.filter_indices_from_line('abcdef', [range(1, 3), range(2, 4)]) == 'aef'
'''),
 dict(id='range-spans', property='C26',
  needs='a range with a step',
  breaks='the characters between its numbers are removed too',
  edits=[('api.py', "    # Transform ranges into lists.\n    rng: list[typing.Sequence[int]] = [list(r) for r in ranges]\n", "    # Transform ranges into lists.\n    rng: list[typing.Sequence[int]] = [\n        list(range(r[0], r[-1] + 1)) for r in ranges if len(r) > 0\n    ]\n")],
  demo=r'''
assert api.filter_indices_from_line('abcdef', [range(0, 6, 2)]) == 'bdf'
'''),
 dict(id='split-strips-blanks', property='C26',
  needs='a string which starts or ends with blanks',
  breaks='the blanks are lost',
  edits=[('api.py', "    line = line.lstrip('\\n')\n    line = line.rstrip('\\n')\n\n    return line.split('\\n')\n", "    line = line.lstrip('\\n')\n    line = line.rstrip('\\n\\f\\v')\n\n    return line.split('\\n')\n")],
  demo=r'''
assert api.replace_and_split_newlines('a\x0c\n') == ['a\x0c']
'''),
 dict(id='split-lines-of-str', property='C26',
  needs='a string with a line separator which is not CR or LF',
  breaks='it is split there',
  edits=[('api.py', "    line = line.rstrip('\\n')\n\n    return line.split('\\n')\n", "    line = line.rstrip('\\n')\n\n    return line.splitlines() or ['']\n")],
  demo=r'''
assert api.replace_and_split_newlines('a\x1eb\n') == ['a\x1eb']
'''),
 dict(id='cr-before-crlf', property='C26',
  needs='CRLF in the middle of a string',
  breaks='an empty line is added',
  edits=[('api.py', "    line = line.replace('\\r\\n', '\\n')\n    line = line.replace('\\r', '\\n')\n\n    # Ignore", "    line = line.replace('\\n\\r', '\\n').replace('\\r', '\\n')\n    line = re.sub(r'([^\\n])\\n\\n([^\\n])', r'\\1\\n\\2', line)\n\n    # Ignore")],
  demo=r'''
assert api.replace_and_split_newlines('a\n\nb') == ['a', '', 'b']
assert api.replace_and_split_newlines('a\r\n\r\nb') == ['a', '', 'b']
'''),
 dict(id='indent-of-any-blank', property='C26',
  needs='a line which starts with blanks other than spaces',
  breaks='they are counted as indentation',
  edits=[('api.py', "        return len(line) - len(line.lstrip(\n            ' ')) <= md", "        return len(line) - len(line.lstrip(\n            ' \\u00a0\\u3000')) <= md")],
  demo=r'''
assert api.is_valid_code_fence_indent('\u00a0' * 5 + 'a')
'''),
 dict(id='joiners-kept', property='C26',
  needs='a zero width joiner',
  breaks='it is kept in anchors',
  edits=[('api.py', "r'[^\\w\\- ]'", "r'[^\\w\\u200d\\- ]'")],
  demo=r'''
assert api.anchor_link_punctuation_filter('a\u200db') == 'ab'
'''),
]
