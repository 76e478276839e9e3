#!/usr/bin/env python3
"""Write spec/Unicode.tla from the Unicode database of the interpreter.

Run it with the interpreter which runs the implementation (/opt/venv/bin/python).
"""

import os
import unicodedata


def intervals(test):
    out = []
    start = None
    for c in range(0x110001):
        t = c < 0x110000 and test(c)
        if t and start is None:
            start = c
        if not t and start is not None:
            out.append((start, c - 1))
            start = None
    return out


def lower_runs():
    """(first, last, step, difference) for the characters with a lower case."""
    runs = []
    for c in range(128, 0x110000):
        low = chr(c).lower()
        if len(low) != 1 or low == chr(c):
            continue
        d = ord(low) - c
        if runs:
            lo, hi, step, diff = runs[-1]
            if diff == d and (c - hi == step or step == 0 and c - hi <= 2):
                runs[-1] = (lo, c, c - hi, d)
                continue
        runs.append((c, c, 0, d))
    return [(lo, hi, step or 1, d) for lo, hi, step, d in runs]


def table(name, rows):
    out = name + ' == <<\n'
    line = '  '
    cells = ['<<%s>>' % ', '.join(map(str, r)) for r in rows]
    for k, c in enumerate(cells):
        c += ',' if k + 1 < len(cells) else ''
        if len(line) + len(c) > 78:
            out += line.rstrip() + '\n'
            line = '  '
        line += c + ' '
    return out + line.rstrip() + ' >>\n'


def category(*names):
    return lambda c: c >= 128 and unicodedata.category(chr(c)).startswith(names)


def cased(c):
    """A capital sigma after it is the last of a word."""
    return (chr(c) + '\u03a3').lower()[-1] == '\u03c2'


def transparent(c):
    """It does not count for the place of a sigma in its word (not cased)."""
    return not cased(c) and ('a' + chr(c) + '\u03a3').lower()[-1] == '\u03c2'


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    text = '''------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* The classes of the Unicode standard (version %s), without ASCII.    *)
(* Written by tools/unicode_tables.py.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

\\* The last row of T, from lo to hi, which starts at c or before it.
RECURSIVE RowFrom(_, _, _, _)
RowFrom(T, c, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \\div 2
       IN IF T[m][1] <= c THEN RowFrom(T, c, m, hi) ELSE RowFrom(T, c, lo, m - 1)
Row(T, c) == T[RowFrom(T, c, 1, Len(T))]
Among(T, c) == LET r == Row(T, c) IN r[1] <= c /\\ c <= r[2]

''' % unicodedata.unidata_version
    text += '\\* Letters and numbers (L*, N*).\n' + table('WordTable', intervals(category('L', 'N')))
    text += '\n\\* Punctuation (P*).\n' + table('PunctTable', intervals(category('P')))
    text += '\n\\* Decimal digits (Nd).\n' + table('DigitTable', intervals(category('Nd')))
    text += '\n\\* Lower case: first, last, step, difference.\n' + table('LowerTable', lower_runs())
    text += '\n\\* Letters with a case.\n' + table('CasedTable', intervals(cased))
    text += '\n\\* Marks which may be inside a word.\n' + table('TransparentTable', intervals(transparent))
    text += '''
LowerOf(c) == LET r == Row(LowerTable, c)
              IN IF r[1] <= c /\\ c <= r[2] /\\ (c - r[1]) % r[3] = 0 THEN c + r[4] ELSE c
=============================================================================
'''
    with open(os.path.join(here, 'spec', 'Unicode.tla'), 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
