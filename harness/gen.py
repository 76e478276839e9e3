"""Seeded random generators.  No U+0130 and no U+03A3: see Text.tla."""

import random

WORDS = ['a', 'b', 'A', 'foo', 'Bar', 'baz-1', 'x_y', '1', '42', 'a-1', 'a-2', 'foo-1',
         'The', 'é', 'Ñandú', 'Żółw', 'Дом', 'βΑ', '日本', '中文', 'ª²', 'ß']
PUNCT = list('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
ODD = ['\t', '\x0b', '\x0c', '\u00a0', '\u2003', '\u3000', '“', '”', '—', '…', '¿', '«', '»',
       '·', '、', '\u200a', '\x85', '\u2028', '\x1c', '\x1f', '\ufeff', '\u200b', '\u0301', '😀',
       'Ａ', '＃', 'ẞ', 'ǅ', '٣', '⅓', 'Ⅳ', '𝒜', '\u2029', '€', '\x7f', '\u00ad']
INLINE = ['*a*', '**b**', '_c_', '__d__', '***e***', '*f**', '**g*', '`*h*`', '``i`j``', '\\*k\\*',
          '<b>l</b>', '<i class="x">', '</i>', '<br/>', '<!--c-->', '<?p?>', '<!D x>',
          '<![CDATA[z]]>', '<title>', '<http://e.x>', '<m@n.o>', '&amp;', '[p](q)', '![r](s)',
          '[t]', '\\[u\\]', 'v\\', 'a*b*c', 'a_b_c', '* w *', '<x', '<a b=\'c\' d = e>', '\\\\[v]']


def word(r):
    return r.choice(WORDS)


def heading_text(r, rich=0.5):
    """A heading text: no line breaks."""
    if rich >= 0.3 and r.random() < 0.12:
        import grammar
        if r.random() < 0.3:
            return soup(r, BLANKLIKE + WORDS + ['a', ' '], 1, 6)
        return r.choice([grammar.emphasis, grammar.emphasis, grammar.raw])(r).replace('\n', ' ')[:120]
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4]) if rich > 0 else r.choice([1, 1, 2])
    parts = []
    for _ in range(n):
        x = r.random()
        if x >= rich:
            parts.append(word(r))
        elif x < rich * 0.55:
            parts.append(r.choice(INLINE))
        elif x < rich * 0.8:
            parts.append(''.join(r.choice(PUNCT) for _ in range(r.randint(1, 3))))
        elif x < rich * 0.9:
            parts.append(r.choice(ODD))
        else:
            parts.append(word(r) + r.choice(PUNCT) + word(r))
    sep = r.choice([' ', ' ', ' ', '', '  '])
    return sep.join(parts)


def soup(r, alphabet, lo, hi):
    return ''.join(r.choice(alphabet) for _ in range(r.randint(lo, hi)))


def heading(r, level, rich=0.5, clean=False):
    """A line with an ATX heading of the given level (nearly always)."""
    t = heading_text(r, rich)
    if clean:
        return '#' * level + ' ' + (t or 'a')
    indent = ' ' * r.choice([0, 0, 0, 0, 0, 1, 2, 3, 4])
    gap = r.choice([' ', ' ', ' ', ' ', '  ', '\t', ' \t', ''])
    tail = r.choice(['', '', '', '', '', ' ', ' #', ' ##', '#', ' # ', '\t#', ' \\#', ' ###  ', '\t'])
    return indent + '#' * level + gap + t + tail


def info(r):
    """The info string of a code fence."""
    x = r.random()
    if x < 0.35:
        return r.choice(['', '', '', '', ' py', 'c++', ' a`b', ' ~', ' ', '\t', ' `', '~~~'])
    if x < 0.5:
        return r.choice(['', ' ']) + r.choice(['{.a #b}', 'c {', 'x \\', 'a=b', '{', '}', '[x]', '<b>', '-->',
                                               'js title="# a"', '#', '# x', 'é', '日本', '|', 'a b c',
                                               '\u00a0', '\x0b', '- a', '***', '$$', 'r, echo=FALSE'])
    s = ''.join(r.choice(PUNCT + WORDS + [' ', ' ', ' ', '\t'] + ODD[:12]) for _ in range(r.randint(1, 6)))
    return s if r.random() < 0.3 else s.replace('`', '')


def fence(r):
    c = r.choice('`~')
    indent = ' ' * r.choice([0, 0, 0, 0, 1, 2, 3, 4])
    n = r.choice([3, 3, 3, 3, 4, 5, 2])
    return indent + c * n + info(r)


def fence_line(r):
    """A line which opens or closes a block, or nearly."""
    x = r.random()
    if x < 0.75:
        s = ' ' * r.choice([0, 0, 0, 1, 2, 3, 4, 5]) + r.choice('`~') * r.choice([1, 2, 3, 3, 3, 4, 5, 9, 40])
        s += info(r) if r.random() < 0.6 else r.choice(['', '', ' ', '\t', ' \t ', '  '])
    else:
        s = soup(r, ['`', '~', '```', '~~~', ' ', '\t', 'a', '#', '\u00a0', '>'], 0, 7)
    return s + r.choice(['', '', '\n'])


def prose(r):
    return r.choice(['', '', 'text', 'some words here', '    # code', '#hash', '#######', '- item',
                     '1. one', '===', '---', '=====', '=' * r.randint(1, 9), '-' * r.randint(1, 9), '* * *', '___', '+++', '|a|b|', '[a]: b', '%%', '$$', '---\t', '<!-- # x', '# -->'[2:], '{: #x}', ':::', '> # quote', '\\# no', '\t# tab', '<!--TOC-->',
                     '####### seven', ' ', '\x0c', '`# a`', '* # x', 'a # b', '\ufeff# a', '\u00a0# b', '＃ c',
                     '\x85', 'x\u2028# d', 'y\x1c# e', '\u200b# f', '\x1f', '#\u00a0g', '#\u3000h'])


def levels_walk(r, n, maxlevel=6, wild=0.03):
    """Levels of headings, mostly coherent."""
    first = r.choice([1, 1, 1, 2, 3])
    cur = first
    out = [first]
    for _ in range(n - 1):
        if r.random() < wild:
            cur = r.randint(1, 6)
        else:
            cur = r.randint(min(first, cur), min(maxlevel, cur + 1))
        out.append(cur)
    return out


def preface(r):
    """Some text before the first heading, longer than what a reader would peek at."""
    size = r.choice([40, 64, 100, 128, 256, 300, 520, 1030])
    lines = []
    while sum(map(len, lines)) < size:
        lines.append(' '.join(r.choice(['lorem', 'ipsum', 'dolor', 'sit', 'amet', 'é'])
                              for _ in range(r.randint(1, 12))))
        if r.random() < 0.2:
            lines.append('')
    return lines


def document(r, size=None, rich=0.4, wild=0.03, fences=0.1, proses=0.25, vocab=None, clean=False):
    """The lines of a document."""
    n = size if size is not None else r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16])
    walk = levels_walk(r, max(n, 1), wild=wild)
    lines = preface(r) if proses and size is None and r.random() < 0.08 else []
    for k in range(n):
        x = r.random()
        if x < fences:
            lines.append(fence(r))
        elif x < fences + proses:
            lines.append(prose(r))
        elif vocab:
            lines.append('#' * walk[k] + ' ' + r.choice(vocab))
        else:
            lines.append(heading(r, walk[k], rich, clean))
    return lines


def options(r, fam, plain=False):
    o = dict(fam=fam, ordered=False, const=False, mark=ord('-'), links=True, indent=True,
             coherent=True, keep=6, skip=0)
    if plain:
        return o
    x = r.random()
    if x < 0.35:
        o['ordered'] = True
        o['mark'] = ord(r.choice('-..))'))
    elif x < 0.45:
        o['const'] = True
        o['ordered'] = r.random() < 0.5
        o['mark'] = ord(r.choice('-.)+'))
    else:
        o['mark'] = ord(r.choice('--+*'))
    o['links'] = r.random() < 0.75
    o['indent'] = r.random() < 0.8
    o['coherent'] = r.random() < 0.75
    o['keep'] = r.choice([1, 2, 3, 3, 4, 5, 6, 6, 6, 9])
    o['skip'] = r.choice([0, 0, 0, 0, 1, 2, 3, 5, 40])
    return o


# Characters that are or look like blanks, line ends or hashes.
BLANKLIKE = [chr(c) for c in [*range(1, 10), 11, 12, *range(14, 33), *range(127, 162), 0xad, 0x1680,
                              0x180e, *range(0x2000, 0x2010), *range(0x2028, 0x2030), 0x205f, 0x2060,
                              0x3000, 0x3164, 0xfeff, 0xff03, 0xfe5f, 0xff3c, 0xfffd, 0x266f, 0x1f600]]


def code_points():
    """All the assigned characters, except the line ends."""
    import unicodedata
    return [c for c in range(1, 0x110000)
            if c not in (10, 13) and
            unicodedata.category(chr(c)) not in ('Cn', 'Cs', 'Co')]


NAMES = ['f%d.md', 'f%d.md', 'f%d.md', 'a b%d.md', 'é日%d.md', 'README%d', 'x%d.MD', 'dir/g%d.md',
         'dir/sub dir/h%d.markdown', './k%d.md', '.hidden%d.md', '[l]%d.md', '*%d.md', '~m%d.md',
         'n%d.md~', "o'%d.md", '$HOME%d.md', '%%s%d.md', 'dir/../p%d.md', ' q%d.md ', 'r%d.md.tmp',
         '{s}%d.md', '\\t%d.md', '#u%d.md', '"v%d".md', '<w%d>.md', '=%d.md', '@y%d.md', '+%d']


def name(r, k):
    """The path of a file, unlike those with other k."""
    return r.choice(NAMES) % k


def rng(seed, *salt):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, salt))))
