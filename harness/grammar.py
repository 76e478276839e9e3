"""Inline texts made by the grammar of CommonMark, with sizes at the limits and small mistakes.

All the constructs which hide, delimit or nest the marks of emphasis, and all the raw HTML ones.
"""

import unicodedata

import gen

_punct = None
NAMES = ['a', 'b', 'A', 'h1', 'h10', 'x-y', 'x-1', 'B2c', 'br', 'Img', 'custom-element']
DISALLOWED = ['title', 'textarea', 'style', 'xmp', 'iframe', 'noembed', 'noframes', 'script',
              'plaintext']
SIZES = [1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]
BLANK = [' ', ' ', ' ', '  ', '\t', ' \t', '\x0b', '\x0c']


def size(r, small=0.75):
    return r.choice(SIZES[:12]) if r.random() < small else r.choice(SIZES)


def letters(r, n):
    return ''.join(r.choice('abcXYZ019') for _ in range(n))


def cased(r, s):
    x = r.random()
    if x < 0.4:
        return s
    if x < 0.5:
        return s.upper()
    if x < 0.6:
        return s.capitalize()
    return ''.join(c.upper() if r.random() < 0.5 else c for c in s)


def odd(r):
    """A character of any kind, punctuation more often."""
    global _punct
    if _punct is None:
        points = gen.code_points()
        _punct = ([c for c in points if unicodedata.category(chr(c))[0] == 'P'],
                  [c for c in points if unicodedata.category(chr(c))[0] == 'Z'],
                  [c for c in points if unicodedata.category(chr(c))[0] in 'SN'], points)
    return chr(r.choice(r.choices(_punct, [5, 2, 2, 2])[0]))


def marks(r):
    return r.choice(['*', '*', '_', '**', '__', '***', '*_', '_*'])


def value(r):
    x = r.random()
    body = gen.soup(r, ['v', '1', '*', '_', ' ', '>', '<', '/', '=', '-', '\\', '&', 'é', '`', '"', "'"],
                    0, 4)
    if x < 0.35:
        return '"' + body.replace('"', '') + '"'
    if x < 0.65:
        return "'" + body.replace("'", '') + "'"
    if x < 0.9:
        return gen.soup(r, ['v', 'W', '1', '*', '_', '/', '-', '.', '#', '?', '&', ':', 'é', '\\', '!'], 1,
                        size(r, 0.9))
    return r.choice(['', '""', "''", '"', "'", '`', '=', 'a`b', '"a"b', '{x}', '“q”'])


def attribute(r):
    blank = r.choice(BLANK) if r.random() < 0.9 else r.choice(['', '\n', '\u00a0', '\x1f', '\u2003'])
    name = r.choice('abXY_:_:') + gen.soup(r, list('abXY019_:.-'), 0, r.choice([0, 1, 2, 5, 20]))
    if r.random() < 0.08:
        name = r.choice(['1', '-a', '.b', 'é', '"c"', '@d', '*e', '$', 'a,b'])
    if r.random() < 0.35:
        return blank + name
    return blank + name + r.choice(['', '', '', ' ', '  ', '\t']) + '=' + \
        r.choice(['', '', '', '', ' ', '  ']) + value(r)


def tag(r):
    x = r.random()
    if x < 0.55:
        name = r.choice(NAMES)
    elif x < 0.8:
        name = cased(r, r.choice(DISALLOWED))
    elif x < 0.95:
        name = cased(r, r.choice(DISALLOWED)) + r.choice(['s', '1', '-', '-x', 'X', '_'])
    else:
        name = r.choice(['1a', '-b', 'é', '', '_c', 'a.b', 'a:b', 'a_b'])
    end = r.choice(['', '', '', '', ' ', '  ', '\t', ' \t'])
    if r.random() < 0.3:
        return '</' + name + end + r.choice(['>', '>', '>', '>', '/>', ' x>', ''])
    attrs = ''.join(attribute(r) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3, 6])))
    return '<' + name + attrs + end + r.choice(['>', '>', '>', '>', '/>', '/>', '//>', '/ >', ''])


def html(r):
    x = r.random()
    if x < 0.55:
        return tag(r)
    bits = ['a', ' ', '-', '--', '>', '?', ']', ']]', '*', '_', '<', '<b>', '</b>', '<!--', '-->', '<?',
            '?>', '!', '[', 'é', '<!X y>', '->', '"', '??', ']]]']
    body = gen.soup(r, bits, 0, r.choice([1, 2, 3, 4, 8]))
    if x < 0.7:
        return '<!--' + body + r.choice(['-->', '-->', '-->', '->', '--!>', ' -->', '-'])
    if x < 0.8:
        return '<?' + body + r.choice(['?>', '?>', '?>', '>', '??>', '?'])
    if x < 0.9:
        return '<!' + r.choice(['X', 'DOCTYPE', 'A1', 'x', 'Xy', '', 'XY', 'É']) + \
            r.choice([' ', ' ', '\t', '', '\x0c']) + body + r.choice(['>', '>', ''])
    return r.choice(['<![CDATA[', '<![CDATA[', '<![cdata[', '<![CDATA', '<[CDATA[']) + body + \
        r.choice([']]>', ']]>', ']]>', ']>', ']]', ']]]>'])


def uri(r):
    scheme = r.choice('aHz') + gen.soup(r, list('abX09+.-'), 0, 0)
    scheme += ''.join(r.choice('abX09+.-') for _ in range(size(r, 0.5) - 1))
    if r.random() < 0.1:
        scheme = r.choice(['1a', '+b', 'é', 'a_b', '', 'a'])
    body = gen.soup(r, ['a', '/', '*', '_', '**', '?', '%20', '\\', 'é', '#', '"', '[', '('], 0, 6)
    if r.random() < 0.1:
        body += r.choice([' ', '<', '\t', '\x7f', '\x01', '\u00a0']) + 'a'
    return '<' + scheme + ':' + body + r.choice(['>', '>', '>', '>', ''])


def mail(r):
    local = gen.soup(r, ['a', 'B', '1', '.', '!', '#', '$', '%', '&', "'", '*', '+', '/', '=', '?', '^',
                         '_', '`', '{', '|', '}', '~', '-', '**', '__'], 1, r.choice([1, 3, 8, 70]))
    if r.random() < 0.08:
        local += r.choice([' ', '"', '(', 'é', ',', '\\', '@', ':', ';', '['])

    def label():
        n = size(r, 0.7)
        s = letters(r, n)
        if n > 2 and r.random() < 0.4:
            k = r.randint(1, n - 2)
            s = s[:k] + '-' + s[k + 1:]
        if r.random() < 0.06:
            s = r.choice(['-' + s, s + '-', '', s + '_', '--', s + 'é', '-'])
        return s

    return '<' + local + '@' + '.'.join(label() for _ in range(r.choice([1, 2, 2, 2, 3, 4]))) + \
        r.choice(['>', '>', '>', '>', '', ' >', '.>'])


def code(r):
    n = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 15, 16, 17, 33, 79, 80, 81, 82])
    m = n if r.random() < 0.85 else n + r.choice([-1, 1])
    inside = ['a', '*', '_', ' ', '**', '\\', '<b>', '[', ']', '`' * max(1, n - 1), '`' * (n + 1), '\\`']
    return '`' * n + gen.soup(r, inside, 0, 5) + '`' * m


def destination(r):
    if r.random() < 0.3:
        return '<' + gen.soup(r, ['a', ' ', '*', '_', '(', ')', '\\>', '\\<', '\\', 'é', '"'], 0, 5) + \
            r.choice(['>', '>', '>', '>', '', '<>'])
    if r.random() < 0.2:
        n = r.choice([1, 2, 3, 4, 8, 16, 30, 31, 32, 33, 40])
        return '(' * n + 'a*b' + ')' * (n if r.random() < 0.9 else n + r.choice([-1, 1]))
    return gen.soup(r, ['a', '/', '*', '_', '\\(', '\\)', '()', '(b)', '(*(', '))', '\\', '#', 'é', '<',
                        '%20', '[', ']', '&', '\x7f', '\x01'], 0, 6)


def title(r):
    q = r.choice(['""', "''", '()'])
    body = gen.soup(r, ['a', ' ', '*', '_', '\\' + q[0], '\\' + q[1], '\\\\', '\\', 'é', ')', '"', "'", '('],
                    0, 5)
    if r.random() < 0.7:
        body = body.replace(q[0], '').replace(q[1], '')
    return q[0] + body + r.choice([q[1], q[1], q[1], ''])


def link(r, depth):
    s = r.choice(['[', '[', '[', '![']) + inline(r, depth - 1) + ']'
    if r.random() < 0.15:
        return s + r.choice(['', '[]', '[a]', ' (a)', '(', '()'])
    s += '(' + r.choice(['', '', ' ', '\t']) + destination(r)
    if r.random() < 0.4:
        s += r.choice([' ', ' ', '  ', '\t', '', '\u00a0']) + title(r)
    return s + r.choice(['', '', ' ', '\t']) + r.choice([')', ')', ')', ')', ')', '', 'x)'])


def piece(r, depth):
    x = r.random()
    if x < 0.3 and depth > 0:
        m = marks(r)
        e = m[::-1] if r.random() < 0.85 else marks(r)
        return m + inline(r, depth - 1) + e
    if x < 0.4 and depth > 0:
        return link(r, depth)
    if x < 0.47:
        return code(r)
    if x < 0.54:
        return uri(r)
    if x < 0.6:
        return mail(r)
    if x < 0.68:
        return html(r)
    if x < 0.74:
        return odd(r)
    if x < 0.78:
        return '\\' + r.choice('*_`\\<[]()!a é"')
    if x < 0.81:
        return r.choice(['&amp;', '&#42;', '&#x2a;', '&lowast;', '&copy;', '&', '&#', '&;', '&a;'])
    if x < 0.86:
        return marks(r) * r.choice([1, 1, 1, 2, 3])
    if x < 0.93:
        return r.choice([' ', ' ', ' ', '.', '(', ')', '-', '!', '\t', '"'])
    return r.choice(['a', 'bc', 'D', '1', 'é', '日本'])


def inline(r, depth=3):
    return ''.join(piece(r, depth) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))


def spoil(r, s):
    """A small mistake."""
    if not s:
        return s
    k = r.randrange(len(s))
    x = r.random()
    if x < 0.35:
        return s[:k] + s[k + 1:]
    if x < 0.7:
        return s[:k] + r.choice(list('*_`\\<>[]()!"\'-?/= a.') + [odd(r)]) + s[k:]
    if x < 0.85:
        return s[:k] + s[k] + s[k:]
    j = r.randrange(len(s))
    a, b = min(j, k), max(j, k)
    return s[:a] + s[b:] + s[a:b]


def _clean(s):
    return ''.join(c for c in s if c not in '\r\u0130\u03a3')


def emphasis(r):
    """Marks around and inside the constructs."""
    m = marks(r) if r.random() < 0.6 else ''
    s = m + inline(r, r.choice([1, 2, 2, 3])) + (m[::-1] if r.random() < 0.8 else '')
    if r.random() < 0.3:
        s = spoil(r, s)
    return _clean(s.replace('\n', ' '))[:400]


def raw(r, breaks=True):
    s = ''.join(r.choice([html(r), html(r), html(r), r.choice(['a', ' ', '<', '>', 'é', 'p q'])])
                for _ in range(r.choice([1, 1, 2, 2, 3, 5])))
    if r.random() < 0.35:
        s = spoil(r, s)
    return _clean(s if breaks else s.replace('\n', ' '))[:400]


def long(r, f, most=900):
    """A long text: many pieces, or one construct around a long body."""
    x = r.random()
    n = r.choice([150, 257, 300, 520, most])
    if x < 0.5:
        s = ''
        while len(s) < n:
            s += f(r) + r.choice([' ', ' ', '', 'a'])
        return s[:n]
    if x < 0.65:
        c, k = r.choice('``*_'), r.choice([100, 127, 128, 129, 255, 256, 257, 300, 420])
        return _clean('p ' + f(r) + ' ' + c * k + r.choice(['*a* _b_', '*a', 'a', 'a ` b']) +
                      c * (k if r.random() < 0.8 else k + r.choice([-1, 1])) + ' ' + f(r))
    body = gen.soup(r, ['word ', 'x', '-', 'é', ' ', 'ab'], 40, 60) * 8
    body = body[:n]
    a, b = r.choice([('<!--', ' -->'), ('<?', '?>'), ('<!X ', '>'), ('<![CDATA[', ']]>'), ('<a b="', '">'),
                     ("<a b='", "'>"), ('<a b=', '>'), ('*', '*'), ('__', '__'), ('`', '`'),
                     ('<h:', '>'), ('[', '](a)'), ('[a](', ')'), ('[a](b "', '")'), ('<', '>'),
                     ('[*a](<', '>)*'), ('```', '```')])
    if a in ('<a b=', '<h:', '[a](', '<'):
        body = body.replace(' ', '')
    return _clean('p ' + f(r) + a + body + b + f(r) + ' q')
