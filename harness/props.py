"""What each property's check runs: a list of (stage name, function)."""

import docs
import gen
import grammar
import impl
import texts
from docs import opt

LEVEL = 'model_checking'
ASSUMPTIONS = {
    '*': [
        'TLC explores the model exhaustively within the bounds shown in coverage.parts; '
        'beyond them random traces are validated',
        'the characters of the generated texts are those of the classes of spec/Text.tla',
    ],
}

FAMS = ['gfm', 'cm', 'gl', 'rc']
REGISTRY = {}


def prop(name):
    def register(f):
        REGISTRY[name] = f
        return f
    return register


def stages(name, quick):
    return REGISTRY[name](quick)


def explore(conf, clauses, keep=None):
    return lambda check, name: docs.explore(check, name, conf, set(clauses), keep=keep)


def sample(count, clauses, **kw):
    return lambda check, name: docs.validate(
        check, name, docs.random_jobs(check, name, count, **kw), set(clauses))


def special(jobs, clauses):
    """Traces of given documents: jobs is a function of a random source."""
    return lambda check, name: docs.validate(
        check, name, list(jobs(gen.rng(check.seed, check.prop, name, check.tier))), set(clauses))


def lines(conf, clauses):
    return lambda check, name: texts.explore(check, name, conf, set(clauses))


def words(make, count, clauses):
    """Traces of calls on texts: make(r) gives (function, parser, text)."""
    def stage(check, name):
        r = gen.rng(check.seed, check.prop, name, check.tier)
        texts.validate(check, name, [make(r) for _ in range(count)], set(clauses))
    return stage


def each(fams=FAMS, **kw):
    return [opt(f, **kw) for f in fams]


# ---- C01 ---------------------------------------------------------------------
@prop('C01')
def c01(quick):
    want = {'count', 'label', 'malformed'}
    n = 1 if quick else 8
    return [
        ('levels', explore(dict(
            lines=['# a', '## b', '### c', '#### d', '##### e', '###### f', '####### g', 'h'],
            opts=[o for k in (1, 2, 3, 5, 6, 9) for o in each(keep=k, indent=False)] +
            each(coherent=False, keep=4),
            depth=3 if quick else 5), want)),
        ('mixed', explore(dict(
            lines=['# a', '## b', '### c', '```', '~~~~', '', '    # i', '#j', '# ', '## #'],
            opts=each(links=False, coherent=False) + each(keep=2, links=False, indent=False) +
            each(coherent=False, skip=1, keep=2),
            depth=4 if quick else 5), want)),
        ('blocks', explore(dict(
            lines=['# a', '## b', '---', '===', '=====', '+++', '<!--', '-->', '<pre>', '</pre>', '> # c',
                   '- # d', '    # e', '    text', '$$', ':::', '"""', '[//]: # (f)', 'Setext', '1. x',
                   '\t', '<!--TOC-->'],
            opts=each(coherent=False, links=False), depth=3 if quick else 4), want)),
        ('random', sample(4000 * n, want, opts=lambda r: dict(
            coherent=r.random() < 0.2, links=r.random() < 0.5))),
        ('long lines', special(lambda r: wide_lines(r, 120 * n), want)),
        ('clean', sample(1500 * n, want, clean=True, rich=0.2, fences=0.05)),
        ('long', special(lambda r: long_documents(r, 20 * n), want)),
        ('thousands', lambda check, name: docs.thousands(
            check, name, [1030, 2100, 4100, 5001, 9000, 17000] if quick else
            [1030, 2100, 4100, 5001, 8200, 17000, 33000, 70000] * 2)),
    ]


def wide_lines(r, count):
    """Lines longer than any buffer, with hashes where a buffer would end."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        doc = ['# first'] if r.random() < 0.5 else []
        for _ in range(r.randint(1, 3)):
            size = r.choice([80, 255, 256, 512, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 9999,
                             65535, 65536]) + r.choice([0, 0, 0, -1, 1])
            start = r.choice(['x', 'x', ' ', '-', 'é', '#x', '```x', '> '])
            line = (start + 'y' * size)[:size]
            if r.random() < 0.2 and size < 2000:
                line = r.choice(['# ', '## ']) + line
            doc.append(line + r.choice(['# b', '## c', '```', ' # d', '']))
            doc.append('#' * r.randint(1, 3) + ' ' + r.choice(['e', 'f', 'word ' * r.choice([1, 50])]).strip())
        yield doc, opt(impl.FAMILY[parser], links=False, coherent=False,
                       keep=r.choice([1, 3, 6])), parser


def long_documents(r, count, most=600, vocab=None, **options):
    """Long documents, for counters with several digits."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        size = r.choice([12, 30, 110, 130, 260, most])
        doc = gen.document(r, size=size, rich=0.2, wild=0, fences=0.01, clean=True,
                           vocab=vocab)
        o = gen.options(r, impl.FAMILY[parser])
        o.update(coherent=False)
        o.update(options)
        yield doc, o, parser


# ---- C02 ---------------------------------------------------------------------
@prop('C02')
def c02(quick):
    want = {'level', 'text'}
    n = 1 if quick else 8

    def line(r):
        kind = r.random()
        if kind < 0.5:
            s = gen.heading(r, r.randint(1, 7), 0.6)
        elif kind < 0.8:
            s = gen.soup(r, ['#', '#', ' ', ' ', '\t', 'a', 'B', '\\', '\x0b', '\u00a0', '.', '[',
                             'é', '\x0c'], 0, 12)
        else:
            s = ' ' * r.randint(0, 5) + '#' * r.randint(0, 8) + r.choice(
                ['', ' ', '\t', '  ', ' \t', 'x']) + gen.soup(r, ['#', ' ', 'a', '\t', '\\'], 0, 8)
        return 'heading', r.choice(impl.ALL_PARSERS), s

    return [
        ('lines', lines(dict(
            function='heading', fams=FAMS,
            prefixes=[' ' * i + '#' * h for i in range(5) for h in (0, 1, 2, 5, 6, 7)],
            tokens=[' ', '\t', '#', 'a', '\\', '\u00a0'], suffixes=['', ' #', '# '],
            depth=3 if quick else 5), want)),
        ('starts', lines(dict(
            function='heading', fams=FAMS, tokens=['#', ' ', '\t', 'a', '.'],
            depth=6 if quick else 8), want)),
        ('odd', lines(dict(
            function='heading', fams=FAMS, prefixes=['', '#', '# ', '# a', '# a ', '# a #', '  '],
            tokens=gen.BLANKLIKE, suffixes=['', 'b', '# b', ' #', '#'], depth=1), want)),
        ('random', words(line, 6000 * n, want)),
        ('multiline', lambda check, name: texts.multiline(check, name, 1500 * n)),
        ('documents', sample(2000 * n, {'count', 'label'}, opts=lambda r: dict(
            coherent=False, links=False, keep=6, skip=0), fences=0)),
        ('long lines', special(lambda r: wide_lines(r, 60 * n), {'count', 'label'})),
        ('strings', lambda check, name: docs.headers(check, name, 1200 * n, {'count', 'label'}, False)),
    ]


# ---- C03 ---------------------------------------------------------------------
@prop('C03')
def c03(quick):
    want = {'count', 'label', 'malformed', 'status'}
    n = 1 if quick else 8
    fams = ['gfm', 'cm', 'gl', 'rc']
    plain = dict(links=False, indent=False)
    return [
        ('fences', explore(dict(
            lines=['```', '````', '~~~', '~~~~', '``` a', '~~~ `', '```` `', '   ```', '    ```',
                   '``` ', '~~~\t', '``', '# x'],
            opts=each(fams, **plain), probe='# p', depth=3 if quick else 4), want)),
        ('blanks', explore(dict(
            lines=['```', ' ```', '  ~~~', '~~~ ~', '``` ~', '\t```', '> ```', '```\t', '~~~  ',
                   '`` `', '     ~~~', '# y', ''],
            opts=each(fams, **plain), probe='## q', depth=3 if quick else 4), want)),
        ('ends', explore(dict(
            lines=['```', '~~~', '# z', '## z'], opts=each(fams, **plain) + each(fams, skip=1),
            depth=5 if quick else 7), want)),
        ('random', sample(4000 * n, want, fences=0.4, proses=0.1, clean=True, rich=0,
                          opts=lambda r: dict(coherent=False))),
        ('long fences', special(lambda r: fence_documents(r, 1500 * n), want)),
        ('opening', words(lambda r: ('opens', r.choice(impl.ALL_PARSERS), gen.fence_line(r)),
                          4000 * n, {'opens'})),
        ('closing', words(closing_call, 4000 * n, {'closes'})),
    ]


def closing_call(r):
    fence = r.choice('`~') * r.choice([3, 3, 3, 4, 5, 9, 40])
    line = gen.fence_line(r)
    if r.random() < 0.6:
        line = ' ' * r.choice([0, 0, 0, 1, 2, 3, 4]) + \
            fence[0] * (len(fence) + r.choice([-1, 0, 0, 0, 1, 5, 30, 100])) + \
            r.choice(['', '', '', ' ', '\t', '  ', ' \t', 'x', ' x', '`', '~', '\x0b', '\u00a0']) + \
            r.choice(['', '\n'])
    return 'closes', r.choice(impl.ALL_PARSERS), (line, fence, r.random() < 0.15)


def fence_documents(r, count):
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        doc = []
        for j in range(r.randint(1, 7)):
            c = r.choice('`~')
            size = r.choice([3, 3, 4, 5, 7, 8, 10, 16, 33, 80, 99, 100, 101, 128, 256, 300])
            other = r.choice([size, size, size - 1, size + 1, size + 5, 3, 2 * size, 30, 100])
            doc.append(' ' * r.randint(0, 4) + c * size +
                       (gen.info(r) if r.random() < 0.85 else gen.soup(
                           r, ['x', ' ', 'word', '{', '#', '\t', '"', '~', 'é'], 30, 200)))
            doc += ['# in%d' % j] * r.randint(0, 2)
            if r.random() < 0.8:
                doc.append(' ' * r.randint(0, 4) + r.choice([c, c, c, '`', '~']) * other +
                           r.choice(['', '', '', ' ', '\t', '  ', 'x', ' #', '~', '`', '\x0c']))
            doc += ['# out%d' % j] * r.randint(0, 2)
        yield doc, opt(impl.FAMILY[parser], links=False, indent=r.random() < 0.5,
                       skip=r.choice([0, 0, 0, 1, 2])), parser


# ---- C04 ---------------------------------------------------------------------
def label_lines(r):
    s = gen.soup(r, ['[', ']', '\\', 'a', ' ', '\\\\', '[x]', '](', '\t', '\x0b', '\x0c', 'é', '#',
                     '(', ')'], 0, 9)
    return '#' * r.randint(1, 6) + ' ' + s


def edge_documents(r, count):
    """Labels whose length is close to the limit."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        size = r.choice([990, 997, 998, 999, 1000, 1001, 1200])
        unit = r.choice(['a', 'é', '日', 'a]', '[', '\\', '\\[', 'b c '])
        t = (unit * size)[:size].strip()
        if r.random() < 0.5:
            size = r.choice([998, 999, 999, 999, 1000, 1000, 1001])
            t = gen.soup(r, ['[', ']', '[x]', '\\[', '<b>', '*a*', '`c`', '&amp;', 'é', ' ', '\t', '(', 'x',
                             '![y](z)', '_', '\\', '#', '-', '😀', 'e\u0301'], 1, 12).strip()
        t = t + 'x' * (size - len(t))
        if r.random() < 0.3:
            t = t[:-1] + r.choice(['[', ']', '#', 'é', '>', '*'])
        if r.random() < 0.3:
            t = t[:-1] + '\\'
        level = r.choice([1, 2, 3, 4, 6])
        if r.random() < 0.1:
            t = gen.soup(r, [' ', ' ', '\t', '\x0b', '\x0c'], 1, 4) * r.choice([1, 60, 250, 500])
        doc = ['# a'] * r.randint(0, 2) + ['#' * level + ' ' + t + r.choice(['', ' #', '  '])]
        doc += ['# b'] * r.randint(0, 1)
        if r.random() < 0.2:
            doc = ['```'] + doc + r.choice([[], ['```']])
        o = opt(impl.FAMILY[parser], links=r.random() < 0.75, coherent=False,
                keep=r.choice([1, 3, 6]), skip=r.choice([0, 0, 0, 1, 2]))
        yield doc, o, parser


@prop('C04')
def c04(quick):
    n = 1 if quick else 8
    want = {'label', 'status', 'malformed'}
    toks = ['[', ']', '\\', 'a', ' ']

    def label(r):
        return 'heading', r.choice(impl.ALL_PARSERS), label_lines(r)

    return [
        ('labels', lines(dict(function='heading', fams=FAMS, prefixes=['# '],
                              tokens=toks + ['\t'], depth=5 if quick else 7), want)),
        ('odd', lines(dict(
            function='heading', fams=FAMS, prefixes=['# ', '# a\\', '# [', '# \\'],
            tokens=gen.BLANKLIKE, suffixes=['', '\\', ']', '\\ #'], depth=1), want)),
        ('rejections', explore(dict(
            lines=['# a', '## ', '# \\', '#', '### #', '# [', '## \t', '# ]b', '```',
                   '# \x0b'],
            opts=each(coherent=False) + each(coherent=False, keep=1) +
            each(coherent=False, links=False) + each(indent=False, skip=1),
            depth=3 if quick else 4), want)),
        ('random labels', words(label, 5000 * n, want)),
        ('edges', special(lambda r: edge_documents(r, 400 * n), {'label', 'status', 'malformed'})),
        ('random', sample(2500 * n, want, rich=0.7, opts=lambda r: dict(coherent=False))),
    ]


# ---- C05 ---------------------------------------------------------------------
def slug_text(r):
    kind = r.random()
    if kind < 0.45:
        s = gen.heading_text(r, 0.6)
    elif kind < 0.75:
        s = gen.soup(r, gen.WORDS + gen.PUNCT + gen.ODD + [' ', ' ', '-', '--', ' - '], 0, 8)
    elif kind < 0.9:
        s = gen.soup(r, ['A', 'b', ' ', '-', '_', '*', '.', '&', ';', '<', '>', 'É', '0', '\t'], 0, 14)
    else:
        s = gen.soup(r, gen.INLINE + [' ', 'x'], 1, 5)
    return s


@prop('C05')
def c05(quick):
    n = 1 if quick else 8

    def slug(r):
        return 'slug', r.choice(impl.ALL_PARSERS), slug_text(r)

    want = {'slug'}
    ascii_ = [chr(c) for c in range(32, 127)]
    other = [chr(c) for c in list(range(160, 256)) + [0x100, 0x101, 0x391, 0x3b1, 0x410, 0x430,
             0x401, 0x2003, 0x2014, 0x2026, 0x3000, 0x3001, 0x3042, 0x4e2d, 0x660, 9, 11, 12]]
    return [
        ('pairs', lines(dict(function='slug', fams=FAMS,
                             prefixes=['', 'a', ' ', '-', 'a &b', 'a <b', 'a *b', '\\'],
                             tokens=ascii_ + other,
                             suffixes=['', 'B', '-c', ' d;e', ' d>e', '* f'], depth=1), want)),
        ('two', lines(dict(function='slug', fams=FAMS, prefixes=['a'], tokens=ascii_,
                           suffixes=['c'] if quick else ['', 'c'], depth=2), want)),
        ('texts', lines(dict(function='slug', fams=FAMS,
                             tokens=['A', 'é', ' ', '-', '_', '*', '.', '<', '>', '&', ';', '`'],
                             depth=4 if quick else 5), want)),
        ('markup', lines(dict(function='slug', fams=FAMS,
                              tokens=['<b>', '</b>', '*', '**', 'Aa', ' ', '--', '&amp;', '_', '\\'],
                              depth=4 if quick else 5), want)),
        ('sigmas', lines(dict(function='slug', fams=FAMS[:1] if quick else FAMS,
                              tokens=['\u03a3', '\u0391', 'b', '.', ' ', '-', '\u0130', '\u00ad', '1'],
                              depth=4 if quick else 5), want)),
        ('random', words(slug, 6000 * n, want)),
        ('grammar', words(lambda r: ('slug', r.choice(impl.ALL_PARSERS),
                                     grammar.emphasis(r) if r.random() < 0.6 else
                                     grammar.raw(r, False)),
                          4000 * n, want)),
        ('long', words(lambda r: ('slug', r.choice(impl.ALL_PARSERS), grammar.long(
            r, slug_text if r.random() < 0.5 else grammar.emphasis).replace('\n', ' ')),
            200 * n, want)),
        ('unicode', texts.unicode_slugs),
        ('headings', lambda check, name: texts.heading_slugs(check, name, 2000 * n, slug_text)),
    ]


# ---- C06 ---------------------------------------------------------------------
@prop('C06')
def c06(quick):
    n = 1 if quick else 8
    want = {'anchor'}
    vocab = ['a', 'A', 'a-1', 'a 1', 'a-1-1', '*a*', 'b', 'a.', 'a-2', '<i>a</i>', 'a b', 'a  b', 'a & b', 'a - b']
    return [
        ('duplicates', explore(dict(
            lines=['# a', '## A', '# a-1', '### a', '# a-1-1', '```', '# b'],
            opts=[o for k in (1, 2, 6) for o in each(keep=k, coherent=False)] +
            each(skip=1, indent=False),
            depth=4 if quick else 6), want)),
        ('random', sample(4000 * n, want, vocab=vocab, opts=lambda r: dict(
            links=True, coherent=False))),
        ('many', special(lambda r: long_documents(r, 24 * n, most=400 if quick else 1500,
                                                  vocab=vocab[:4], links=True), want)),
        ('distinct', special(lambda r: distinct_documents(r, 24 * n), want)),
        ('crowd', lambda check, name: docs.crowds(check, name, 2 if quick else 12,
                                                  4000 if quick else 30000)),
        ('rich', sample(1500 * n, want, rich=0.5, opts=lambda r: dict(
            links=True, coherent=False))),
        ('strings', lambda check, name: docs.headers(check, name, 1200 * n, want, True, vocab=vocab)),
        ('fresh', lambda check, name: docs.fresh_counters(check, name, 300 * n, vocab)),
    ]


def distinct_documents(r, count):
    """Documents with many different anchors which are close to each other."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 5]
        kind = r.randrange(5)
        size = r.choice([40, 150, 300])
        if kind == 0:
            pool = [gen.soup(r, 'abc', 1, 4) for _ in range(size)]
        elif kind == 1:
            stem = gen.soup(r, 'xyz', 1, 1) * r.choice([7, 15, 31, 40, 63, 70])
            pool = [stem + gen.soup(r, 'ab1-', 1, 3) for _ in range(size)]
        elif kind == 3:
            pool = [gen.soup(r, ['2', '\u00b2', '\u2082', 'fi', '\ufb01', 'e', '\u00e9', 'e\u0301', '\u212b', '\u00e5',
                                 'ss', '\u00df', 'i', '\u0131', 'I', '\u212a', 'k', '\u017f', 's', '\uff41',
                                 'a', '\u0430', '\u0661', '1', '\u2167', '\u03c3', '\u03c2', '-', ' '], 1, 2)
                    .strip() or 'a' for _ in range(size)]
        elif kind == 2:
            pool = [gen.soup(r, ['a', 'b', '-', '_', ' ', '1', 'é', 'e'], 1, 5).strip() + 'x'
                    for _ in range(size)]
        else:
            pool = ['h%d' % r.randint(0, 10 ** 6) for _ in range(size)]
        doc = ['#' * r.randint(1, 2) + ' ' + r.choice(pool) for _ in range(size)]
        o = gen.options(r, impl.FAMILY[parser])
        o.update(coherent=False, links=True, keep=r.choice([1, 2, 6]))
        yield doc, o, parser


# ---- C07 ---------------------------------------------------------------------
NESTED = ['# a', '## b', '### c', '#### d', '##### e', '###### f']


@prop('C07')
def c07(quick):
    n = 1 if quick else 8
    want = {'indent', 'malformed'}
    return [
        ('levels', explore(dict(
            lines=NESTED, depth=6 if quick else 7,
            opts=[opt('cm', links=False), opt('gfm', links=False, ordered=True, mark='.'),
                  opt('rc', links=False)]), want)),
        ('options', explore(dict(
            lines=NESTED[:3], depth=5 if quick else 7,
            opts=each(links=False, ordered=True, mark=')') + each(links=False, const=True) +
            each(links=False, indent=False) + each(links=False, indent=False, ordered=True) +
            each(links=False, mark='*')), want)),
        ('random', sample(3000 * n, want, wild=0, clean=True, rich=0.1, opts=lambda r: dict(
            keep=r.choice([2, 3, 6, 6])))),
        ('deep', special(lambda r: deep_documents(
            r, 900 * n, each(ordered=True, mark=')') + each(const=True) + each(mark='*') + each(mark='+') +
            each(ordered=True, mark='.') + each(indent=False, ordered=True)), want)),
        ('wide numbers', special(lambda r: wide_documents(r, 60 * n), want)),
        ('crowd', lambda check, name: docs.siblings(check, name, 6 * n, 'inner')),
    ]


def wide_documents(r, count):
    """Ordered lists whose numbers have two to four digits, with sublists."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        doc = []
        for target in r.sample([3, 9, 10, 11, 98, 99, 100, 101, 102], 3) + \
                ([998, 1003] if k % 15 == 0 else []):
            level = r.randint(1, 3)
            for l in range(1, level):
                doc.append('#' * l + ' p')
            for j in range(target):
                doc.append('#' * level + ' a')
                if r.random() < 0.1 or j in (8, 9, 10, 98, 99, 100):
                    for l in range(level + 1, level + 1 + r.randint(0, 6 - level)):
                        doc.append('#' * l + ' s')
        if len(doc) > 1400:
            doc = doc[-1400:]
        doc = ['# first'] + doc if doc[0] != '# p' else doc
        fam = impl.FAMILY[parser]
        ordered = r.random() < 0.9
        yield doc, opt(fam, links=False, ordered=ordered, mark=r.choice('.)-') if ordered else '-',
                       keep=r.choice([3, 4, 6]), coherent=r.random() < 0.9,
                       const=r.random() < 0.1), parser


def deep_documents(r, count, opts):
    """Lists of all the levels."""
    for k in range(count):
        o = dict(opts[k % len(opts)])
        parser = r.choice([p for p in impl.ALL_PARSERS if impl.FAMILY[p] == o['fam']])
        l, doc = r.choice([1, 1, 1, 2]), []
        for _ in range(r.randint(6, 18)):
            doc.append('#' * l + ' ' + r.choice('abc'))
            l = min(6, l + 1) if r.random() < 0.6 else r.randint(len(doc[0].split()[0]), l)
        o.update(keep=r.choice([6, 6, 6, 5, 9]), links=r.random() < 0.3)
        yield doc, o, parser


# ---- C08 ---------------------------------------------------------------------
@prop('C08')
def c08(quick):
    n = 1 if quick else 8
    want = {'marker', 'malformed'}
    marks = []
    for f in FAMS:
        for m in '.)-':
            marks.append(opt(f, links=False, ordered=True, mark=m))
        for m in '-+*':
            marks.append(opt(f, links=False, mark=m))
        for m in '.)-+*':
            marks.append(opt(f, links=False, const=True, ordered=m == '.', mark=m))
            if m != '-':
                marks.append(opt(f, links=False, ordered=True, indent=False, mark=m))
    return [
        ('numbers', explore(dict(
            lines=NESTED, depth=6 if quick else 7,
            opts=[opt('cm', links=False, ordered=True, mark='.'),
                  opt('rc', links=False, ordered=True, mark=')')]), want)),
        ('markers', explore(dict(lines=NESTED[:3], depth=3 if quick else 5, opts=marks), want)),
        ('random', sample(3000 * n, want, wild=0, clean=True, rich=0.1, opts=lambda r: dict(
            coherent=True))),
        ('deep', special(lambda r: deep_documents(r, 900 * n, marks), want)),
        ('wide numbers', special(lambda r: wide_documents(r, 60 * n), want)),
        ('crowd', lambda check, name: docs.siblings(check, name, 6 * n, 'outer')),
        ('limit', lambda check, name: texts.number_limit(check, name, 2520)),
    ]


# ---- C09 ---------------------------------------------------------------------
@prop('C09')
def c09(quick):
    n = 1 if quick else 8
    want = {'status'}

    def levels(r):
        for k in range(2000 * n):
            parser = impl.ALL_PARSERS[k % 6]
            walk = gen.levels_walk(r, r.randint(1, 14), wild=r.choice([0, 0.03, 0.1]))
            often = r.choice([0.1, 0.1, 0.5, 0.9])
            doc = []
            for l in walk:
                if r.random() < often:
                    doc += r.choice([['```', '###### x', '```'], ['~~~', '```', '~~~~'], ['```', '```'],
                                     ['text'], ['#######'], [''], ['# '], ['> # b'], ['- ## b']][
                                         :9 if k % 3 else 5])
                doc.append('#' * l + ' a')
            yield doc, opt(impl.FAMILY[parser], links=r.random() < 0.5 and '# ' not in doc,
                           ordered=r.random() < 0.5, indent=r.random() < 0.8,
                           coherent=r.random() < 0.8, keep=r.choice([1, 2, 3, 4, 5, 6, 6, 6, 9]),
                           skip=r.choice([0, 0, 0, 1, 2, 3])), parser

    return [
        ('levels', explore(dict(
            lines=NESTED, depth=5 if quick else 6,
            opts=each(links=False) + each(['cm', 'rc'], links=False, keep=3)), want)),
        ('options', explore(dict(
            lines=['# a', '## a', '### a', '#### a', '```', 'x', '# '], depth=4 if quick else 5,
            opts=each(links=False, indent=False) + each(links=False, coherent=False) +
            each(links=False, skip=1) + each(links=False, keep=2, ordered=True) +
            each(links=False, indent=False, coherent=False) + each(links=False, keep=3)), want)),
        ('code', explore(dict(
            lines=['# a', '## a', '### a', '#### a', '```'], depth=5 if quick else 7,
            opts=each(['gfm'], links=False, keep=6) + each(['cm'], links=False, keep=3, ordered=True)),
            want)),
        ('walks', special(levels, want)),
        ('long', special(lambda r: late_documents(r, 48 * n), want)),
        ('random', sample(2000 * n, want, wild=0.1, clean=True, rich=0.1)),
    ]


def late_documents(r, count):
    """Long documents, some with a jump of levels near their end."""
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        n = r.choice([20, 60, 110, 130, 260, 300, 520])
        low = r.choice([1, 1, 2, 3])
        walk = [max(low, l) for l in gen.levels_walk(r, n, wild=0)]
        walk[0] = low
        for i in range(1, n):
            walk[i] = min(walk[i], walk[i - 1] + 1)
        keep = r.choice([2, 3, 6, 6, 6])
        if r.random() < 0.6:
            at = r.choice([n, n - 1, n // 2])
            walk[at:at] = r.choice([[low, low + 2], [low - 1], [low, min(6, low + 3)]])
        yield ['#' * max(l, 1) + ' a' for l in walk], opt(
            impl.FAMILY[parser], links=False, ordered=r.random() < 0.3, keep=keep,
            coherent=r.random() < 0.9), parser


def link_soup(r):
    """Emphasis around and in links."""
    return gen.soup(r, ['*', '_', '**', '[', '](', ')', ']', '![', '(', ' ', '"', "'", '\\', '<', '>',
                        'a', 'b', '[c](d)', '](<e f> "g")', "(h 'i')", '[*j*](k_l_)', '(m (n))',
                        '\\"', '\\)', '\\(', '\\!', '`', '\t', '\u00a0', 'é', '[o]', '](()())'],
                    2, 14)


# ---- C19, C20 ------------------------------------------------------------------
@prop('C19')
def c19(quick):
    n = 1 if quick else 10
    want = {'emphasis'}
    one = {'gfm': ['github', 'commonmarker'], 'cm': ['cmark', 'goldmark'], 'gl': ['gitlab']}

    def text(r):
        x = r.random()
        if x < 0.4:
            s = gen.soup(r, ['*', '*', '**', '_', '_', '__', '***', 'a', 'b', ' ', '.', '(', 'é',
                             '\u00a0', '“', '`', '\\', '\t'], 0, 16)
        elif x < 0.7:
            s = gen.soup(r, ['*', '_', '**', '__', 'a', ' ', '`', '``', '\\', '<', '>', '<b>', '[',
                             ']', '<http://a_b*c>', '<a@b.c>', '!', '<!--', '-->', '<?', '?>',
                             '<a b="*">', '_c_', '*d*'], 0, 12)
        elif x < 0.8:
            s = gen.heading_text(r, 0.8)
        elif x < 0.9:
            s = link_soup(r)
        else:
            s = gen.soup(r, ['*' * k for k in range(1, 8)] + ['_' * k for k in range(1, 6)] +
                         ['a', ' ', '-'], 2, 14)
        return 'emphasis', r.choice(impl.ALL_PARSERS[:5]), s

    return [
        ('runs', lines(dict(function='emphasis', tokens=list('*_a .'), fams=['cm'], parsers=one,
                            depth=6 if quick else 8), want)),
        ('stars', lines(dict(function='emphasis', tokens=['*', '**', '***', 'a', ' ', '.'],
                             fams=['gfm'], parsers=one, depth=5 if quick else 7), want)),
        ('protected', lines(dict(function='emphasis',
                                 tokens=['*', '_', 'a', '`', '\\', '<', '>', '``', '[', ']'],
                                 fams=['gl'], parsers=one, depth=4 if quick else 6), want)),
        ('inlines', lines(dict(function='emphasis',
                               tokens=['*a', '*', 'b_', '_', '<b>', '<!--', '-->', '<?', '?>', ' ',
                                       '<h:', '>', '<![CDATA[', ']]>', '<!X ', '"'],
                               fams=['cm'], parsers=one, depth=4 if quick else 5), want)),
        ('links', lines(dict(function='emphasis', prefixes=['*a [b*](', '![*', '_[x](y'],
                             tokens=['*', '_', ' ', '(', ')', '](', '"', "'", '\\', '<', '>', '[', ']',
                                     'c'],
                             suffixes=[')*', ') d*_', '"))*'], fams=['cm'], parsers=one,
                             depth=3 if quick else 4), want)),
        ('brackets', lines(dict(function='emphasis',
                                tokens=['*', '_', '[', '![', ']', '](a)', '](', ')', 'b', '`'],
                                fams=['gfm'], parsers=one, depth=4 if quick else 6), want)),
        ('characters', lines(dict(function='emphasis', prefixes=['*', '_', 'a*', 'a_', '**'],
                                  tokens=[chr(c) for c in list(range(32, 127)) +
                                          list(range(160, 256)) + [
                                              0x100, 0x17f, 0x2003, 0x2014, 0x201c, 0x3000, 0x3001,
                                              0x4e2d, 0x3b1, 0x430, 9, 12]],
                                  suffixes=['*', '_', 'a*', '*a', '_a', ' *', 'a**', '*_'],
                                  fams=['cm'], parsers={'cm': ['github', 'cmark']}, depth=1), want)),
        ('random', words(text, 6000 * n, want)),
        ('grammar', words(lambda r: ('emphasis', r.choice(impl.ALL_PARSERS[:5]),
                                     grammar.emphasis(r)), 12000 * n, want)),
        ('long', words(lambda r: ('emphasis', r.choice(impl.ALL_PARSERS[:5]),
                                  grammar.long(r, grammar.emphasis)), 250 * n, want)),
        ('unicode', texts.unicode_flanks),
    ]


@prop('C20')
def c20(quick):
    n = 1 if quick else 10
    want = {'html'}
    pieces = ['<', '>', '</', '/>', 'a', 'B', ' ', '\t', '=', '"', "'", 'x="y"', "x='y'", 'x=y', '!',
              '<!--', '-->', '--', '-', '<?', '?>', '?', '<!', 'DOC', 'doc', '<![CDATA[', ']]>', ']',
              '`', '_', ':', '.', '0', 'title', 'script', 'Style', 'é', '\x0b', '\\', '/', '<b>',
              '</b>', '<br/>', '<a href="#">', '\u00a0', '<http://x.y>', '<a@b.c>']

    def text(r):
        x = r.random()
        if x < 0.5:
            s = gen.soup(r, pieces, 1, 12)
        elif x < 0.8:
            tag = r.choice(['a', 'b1', 'x-y', 'title', 'TITLE', 'textarea', 'style', 'xmp', 'iframe',
                            'noembed', 'noframes', 'script', 'plaintext', 'titles', 'script-x', '1a',
                            'H1', 'scripts', 'sTyLe'])
            attrs = ''.join(r.choice([' ', '  ', '\t', '']) +
                            r.choice(['a', '_b', ':c', 'd.e', 'f-g', '1', 'é', 'h']) +
                            r.choice(['', '', '=', ' = ', '= ', ' =']) +
                            r.choice(['', '"v"', "'v'", 'v', '"<>"', "'\"'", '"', 'v`', '/'])
                            for _ in range(r.randint(0, 3)))
            s = r.choice(['p', '', ' ']) + r.choice(['<', '</', '< ']) + tag + attrs + \
                r.choice(['', ' ', '\t', '  ']) + r.choice(['>', '/>', '', '>>', '/ >']) + 'q'
        else:
            s = r.choice(['<!--', '<?', '<!', '<![CDATA[', '<!-']) + \
                gen.soup(r, ['a', '-', '>', '?', ']', ' ', 'X', '<', '--', ']]', '!', 'é'], 0, 7) + \
                r.choice(['-->', '?>', '>', ']]>', '', '->'])
            s = r.choice(['', 'p ']) + s + r.choice(['', ' q', '>', '-->'])
        return 'html', r.choice(impl.ALL_PARSERS), s

    both = ['gfm', 'cm', 'gl', 'rc']
    return [
        ('tags', lines(dict(function='html', fams=both, prefixes=['', '<a', 'p<b '],
                            tokens=['<', '>', '/', 'a', ' ', '=', '"', "'", '-', '1'],
                            suffixes=['', '>'], depth=3 if quick else 5), want)),
        ('attributes', lines(dict(function='html', fams=both, prefixes=['<a'],
                                  tokens=[' b', '=', 'c', '"', "'", '/', ' ', '\t', '>', '<', ':d',
                                          '`'],
                                  suffixes=['>', ' x>'], depth=4 if quick else 5), want)),
        ('comments', lines(dict(function='html', fams=both, prefixes=['<!-', 'a<!--'],
                                tokens=['-', '>', 'a', '<', '!', '--', '-->'],
                                suffixes=['', '>', '-->'], depth=4 if quick else 5), want)),
        ('others', lines(dict(function='html', fams=both, prefixes=['<!', '<?', '<![CDATA['],
                              tokens=['X', 'x', ' ', '>', '?', ']', '[', '\t', 'CDATA[', '<'],
                              suffixes=['', '>', '?>', ']]>'], depth=3 if quick else 5), want)),
        ('names', lines(dict(function='html', fams=both, prefixes=['<', '</', 'a <'],
                             tokens=['title', 'textarea', 'style', 'xmp', 'iframe', 'noembed',
                                     'noframes', 'script', 'plaintext', 'TITLE', 'sCript', 'x', '-',
                                     'titl', 'h1', 'É'],
                             suffixes=['>', ' a>', '/>', ' />', '', '\t>', ' b="c">', '>d</title>',
                                       '1>'],
                             depth=2 if quick else 3), want)),
        ('random', words(text, 6000 * n, want)),
        ('many', words(lambda r: ('html', r.choice(impl.ALL_PARSERS), gen.soup(
            r, ['<b>', '</b>', '<br/>', '<!-- x -->', '<?a?>', '<!X y>', '<i c="d">', '<script>', 'x', ' ', '<', '>'],
            r.choice([10, 40]), r.choice([60, 150, 280]))), 200 * n, want)),
        ('grammar', words(lambda r: ('html', r.choice(impl.ALL_PARSERS), grammar.raw(r)),
                          12000 * n, want)),
        ('long', words(lambda r: ('html', r.choice(impl.ALL_PARSERS),
                                  grammar.long(r, grammar.raw)), 400 * n, want)),
    ]


# ---- C15, C16, C21, C22 -----------------------------------------------------
import relations  # noqa: E402


def related(f, count, **kw):
    return lambda check, name: f(check, name, count, **kw)


def raw_texts(mode, tokens, depth, opts):
    return lambda check, name: relations.explore(check, name, mode, tokens, depth, opts)


@prop('C15')
def c15(quick):
    n = 1 if quick else 10
    return [
        ('texts', raw_texts('stdin', ['# a', '## b', '```', '\n', '\r', '# '], 5 if quick else 6,
                            [(opt('gfm', coherent=False), 'github'),
                             (opt('rc', coherent=False, skip=1), 'redcarpet')])),
        ('random', related(relations.stdin, 4000 * n)),
        ('fences', related(relations.stdin, 1500 * n, fences=0.4, clean=True)),
        ('boundaries', related(relations.boundaries, 120 * n)),
        ('pieces', related(relations.pieces, 48 * n)),
        ('rejected', lambda check, name: programs.random_commands(
            check, name, 900 * n, {'code', 'files', 'others'}, inplace=True, stdin=1, api=0.5)),
    ]


@prop('C16')
def c16(quick):
    n = 1 if quick else 10
    return [
        ('texts', raw_texts('newlines', ['# a', '```', '\n', '\r', '# b #', ' '], 5 if quick else 6,
                            [(opt('cm', coherent=False, links=False), 'cmark')])),
        ('random', related(relations.newlines, 4000 * n)),
        ('fences', related(relations.newlines, 2000 * n, fences=0.35, clean=True, rich=0.1)),
        ('boundaries', related(relations.boundaries, 120 * n)),
        ('long', related(relations.long_newlines, 60 * n)),
        ('files', on_files(dict(
            lines=[M, '', '- x', 'y'], tocs=['- a\n', '- a\n- b\n'],
            styles=[(a, b) for a in relations.NEWLINES for b in relations.NEWLINES
                    if (a, b) != ('\n', '\n')],
            depth=4 if quick else 5), {'newlines'})),
        ('random files', some_files(2500 * n, {'newlines'})),
        ('big files', big_files(60 * n, {'newlines'})),
    ]


@prop('C21')
def c21(quick):
    n = 1 if quick else 10
    want = {'count', 'status', 'label'}
    return [
        ('skips', explore(dict(
            lines=['# a', '## b', '```', 'x', '# ', '### a'],
            opts=[opt(f, skip=k, coherent=False) for f in ('gfm', 'rc') for k in (0, 1, 2, 3, 5)] +
            [opt('cm', skip=k) for k in (1, 2)],
            depth=4 if quick else 5), want, docs.relative_to_skip)),
        ('random', related(relations.skips, 5000 * n)),
        ('fences', related(relations.skips, 2000 * n, fences=0.3, clean=True, rich=0.1)),
        ('long', related(relations.long_skips, 150 * n)),
    ]


@prop('C22')
def c22(quick):
    n = 1 if quick else 10
    return [
        ('aliases', related(relations.aliases, 5000 * n)),
        ('rich aliases', related(relations.aliases, 3000 * n, rich=0.9, proses=0.1)),
        ('gitlab', lambda check, name: docs.gitlab(check, name, 4000 * n)),
    ]


# ---- C10, C12 and the files of C16 ---------------------------------------------
import files  # noqa: E402


def on_files(conf, clauses):
    return lambda check, name: files.explore(check, name, conf, set(clauses))


def some_files(count, clauses, **kw):
    return lambda check, name: files.validate(
        check, name, files.random_jobs(check, name, count, **kw), set(clauses))


def big_files(count, clauses):
    return lambda check, name: files.validate(
        check, name, files.big_jobs(check, name, count), set(clauses), ())


M = files.MARKER


@prop('C10')
def c10(quick):
    n = 1 if quick else 10
    want = {'written'}
    return [
        ('files', on_files(dict(
            lines=[M, '', '- x', 'y', '```'], tocs=['- a\n', '', '- [b](#b)\n  - [c](#c)\n'],
            depth=5 if quick else 7), want)),
        ('blanks', on_files(dict(
            lines=[M, ' ' + M + '\t', '', '1. x', '    - y', M + '.'], tocs=['1. a\n2. b\n'],
            depth=4 if quick else 6), want)),
        ('marker', on_files(dict(
            lines=['T', 'T ', '', '* x', '-', '\x0b'], tocs=['* x\n'], marker='T',
            depth=4 if quick else 6), want)),
        ('random', some_files(3000 * n, want, styles=False)),
        ('styles', some_files(1500 * n, want)),
        ('big', big_files(80 * n, want)),
    ]


@prop('C12')
def c12(quick):
    n = 1 if quick else 10
    want = {'same', 'equal', 'touched'}
    return [
        ('files', on_files(dict(
            lines=[M, '', '- x', 'y', ' - x'], tocs=['- x\n', '', ' - x', '- x\n- x\n', M],
            depth=5 if quick else 6), want)),
        ('styles', on_files(dict(
            lines=[M, '', '1. x', ' '], tocs=['1. x\n', '1. x\n1. x\n', '\n'],
            styles=[('\r\n', '\n'), ('\n', '\r\n'), ('\r', '\r\n'), ('\r', '\r')],
            depth=5 if quick else 6), want)),
        ('random', some_files(3000 * n, want)),
        ('near', lambda check, name: files.validate(
            check, name, files.near_jobs(check, name, 2000 * n), want, ())),
        ('big', big_files(80 * n, want)),
        ('several', lambda check, name: programs.random_commands(
            check, name, 1200 * n, {'code'}, diff=True, stdin=0, api=0.5)),
    ]


# ---- C11 -----------------------------------------------------------------------
import runs  # noqa: E402


@prop('C11')
def c11(quick):
    n = 1 if quick else 10
    forms = [[M], [M, '', M]]
    return [
        ('edits', lambda check, name: runs.explore(check, name, dict(
            lines=['# a', '## a', '```', ''], forms=forms, most=2 if quick else 3, events=3,
            opts=[opt('gfm', coherent=False), opt('cm', coherent=False, ordered=True, mark=')')]))),
        ('redcarpet', lambda check, name: runs.explore(check, name, dict(
            lines=['# a', '# b #', 'x'], forms=forms[:1], most=1 if quick else 2, events=4,
            opts=[opt('rc'), opt('rc', ordered=True, mark='.')]))),
        ('random', lambda check, name: runs.validate(
            check, name, runs.random_jobs(check, name, 1500 * n))),
        ('long', lambda check, name: runs.validate(
            check, name, runs.long_jobs(check, name, 24 * n))),
        ('finding', runs.finding),
    ]


# ---- C13, C14 ------------------------------------------------------------------
import programs  # noqa: E402


@prop('C13')
def c13(quick):
    n = 1 if quick else 10
    settings = [(opt('gfm'), 'github', '\n'), (opt('rc', ordered=True, mark='.'), 'redcarpet', '\n')]
    if not quick:
        settings += [(opt('gl', keep=2), 'gitlab', '\r\n'), (opt('cm', skip=1), 'goldmark', '\n'),
                     (opt('gfm', const=True, links=False), 'commonmarker', '\r'),
                     (opt('cm', indent=False), 'cmark', '\n')]
    return [
        ('pool', lambda check, name: programs.multiple(check, name, settings, 3 if quick else 3)),
        ('random', lambda check, name: programs.random_multiple(check, name, 700 * n)),
    ]


@prop('C14')
def c14(quick):
    n = 1 if quick else 10
    want = {'code', 'out', 'files', 'others'}
    return [
        ('pairs', lambda check, name: programs.commands(check, name, dict(
            most=2, parsers=['github', 'redcarpet', 'bogus'] if quick else
            impl.ALL_PARSERS + ['bogus', 'none']), want, share=0.5 if quick else 1.0,
            processes=24 if quick else 200)),
        ('triples', lambda check, name: programs.commands(check, name, dict(
            most=3, parsers=['gitlab', 'goldmark'] if quick else impl.ALL_PARSERS,
            file_groups=[['a.md'], ['b.md', 'fresh.md'], ['fresh.md'], ['-']]), want,
            share=0.05 if quick else 0.3)),
        ('random', lambda check, name: programs.random_commands(check, name, 1500 * n, want)),
    ]


# ---- C17 -----------------------------------------------------------------------
import outcomes  # noqa: E402


@prop('C17')
def c17(quick):
    n = 1 if quick else 10
    quiet = [(opt('gfm', links=False, indent=False), 'github', 'file'),
             (opt('rc', links=False, coherent=False, skip=1), 'redcarpet', 'file'),
             (opt('cm', links=False, indent=False, skip=2), 'cmark', 'stdin')]
    return [
        ('model', lambda check, name: outcomes.terminates(check, name, dict(
            lines=['# a', '### b', '```', 'x', '# '], depth=4,
            opts=each() + each(skip=2, coherent=False)))),
        ('bytes', lambda check, name: outcomes.explore(
            check, name, [b'# a\n', b'\n', b'x', b'\x80', b'\xbf', b'\xc3', b'\xe2\x82', b'\xed',
                          b'\xa0', b'\xf0\x9f', b'\xf4', b'\x90', b'\xff', b'\xe0'],
            3 if quick else 4, quiet)),
        ('texts', lambda check, name: outcomes.random_texts(check, name, 12000 * n)),
        ('long', lambda check, name: outcomes.long_texts(
            check, name, [300, 990] if quick else [50, 300, 700, 990, 998])),
        ('repeats', lambda check, name: outcomes.repeats(
            check, name, [60, 90] if quick else [40, 60, 90, 200, 400, 900], 2 if quick else 12)),
        ('wide', lambda check, name: outcomes.wide_texts(
            check, name, [5000, 30000] if quick else [3000, 30000, 200000])),
        ('characters', outcomes.every_character),
        ('files', lambda check, name: outcomes.big_files(check, name, 700 * n)),
    ]


# ---- C18 -----------------------------------------------------------------------
import writes  # noqa: E402


def some_writes(count, how, **kw):
    return lambda check, name: writes.validate(
        check, name, writes.random_jobs(check, name, count, how, **kw))


@prop('C18')
def c18(quick):
    n = 1 if quick else 10
    return [
        ('model', writes.model),
        ('lines', some_writes(150 * n, 'lines')),
        ('opcodes', some_writes(16 * n, 'opcodes')),
        ('faults', some_writes(40 * n, 'faults')),
        ('limits', some_writes(60 * n, 'limits')),
        ('crashes', some_writes(8 * n, 'crashes', step=37 if quick else 7)),
    ]


# ---- C23 -----------------------------------------------------------------------
import histories  # noqa: E402


@prop('C23')
def c23(quick):
    n = 1 if quick else 8
    return [
        ('histories', lambda check, name: histories.explore(check, name, 3 if quick else 4)),
        ('random', lambda check, name: histories.validate(
            check, name, histories.random_jobs(check, name, 180 * n, 12))),
        ('variants', lambda check, name: histories.variants(check, name, 38 * n)),
        ('elsewhere', lambda check, name: histories.elsewhere(check, name, 150 * n)),
    ]


# ---- C24 -----------------------------------------------------------------------
import arguments  # noqa: E402


@prop('C24')
def c24(quick):
    n = 1 if quick else 12
    return [
        ('alone', lambda check, name: arguments.explore(check, name, arguments.single(), 1)),
        ('histories', lambda check, name: arguments.explore(
            check, name, arguments.sequences(), 2 if quick else 3, every=False)),
        ('random', lambda check, name: arguments.validate(check, name, 5000 * n)),
    ]


# ---- C25 -----------------------------------------------------------------------
import blocks  # noqa: E402


@prop('C25')
def c25(quick):
    n = 1 if quick else 10
    loose = [dict(coherent=False), dict(coherent=False, ordered=True, mark='.', keep=2),
             dict(coherent=False, indent=False, links=False, skip=1),
             dict(coherent=False, ordered=True, const=True, links=False)]
    return [
        ('levels', lambda check, name: blocks.explore(check, name, dict(
            lines=['# a', '## b', '### a', '#### d', 'x', '```'],
            opts=[o for kw in loose for o in each(**kw)], depth=4 if quick else 5))),
        ('mixed', lambda check, name: blocks.explore(check, name, dict(
            lines=['# a', '### *a*', '```', '~~~~', '```` x', '', '    # i', '# ', '## [', '#j'],
            opts=[o for kw in loose[:3] for o in each(**kw)], depth=3 if quick else 4))),
        ('random', lambda check, name: blocks.validate(check, name, 1500 * n)),
        ('rich', lambda check, name: blocks.validate(check, name, 700 * n, rich=0.7)),
        ('jumps', lambda check, name: blocks.validate(check, name, 700 * n, wild=0.6, fences=0.02,
                                                      proses=0.02, vocab=['a', 'b'])),
        ('fences', lambda check, name: blocks.given(check, name, fence_documents, 1000 * n)),
        ('wide', lambda check, name: blocks.given(check, name, wide_documents, 24 * n)),
    ]


# ---- C26 -----------------------------------------------------------------------
ENDINGS = ['\n', '\r', '\r\n', 'a', ' ', '', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028',
           '\u2029', 'é', '#']


@prop('C26')
def c26(quick):
    n = 1 if quick else 10
    cm = ['gfm', 'cm', 'gl']
    names = [p for p in impl.ALL_PARSERS if p != 'redcarpet']

    def words_call(r):
        x = r.random()
        if x < 0.5:
            s = gen.soup(r, gen.PUNCT + ['a', 'B', '_', '-', ' ', 'é', '日', '\t', '\u00a0', '\n'], 0, 30)
        else:
            s = ''.join(chr(c) for c in (r.choice([r.randint(1, 0x2ff), r.randint(1, 0xffff),
                                                   r.randint(1, 0x1ffff)]) for _ in range(20))
                        if not 0xd800 <= c < 0xe000)
        return 'words', r.choice(names), s

    return [
        ('split', lines(dict(function='split', fams=['gfm'], parsers={'gfm': ['github']},
                             tokens=['\n', '\r', '\r\n', 'a', ' ', '\x0b', '\u2028'],
                             depth=5 if quick else 6), {'split'})),
        ('split random', words(lambda r: ('split', 'github', gen.soup(
            r, ENDINGS, 0, r.choice([6, 20, 200]))), 4000 * n, {'split'})),
        ('words', lines(dict(function='words', fams=cm, prefixes=['', 'a ', '-'],
                             tokens=[chr(c) for c in range(1, 0x250)], suffixes=['', 'b', ' -'],
                             depth=1), {'words'})),
        ('words random', words(words_call, 5000 * n, {'words'})),
        ('indent', lines(dict(function='indented', fams=cm,
                              tokens=[' ', '  ', '\t', '`', '~~~', 'a', '\n', '\u00a0'],
                              depth=5 if quick else 6), {'indented'})),
        ('characters', texts.every_helper),
        ('ranges', lambda check, name: texts.range_calls(check, name, 6000 * n)),
    ]
