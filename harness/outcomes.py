"""How building ends on any bytes: Outcome bound to build_toc."""

import json
import os
import zlib
import sys

import core
import docs
import gen
import grammar
import impl
import relations
import tlc


# Names of a file, in the scratch directory.
NAMES = ['o.md', 'o.md', './o.md', 'd/../o.md', '/o.md', 'd/a b.md', 'd/./é%s.md', 'd/{0}.MD', 'o',
         'd//#x.md', "d/'q'.md", 'd/-->.md', 'd/a:b', 'd/.md', 'd/\\1.md', 'd/&amp;.md', 'd/~/x.md']


def build(data, opt, parser, nl='\n', source='file', limit=10.0):
    """(name, status, output) of a run on the bytes of data."""
    if source == 'stdin':
        name = '-'
        with impl.standard_input(data):
            got = impl.call(impl.api.build_toc, '-', limit=limit,
                            **impl.api_options(opt, parser, nl))
    else:
        name = core.work() + '/' + NAMES[zlib.crc32(data) % len(NAMES)]
        if zlib.crc32(data) & 0x10000:
            name = os.path.relpath(core.work()) + name[len(core.work()):]
        os.makedirs(core.work() + '/d/~', exist_ok=True)
        with open(name, 'wb') as f:
            f.write(data)
        got = impl.call(impl.api.build_toc, name, limit=limit,
                        **impl.api_options(opt, parser, nl))
    if got[0] == 'ok':
        return name, 'ok', got[1]
    return name, got[1], ''


def _record(jobs):
    return [build(*j) for j in jobs]


def validate(check, name, jobs):
    """jobs: (data, opt, parser, nl, source)."""
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_record, (b,))) for b in core.batches(jobs, 100)]
    kept = []
    path = os.path.join(check.scratch, 'outcomes.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for job, (fname, status, out) in zip(b, p.get()):
                data, opt = job[0], job[1]
                try:
                    data.decode('utf-8')
                    good = True
                except UnicodeDecodeError:
                    good = False
                kept.append((job, status, out))
                long_ = len(data) > 2000
                if not isinstance(out, str):
                    status = 'not a string'
                    out = ''
                f.write(json.dumps(dict(
                    bytes=[] if long_ else list(data), good=good, opt=opt, name=impl.cps(fname),
                    status=status,
                    out=impl.cps(out) if not long_ or len(out) < 200 else [])) + '\n')
    seen = {}

    def sink(text):
        t, ok, good = json.loads(text)
        seen[t] = (ok, good)

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    res = tlc.run('TraceOutcome', cfg, check.scratch, env={'TRACE': path}, sink=sink)
    check.tlc(name, res)
    if len(seen) != len(kept):
        raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    bads = []
    for k, (ok, good) in seen.items():
        if not ok:
            (data, opt, parser, nl, source), status, out = kept[k - 1]
            bads.append(dict(data=data[:3000].decode('latin-1'), size=len(data), opt=opt,
                             parser=parser, source=source, decodable=good, status=status,
                             out=out[:500]))
    bads.sort(key=lambda b: b['size'])
    for b in bads:
        check.fail('outcome', dict(b, stage=name))
    for (data, opt, parser, nl, source), status, out in kept[:2]:
        check.example(dict(stage=name, data=data[:200].decode('latin-1'), parser=parser,
                           source=source, status=status))
    check.traces += len(kept)
    check.cases += len(jobs)
    check.part(name, traces=len(kept))


def _replay(batch, conf, settings):
    out = []
    runs = 0
    for text in batch:
        h, good = json.loads(text)
        data = b''.join(conf['tokens'][k - 1] for k in h)
        for opt, parser, source in settings:
            name, status, toc = build(data, opt, parser, '\n', source)
            notice = '<!--stop reading %s: probably a binary file-->' % name
            runs += 1
            right = status == 'ok' and (toc == notice) is not good
            if not right:
                out.append(dict(data=data.decode('latin-1'), parser=parser, opt=opt, source=source,
                                decodable=good, status=status, out=toc[:300]))
    return runs, out


def explore(check, name, tokens, depth, settings):
    """Every sequence of MCOutcome, on options that make no error possible."""
    conf = dict(tokens=tokens)
    path = os.path.join(check.scratch, 'mcoutcome.json')
    with open(path, 'w') as f:
        json.dump(dict(tokens=[list(t) for t in tokens], depth=depth), f)
    pending = []
    batch = []

    def flush():
        if batch:
            pending.append(check.workers().apply_async(_replay, (list(batch), conf, settings)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 200:
            flush()

    check.workers()
    cfg = ('SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT InvPieces\n'
           'INVARIANT InvAscii\nPROPERTY StaysIll\n')
    res = tlc.run('MCOutcome', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    check.tlc(name, res)
    bads = []
    runs = 0
    for p in pending:
        n, out = p.get()
        runs += n
        bads += out
    bads.sort(key=lambda b: len(b['data']))
    for b in bads:
        check.fail('outcome', dict(b, stage=name))
    check.traces += runs
    check.part(name, replayed=runs)


def terminates(check, name, conf):
    """The model itself: every document is read to its end or rejected."""
    path = os.path.join(check.scratch, 'mclive.json')
    conf = dict(conf, probe=[], lines=[impl.cps(x) for x in conf['lines']])
    with open(path, 'w') as f:
        json.dump(conf, f)
    cfg = 'SPECIFICATION LiveSpec\nCHECK_DEADLOCK FALSE\nPROPERTY Terminates\n'
    res = tlc.run('MCDoc', cfg, check.scratch, env={'MC_CONFIG': path})
    check.tlc(name, res)


# ---- texts ---------------------------------------------------------------------------
ANY = ['\x00', '\x01', '\x1b', '\x1c', '\x1d', '\x1e', '\x7f', '\x85', '\u00ad', '\u0100', '\u0130',
       '\u03a3', '\u0345', '\u2028', '\u2029', '\u200b', '\u200d', '\u202e', '\ufeff', '\uffff',
       '\ufdd0', '\U0001f600', '\U0010ffff', '\u0301', '\u1e9e', '\ufb01', '\u01c5', '\u00df',
       '\U00010400', '\u3000', '\u00a0']
SHAPES = ['*a ', '**a ', '*a **b ', '_a __b ', '[', '![', '](', ']', '[]', '[a](', '[a]: ', '`',
          '`a``', '\\', '\\*', '<', '<a ', '<a b=', '<a b="', '<!--', '<?', '<!X ', '<![CDATA[', '</',
          '&', '&a', '*_', 'a**b', '*a_b', '***', '* a_', '#', '# ', 'é', '日', '<a>', '<b></b>',
          'a@b.c', '<a@', '<http:', '**a*', '"', '(', '[a][b]', '[[a]', '![a](b "c" ', '-', ' -', '~',
          'a_', '{', '|', '!', ';', '&#', '[](<', '[a](<b', 'a\\', "'", '\u0100', '\U0001f600']


def any_text(r):
    """A line of any characters."""
    x = r.random()
    if x < 0.35:
        alphabet = gen.PUNCT + ANY + ['a', ' ', 'B', '1'] + ['*', '_', '[', ']', '`', '<', '>', '\\',
                                                             '!', '(', ')', '&', ';', ':', '"'] * 2
        return gen.soup(r, alphabet, 0, 30)
    if x < 0.6:
        return gen.soup(r, gen.INLINE + gen.PUNCT + ANY + SHAPES + [' '], 0, 12)
    if x < 0.75:
        out = []
        for _ in range(r.randint(1, 12)):
            c = r.choice([r.randint(0, 0x2ff), r.randint(0, 0xffff), r.randint(0, 0x10ffff)])
            if not 0xd800 <= c <= 0xdfff and c not in (10, 13):
                out.append(chr(c))
        return ''.join(out)
    if x < 0.9:
        return gen.soup(r, ['[', ']', '!', '(', ')', ':', '<', '>', '"', "'", '\\', 'a', ' ', '[a]',
                            '](', '[a]: b', '![', '*', '_', '`', '[a](b)', '[a][', '[]', '(b "c")',
                            '\u0100'], 1, 20)
    if x < 0.97:
        return r.choice([grammar.emphasis, grammar.raw])(r).replace('\n', ' ')
    a, b = r.choice(SHAPES), r.choice(SHAPES)
    return a * r.randint(1, 40) + b * r.randint(0, 40) + r.choice(['', 'x', a, '>', ')', ']'])


def random_texts(check, name, count):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        if r.random() < 0.7:
            o['coherent'] = False
        lines = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            t = any_text(r)
            if x < 0.85:
                t = r.choice(['# ', '# ', '## ', '### ', '#', '#\t', ' # ']) + t
            elif x < 0.92:
                t = r.choice(['```', '~~~', '   ````', '```` ']) + t
            lines.append(t)
        text = r.choice(['\n', '\r\n', '\r']).join(lines) + r.choice(['', '\n'])
        jobs.append((text.encode('utf-8'), o, parser, r.choice(relations.NEWLINES),
                     r.choice(['file', 'file', 'file', 'stdin'])))
    validate(check, name, jobs)


def long_texts(check, name, sizes):
    """Long headings of repeated pieces, for each parser."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for parser in impl.ALL_PARSERS:
        fam = impl.FAMILY[parser]
        for size in sizes:
            for shape in SHAPES:
                t = '# ' + (shape * size)[:size] + '\n'
                jobs.append((t.encode('utf-8'), docs.opt(fam), parser, '\n', 'file'))
            for _ in range(20):
                a, b, c = (r.choice(SHAPES) for _ in range(3))
                t = '# ' + ((a + b) * size)[:size // 2] + ((c + b) * size)[:size // 2] + '\n'
                jobs.append((t.encode('utf-8'), docs.opt(fam), parser, '\n', 'file'))
    validate(check, name, jobs)


OPENINGS = ['', '<', '</', '<a', '<a ', '<a b=', '<a b="', "<a b='", '<!--', '<?', '<!A', '<!A ',
            '<![CDATA[', '<a:', '<a@', '<a@b', '[', '[a](', '[a](<', '[a](b "', '![', '*', '**', '_', '`',
            '&', '&#', '&#x', '\\', 'a ', '[a][', '<title', '#']
UNITS = ['a', 'A', '1', 'a1', '-', 'a-', ' ', '  ', '\t', ' a', 'a ', ' a=b', ' a="b"', " a='b'", ' a = b', '=',
         'a=', '"', '/', ':', '.', 'a.', '--', '- ', '!', '?', '? ', ']', ']]', '[', '(', ')', '()', '\\',
         '\\a', '*', '_', '*a', '**a', '_a ', '`', '``a`', '&', ';', '&a;', '#', ' #', '<', '<a', '<a>',
         'é', '\x0b', '\x0c ', 'a@', '@']
CLOSINGS = ['', '>', '/>', '!', '"', ')', ']', ' ', '*', '`', ';', ' #', '<', '-->', 'é', '"!']


def repeats(check, name, sizes, every):
    """Openings of every construct followed by many copies of a piece."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    k = 0
    for a in OPENINGS:
        for b in UNITS:
            for _ in range(every):
                k += 1
                parser = impl.ALL_PARSERS[k % 6]
                t = '# ' + a + b * (r.choice(sizes) // len(b)) + r.choice(CLOSINGS) + '\n'
                jobs.append((t.encode('utf-8'), docs.opt(impl.FAMILY[parser]), parser, '\n', 'file'))
    validate(check, name, jobs)


def wide_texts(check, name, sizes):
    """Lines much longer than a label may be."""
    jobs = []
    for k, size in enumerate(sizes):
        for j, shape in enumerate(SHAPES + [' #', '#', ' ', '\t', '` ', '~']):
            parser = impl.ALL_PARSERS[(j + k) % 6]
            fam = impl.FAMILY[parser]
            body = (shape * size)[:size]
            jobs.append((('# ' + body + '\n').encode(),
                         docs.opt(fam, links=j % 3 == 0), parser, '\n', 'file'))
            jobs.append((('# a\n' + body + '\n```' + body + '\n## b ' + body + '#\n').encode(),
                         docs.opt(fam, links=False), parser, '\n', 'stdin' if j % 4 == 0 else 'file'))
            jobs.append((('# b ' + body + '\n').encode(), docs.opt('rc'), 'redcarpet', '\n', 'file'))
    validate(check, name, jobs)


PLACES = ['a%s', '%sa', 'a *%s*', '*a%s', '_%s_', '_a_%s', '%s_a_', 'a<%s>', '<a %s>a', '<a b=%s>a',
          'a<a%s>', '</%s>a', 'a<!%s>', 'a<!A %s>', 'a<?%s?>', 'a<!--%s-->', 'a<![CDATA[%s]]>', 'a&%s;',
          'a&#%s;', 'a&#x%s;', 'a&#x1%s;', 'a&a%s;', 'a[%s]', '[a](%s)', '[a](b %s)', '[a](b "%s")',
          '[a](<%s>)', '![%sa', 'a\\%s', '`%s`a', '``%s`a', '<http:%s>', '<%s:b>', '<ab%s:c>', '<a@%s>',
          '<%s@a>', '<a@b%s.c>', '[%s](a)', '[a][%s]', 'a#%s', '%s#a', 'a # %s#', '**%s**a', 'a**%s',
          '%sa\\', '``` %s', '~~~%s', 'a %s # ', '&%s', 'a](%s)', '![a](%s "', '<%s', '*a*%s*b*']


def every_character(check, name):
    """Characters of all of Unicode next to all the constructs."""
    import unicodedata
    r = gen.rng(check.seed, check.prop, name, check.tier)
    points = [c for c in range(1, 0x110000) if c not in (10, 13) and not 0xd800 <= c < 0xe000]
    # Those which programs tend to tell apart: digits, blanks, controls ...
    special = [c for c in points if unicodedata.category(chr(c)) in
               ('Nd', 'No', 'Nl', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Pc', 'Pd', 'Sk', 'Lt') or c < 0x250]
    texts = [x.replace('%s', chr(c)) for c in special for x in
             (r.sample(PLACES, 12) if check.quick else PLACES)]
    texts += [r.choice(PLACES).replace('%s', chr(c))
              for c in r.sample(points, 20000 if check.quick else 400000)]
    r.shuffle(texts)
    jobs = []
    for k, part in enumerate(core.batches(texts, 24)):
        parser = impl.ALL_PARSERS[k % 6]
        fam = impl.FAMILY[parser]
        text = ''.join('# ' + t + '\n' for t in part)
        jobs.append((text.encode('utf-8'), docs.opt(fam, links=r.random() < 0.8), parser, '\n',
                     'file'))
    validate(check, name, jobs)


def big_files(check, name, count):
    """Files longer than the buffers, decodable or not."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['coherent'] = r.random() < 0.3
        o['skip'] = r.choice([0, 0, 1, 5, 100, 10000])
        size = r.choice([10, 100, 3000, 8185, 8192, 9000, 20000])
        doc = []
        n = 0
        while n < size:
            doc.append(r.choice(['# a', 'text ' * r.randint(0, 30), '```', 'é' * r.randint(0, 50), '## b']))
            n += len(doc[-1].encode()) + 1
        data = '\n'.join(doc).encode('utf-8') + b'\n'
        if r.random() < 0.7:
            i = r.choice([r.randint(0, len(data)), len(data), 0, max(0, len(data) - 1),
                          min(len(data), 8191), min(len(data), 8192)])
            data = data[:i] + r.choice([b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80',
                                        b'\xf5', b'\xc0\x80']) + data[i:]
        jobs.append((data, o, parser, '\n', r.choice(['file', 'file', 'stdin'])))
    validate(check, name, jobs)
