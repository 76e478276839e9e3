"""Pairs of runs on related inputs: Relation bound to build_toc."""

import fcntl
import json
import os
import subprocess
import sys
import termios
import time

import core
import gen
import impl
import tlc


def run(raw, skip, nl, opt, parser, source='file'):
    """A run of build_toc on the exact text raw."""
    o = dict(opt, skip=skip)
    if source == 'stdin':
        act = impl.build_stdin(raw.encode('utf-8'), o, parser, nl)
    else:
        path = os.path.join(core.work(), 'r.md')
        impl.write(path, raw)
        act = impl.build(path, o, parser, nl)
    status, out = ('ok', act[1]) if act[0] == 'ok' else (act[1], '')
    return dict(raw=raw, skip=skip, nl=nl, status=status, out=out, parser=parser, source=source)


def _record(jobs):
    out = []
    for opt, a, b in jobs:
        out.append((run(opt=opt, **a), run(opt=opt, **b)))
    return out


def code(r):
    return dict(raw=impl.cps(r['raw']), skip=r['skip'], nl=impl.cps(r['nl']), status=r['status'],
                out=impl.cps(r['out']))


def validate(check, name, jobs):
    """jobs: (options, run a, run b), the runs being arguments of run."""
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_record, (b,))) for b in core.batches(jobs, 200)]
    pairs = []
    for b, p in parts:
        for (opt, _, _), pair in zip(b, p.get()):
            pairs.append((opt, pair))
    judge(check, name, pairs)


def judge(check, name, pairs):
    """pairs: (what is shown of the options, (record of a, record of b))."""
    path = os.path.join(check.scratch, 'pairs.ndjson')
    with open(path, 'w') as f:
        for opt, (a, b) in pairs:
            f.write(json.dumps(dict(a=code(a), b=code(b))) + '\n')
    seen = {}

    def sink(text):
        t, ok = json.loads(text)
        seen[t] = ok

    cfg = ('SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
           'INVARIANT InvComparable\n')
    res = tlc.run('TraceRelation', cfg, check.scratch, env={'TRACE': path}, sink=sink)
    if res.broken:
        raise tlc.TlcError('pairs not comparable\n' + '\n'.join(res.tail[-30:]))
    if len(seen) != len(pairs):
        raise tlc.TlcError('%d pairs, %d consumed' % (len(pairs), len(seen)))
    check.tlc(name, res)
    bads = [(opt, a, b) for k, (opt, (a, b)) in enumerate(pairs) if not seen[k + 1]]
    bads.sort(key=lambda x: len(x[1]['raw']) + len(x[2]['raw']))
    for opt, a, b in bads:
        check.fail('pair', dict(stage=name, opt=opt, a=a, b=b))
    for opt, (a, b) in pairs[:2]:
        check.example(dict(stage=name, opt=opt, a=a, b=b))
    check.traces += 2 * len(pairs)
    check.cases += len(pairs)
    check.part(name, traces=2 * len(pairs))


NEWLINES = ['\n', '\r\n', '\r']


def encode(r, lines, style=None, final=None):
    """A text with the given lines; style None: mixed line endings."""
    final = r.random() < 0.7 if final is None else final
    out = []
    for k, line in enumerate(lines):
        end = style or r.choice(NEWLINES)
        # CR followed by a line starting with LF would be another text, but no
        # line starts with LF; a CR ending an empty CRLF pair must not be made.
        if out and out[-1].endswith('\r') and line == '' and end == '\n':
            end = '\r\n'
        out.append(line + end)
    text = ''.join(out)
    if not final and lines and lines[-1] != '':
        for e in ('\r\n', '\n', '\r'):
            if text.endswith(e):
                text = text[:-len(e)]
                break
    return text


def plain(lines):
    return ''.join(x + '\n' for x in lines)


def documents(check, name, count, **kw):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['coherent'] = r.random() < 0.4
        yield r, gen.document(r, **kw), o, parser


# ---- C16 -------------------------------------------------------------------
def newlines(check, name, count, **kw):
    jobs = []
    for r, doc, o, parser in documents(check, name, count, **kw):
        nl = r.choice(NEWLINES)
        raw = encode(r, doc, r.choice(NEWLINES + [None]))
        jobs.append((o, dict(raw=plain(doc), skip=o['skip'], nl='\n', parser=parser),
                     dict(raw=raw, skip=o['skip'], nl=nl, parser=parser,
                          source=r.choice(['file', 'file', 'file', 'stdin'])
                          if check.prop != 'C16' else 'file')))
    validate(check, name, jobs)


def long_newlines(check, name, count):
    """Documents of hundreds of headings."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['coherent'] = False
        size = r.choice([100, 128, 130, 256, 260, 512, 600, 1000, 1030])
        pool = gen.document(r) + ['# a', '## b', '### c', '# d', '## e']
        doc = [r.choice(pool) for _ in range(size)] if r.random() < 0.3 else \
            ['#' * r.randint(1, 3) + ' ' + r.choice(['a', 'b', 'c d', '*e*']) for _ in range(size)]
        jobs.append((o, dict(raw=plain(doc), skip=o['skip'], nl='\n', parser=parser),
                     dict(raw=encode(r, doc, r.choice(NEWLINES + [None])), skip=o['skip'],
                          nl=r.choice(NEWLINES[1:] + NEWLINES), parser=parser)))
    validate(check, name, jobs)


BUFFERS = [512, 1024, 2048, 4096, 4096, 8192, 8192, 16384, 65536]


def across(r, lines, style, size):
    """A text where the line ending before the second half of lines is across a multiple of size."""
    half = len(lines) // 2
    head = ''.join(l + style for l in lines[:half])
    last = r.choice(['x', 'text ', '# a ', '```'])
    used = len(head.encode()) + len(last)
    end = (used // size + 1) * size
    pad = end - used - r.choice([0, 1, 1, 1, 2])
    word = 'x' if last != '```' else ' '
    cut = r.choice([0, pad // 2])
    if cut > 10 and last == 'x':
        body = 'x' * cut + style + 'y' * max(0, pad - cut - len(style))
    else:
        body = word * max(0, pad)
    if last == '# a ':
        body = ('\u00e9' * (pad // 2) + 'x' * (pad % 2)) if pad < 1500 else ' ' * pad
    return head + last + body + style + ''.join(l + style for l in lines[half:])


def boundaries(check, name, count):
    """Line endings across the ends of the usual buffers."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['coherent'] = r.random() < 0.2
        style = r.choice(['\r\n', '\r\n', '\r\n', '\r'])
        doc = gen.document(r) + ['', '# t'] + gen.document(r)
        raw = across(r, doc, style, r.choice(BUFFERS))
        if check.prop == 'C16':
            a = dict(raw=raw.replace(style, '\n'), skip=o['skip'], nl='\n', parser=parser)
            b = dict(raw=raw, skip=o['skip'], nl=r.choice(NEWLINES), parser=parser)
        else:
            a = dict(raw=raw, skip=o['skip'], nl='\n', parser=parser)
            b = dict(a, source='stdin')
        jobs.append((o, a, b))
    validate(check, name, jobs)


# ---- C15 -------------------------------------------------------------------
def stdin(check, name, count, **kw):
    jobs = []
    for r, doc, o, parser in documents(check, name, count, **kw):
        nl = r.choice(NEWLINES)
        raw = encode(r, doc, r.choice(NEWLINES + [None, '\n']))
        jobs.append((o, dict(raw=raw, skip=o['skip'], nl=nl, parser=parser),
                     dict(raw=raw, skip=o['skip'], nl=nl, parser=parser, source='stdin')))
    validate(check, name, jobs)


def _slow(job):
    """The table of contents of a text which comes in pieces, and from a file."""
    raw, argv, cuts = job
    path = os.path.join(core.work(), 'slow.md')
    impl.write(path, raw)
    data = raw.encode('utf-8')
    env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1')
    out = []
    for name in (path, '-'):
        p = subprocess.Popen([sys.executable, '-m', 'md_toc'] + argv + [name], env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        try:
            if name == '-':
                for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(data)])):
                    p.stdin.write(data[a:b])
                    p.stdin.flush()
                    # the next piece comes once this one has been read
                    for _ in range(1000):
                        left = fcntl.ioctl(p.stdin, termios.FIONREAD, b'\0' * 4)
                        if not any(left) or p.poll() is not None:
                            break
                        time.sleep(0.01)
                    time.sleep(0.03)
        except OSError:
            pass
        got = p.communicate(timeout=60)[0]
        out.append((p.returncode, got.decode('utf-8', 'replace')))
    return out


def pieces(check, name, count):
    """Texts given in pieces to the standard input of the program."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        doc = gen.document(r, size=r.choice([3, 6, 12, 40, 400]), clean=True, rich=0.1, wild=0,
                           vocab=None if k % 2 else ['a', 'b'])
        raw = encode(r, doc, r.choice(NEWLINES + ['\n']))
        n = len(raw.encode('utf-8'))
        cuts = sorted(r.randint(0, n) for _ in range(r.randint(1, 4)))
        jobs.append((raw, ['-c', '-s', str(r.choice([0, 0, 1, 4])), parser], cuts))
    got = check.workers().map(_slow, jobs, chunksize=1)
    pairs = []
    for (raw, argv, cuts), two in zip(jobs, got):
        pairs.append((dict(argv=argv, cuts=cuts), tuple(
            dict(raw=raw, skip=int(argv[2]), nl='\n', status=str(c), out=o.replace('\r', ''),
                 parser=argv[3], source=src)
            for (c, o), src in zip(two, ('file', 'stdin')))))
    judge(check, name, pairs)


# ---- C21 -------------------------------------------------------------------
def skips(check, name, count, **kw):
    jobs = []
    for r, doc, o, parser in documents(check, name, count, **kw):
        n = r.choice([0, 1, 1, 2, 3, 4, len(doc), len(doc) + 1, max(0, len(doc) - 1),
                      r.randint(0, len(doc) + 3), 1000])
        style = r.choice(NEWLINES + ['\n', '\n'])
        final = r.random() < 0.7
        source = r.choice(['file', 'file', 'stdin'])
        m = r.randint(0, min(n, len(doc)))
        jobs.append((o, dict(raw=encode(r, doc[m:], style, final), skip=n - m if len(doc) > m else 0,
                             nl='\n', parser=parser, source=source),
                     dict(raw=encode(r, doc, style, final), skip=n, nl='\n', parser=parser,
                          source=source)))
    validate(check, name, jobs)


def long_skips(check, name, count):
    """Documents of up to some thousands of lines, most of them skipped."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['coherent'] = r.random() < 0.3
        size = r.choice([60, 99, 100, 127, 128, 255, 256, 500, 512, 999, 1000, 1023, 1024, 2048,
                         r.randint(1000, 3000), 4096, r.randint(3000, 6000)])
        if k % 40 == 39:
            size = r.choice([32768, 65535, 65537, 70000])
        before = [r.choice(['', '', '', 'x', '# a', '## b', '```', '- x']) for _ in range(size)]
        tail = ['# t'] + gen.document(r)
        n = max(0, size + r.choice([-3, -2, -1, 0, 0, 0, 1, 2]))
        doc = before + tail
        style = r.choice(['\n', '\n', '\n', '\r\n', '\r'])
        final = r.random() < 0.7
        source = r.choice(['file', 'file', 'stdin'])
        jobs.append((o, dict(raw=encode(r, doc[n:], style, final), skip=0, nl='\n', parser=parser,
                             source=source),
                     dict(raw=encode(r, doc, style, final), skip=n, nl='\n', parser=parser,
                          source=source)))
    validate(check, name, jobs)


# ---- C22 -------------------------------------------------------------------
def aliases(check, name, count, **kw):
    jobs = []
    for r, doc, o, _ in documents(check, name, count, **kw):
        a, b = r.choice([('github', 'commonmarker'), ('cmark', 'goldmark')])
        o['fam'] = impl.FAMILY[a]
        raw = encode(r, doc, '\n')
        jobs.append((o, dict(raw=raw, skip=o['skip'], nl='\n', parser=a),
                     dict(raw=raw, skip=o['skip'], nl='\n', parser=b)))
    validate(check, name, jobs)


# ---- exhaustive texts --------------------------------------------------------
def _replay(batch, mode, opts):
    out = []
    runs = 0
    for raw in batch:
        a, b = (impl.text(x) for x in json.loads(raw))
        for o, parser in opts:
            base = run(b, o['skip'], '\n', o, parser)
            for nl in NEWLINES if mode == 'newlines' else ['\n']:
                other = run(a, o['skip'], nl, o, parser, 'stdin' if mode == 'stdin' else 'file')
                runs += 2
                if base['status'] != other['status'] or \
                        other['out'] != base['out'].replace('\n', nl):
                    out.append(dict(opt=o, a=base, b=other))
    return runs, out


def explore(check, name, mode, tokens, depth, opts):
    """Every text of MCInput against its canonical form."""
    path = os.path.join(check.scratch, 'mcinput.json')
    with open(path, 'w') as f:
        json.dump(dict(tokens=[impl.cps(t) for t in tokens], depth=depth), f)
    pending = []
    batch = []

    def flush():
        if batch:
            pending.append(check.workers().apply_async(_replay, (list(batch), mode, opts)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 200:
            flush()

    check.workers()
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in ('InvCanonical', 'InvStyles', 'InvLines', 'InvOutput'))
    res = tlc.run('MCInput', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    runs = 0
    bads = []
    for p in pending:
        n, out = p.get()
        runs += n
        bads.extend(out)
    check.tlc(name, res)
    bads.sort(key=lambda x: len(x['b']['raw']))
    for b in bads:
        check.fail('pair', dict(b, stage=name))
    check.traces += runs
    check.part(name, replayed=runs)
