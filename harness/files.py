"""Files with markers: MarkerFile bound to the write and compare functions."""

import json
import os
import shutil

import core
import gen
import grammar
import impl
import relations
import tlc

api = impl.api
MARKER = '<!--TOC-->'


def operate(raw, toc, marker, nl, path=None):
    """Compare and write on a file with the exact content raw."""
    path = path or os.path.join(core.work(), 'f.md')
    impl.write(path, raw)
    before = os.stat(path)
    same = impl.call(api.tocs_equal, toc, path, marker)
    after = os.stat(path)
    touched = impl.read(path) != raw.encode('utf-8') or \
        (before.st_mtime_ns, before.st_ino, before.st_mode) != \
        (after.st_mtime_ns, after.st_ino, after.st_mode)
    impl.write(path, raw)
    equal = impl.call(api.write_string_on_file_between_markers, path, toc, marker, nl)
    try:
        content = impl.read(path).decode('utf-8')
    except (OSError, UnicodeDecodeError):
        content = '\0'
    return same, touched, equal, content


def _replay(batch, conf):
    out = []
    runs = 0
    for text in batch:
        for content, rows in json.loads(text):
            content = impl.text(content)
            for toc, (written, same) in zip(conf['tocs'], rows):
                written = impl.text(written)
                for style, nl in conf['styles']:
                    raw = content.replace('\n', style)
                    t = toc.replace('\n', nl)
                    runs += 1
                    s, touched, e, after = operate(raw, t, conf['marker'], nl)
                    bad = set()
                    if s[0] != 'ok' or e[0] != 'ok':
                        bad.add('exception')
                    else:
                        if s[1] is not same:
                            bad.add('same')
                        if e[1] is not same:
                            bad.add('equal')
                        if touched:
                            bad.add('touched')
                        if written == content and after == raw:
                            pass
                        elif after != written.replace('\n', nl):
                            norm = after.replace('\r\n', '\n').replace('\r', '\n')
                            bad.add('newlines' if norm == written else 'written')
                    if bad:
                        out.append(dict(raw=raw, toc=t, marker=conf['marker'], nl=nl,
                                        expected=[written, same], same=s, equal=e, after=after,
                                        touched=touched, clauses=sorted(bad)))
    return runs, out


def explore(check, name, conf, wanted):
    conf = dict(conf)
    conf.setdefault('marker', MARKER)
    conf.setdefault('styles', [('\n', '\n')])
    coded = dict(lines=[impl.cps(x) for x in conf['lines']],
                 tocs=[impl.cps(x) for x in conf['tocs']],
                 marker=impl.cps(conf['marker']), depth=conf['depth'])
    path = os.path.join(check.scratch, 'mcfile.json')
    with open(path, 'w') as f:
        json.dump(coded, f)
    pending = []
    batch = []
    last = []

    def flush():
        if batch:
            last[:] = batch[-1:]
            pending.append(check.workers().apply_async(_replay, (list(batch), conf)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 50:
            flush()

    check.workers()
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in ('InvOnlyTheBlock', 'InvMarkers', 'InvConverges', 'InvSame',
                                       'InvRaw'))
    res = tlc.run('MCFile', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    runs = 0
    bads = []
    for p in pending:
        n, out = p.get()
        runs += n
        bads.extend(out)
    check.tlc(name, res)
    collect(check, name, bads, wanted)
    for x in last:
        c, rows = json.loads(x)[0]
        check.example(dict(stage=name, raw=impl.text(c), toc=conf['tocs'][0],
                           written=impl.text(rows[0][0]), same=rows[0][1]))
    check.traces += runs
    check.part(name, replayed=runs)


def right_with_lf(b):
    """Whether what is wrong with this newline style is right with line feeds."""
    def lf(x):
        return x.replace('\r\n', '\n').replace('\r', '\n')
    _, _, e, after = operate(lf(b['raw']), lf(b['toc']), b['marker'], '\n')
    return e[0] == 'ok' and after == lf(b['expected'][0])


def collect(check, name, bads, wanted):
    bads.sort(key=lambda b: len(b['raw']) + len(b['toc']))
    for b in bads:
        if 'newlines' in wanted and 'written' in b['clauses'] and right_with_lf(b):
            b['clauses'] = ['newlines']
        hit = set(b['clauses']) & (set(wanted) | {'exception'})
        if hit:
            check.fail('file', dict(b, stage=name, clauses=sorted(hit)))


# ---- code -> spec ------------------------------------------------------------
def _record(jobs):
    """Each in a file with some name, given as a relative or an absolute path."""
    out = []
    base = os.path.join(core.work(), 'named')
    for k, j in enumerate(jobs):
        shutil.rmtree(base, ignore_errors=True)
        name = gen.NAMES[(k + len(j[0])) % len(gen.NAMES)] % k
        path = os.path.join(base, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        try:
            if k % 3 == 0:
                os.chdir(base)
                path = name
            out.append(operate(*j, path=path))
        finally:
            os.chdir('/')
    return out


def validate(check, name, jobs, wanted, invariants=('InvBlock',)):
    """jobs: (raw, toc, marker, nl)."""
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_record, (b,))) for b in core.batches(jobs, 100)]
    bads = []
    kept = []
    path = os.path.join(check.scratch, 'files.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for (raw, toc, marker, nl), (s, touched, e, after) in zip(b, p.get()):
                rec = dict(raw=raw, toc=toc, marker=marker, nl=nl, same=s, touched=touched,
                           equal=e, after=after)
                if s[0] != 'ok' or e[0] != 'ok' or not isinstance(s[1], bool) or \
                        not isinstance(e[1], bool):
                    bads.append(dict(rec, clauses=['exception']))
                    continue
                kept.append(rec)
                f.write(json.dumps(dict(
                    raw=impl.cps(raw), toc=impl.cps(toc), marker=impl.cps(marker),
                    nl=impl.cps(nl), same=s[1], touched=touched, equal=e[1],
                    after=impl.cps(after))) + '\n')
    seen = set()

    def sink(text):
        v = json.loads(text)
        seen.add(v[0])
        if len(v) > 1:
            bads.append(dict(kept[v[0] - 1], clauses=sorted(v[1]),
                             expected=[impl.text(v[2]), v[3]]))

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in invariants)
    if kept:
        res = tlc.run('TraceFile', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    collect(check, name, bads, wanted)
    for rec in kept[:2]:
        check.example(dict(rec, stage=name))
    check.traces += len(kept)
    check.cases += len(jobs)
    check.part(name, traces=len(kept))


MARKERS = [MARKER, MARKER, MARKER, MARKER, '<!--toc-->', '[](TOC)', '\\1 .* $', 'TOC', '  TOC', 'T O C ',
           '%s', 'é日', '- x', '1. x', '<!-- TOC -->', '$$', '{{toc}}', '#TOC']


def toc_text(r):
    """A table of contents, nearly always."""
    if r.random() < 0.1:
        return r.choice(['', '\n', 'x', '- a', 'text\ntext\n', '<!--stop reading a: x-->', '\\1\\g<0>\n',
                         '- \n', '  - a\n', '\t- a\n'])
    n = r.randint(1, 5) if r.random() < 0.985 else r.choice([11, 60, 110])
    ordered = r.random() < 0.4
    out = []
    for k in range(n):
        mark = '%d%s' % (k + 1, r.choice('.)')) if ordered else r.choice('-+*')
        t = r.choice(['a', 'b c', 'é', '[a](#a)', '[b \\[c\\]](#b-c)', '\\1', '`x`', '&amp;', '日'])
        if r.random() < 0.04:
            t = 'a' + r.choice(['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\u2028',
                                '\u2029', '\t', '\u00a0', '\ufeff', '\x00', '\x7f']) + 'b'
        out.append(' ' * r.choice([0, 0, 0, 2, 3, 4]) * (k > 0) + mark + ' ' + t)
    return '\n'.join(out) + r.choice(['\n', '\n', '\n', '', '\n\n'])


def file_lines(r, marker, toc):
    """Lines of a file with markers."""
    lines = []
    for _ in range(r.randint(0, 5)):
        x = r.random()
        if x < 0.2:
            lines += [gen.prose(r)]
        elif x < 0.3:
            lines += [r.choice(['```', '~~~', '``` a', '<!--', '-->', '---', '<details>', '</details>',
                                '## Contents', 'TOC', '> ' + marker, '- ' + marker, '`' + marker + '`',
                                '[TOC]', '<!-- toc -->', 'See:', 'a\x85b', 'a\u2028b', '\x0c', 'p\x0bq\x1cr', '***', '|a|b|', gen.fence_line(r).rstrip('\n'),
                                grammar.raw(r, False)])]
        elif x < 0.5:
            lines += ['#' * r.randint(1, 3) + ' ' + gen.heading_text(r, 0.3)]
        elif x < 0.65:
            lines += [r.choice([marker, marker + ' ', ' ' + marker, '\t' + marker, marker + 'x',
                                'x ' + marker, marker.lower(), marker.strip()])]
        elif x < 0.9:
            t = toc if r.random() < 0.5 else toc_text(r)
            t = t.rstrip().split('\n')
            if r.random() < 0.15:
                t[0] = r.choice(['%s%s%s %s', '%s%s%s%s', '%s%s%s\t%s', '%s%s%s  %s']) % (
                    ' ' * r.choice([0, 0, 0, 1, 3, 4]), r.choice(['', '', '', '1', '12', '1234567890', '\u0661', 'a', '-']),
                    r.choice(['-', '+', '*', '.', ')', 'x', '', ':', '#', ',', '/', '(', '\u2022']),
                    r.choice(['a', '[b](#b)', '', '\u00e9']))
            gap = r.choice([[''], [''], [''], [], ['', ''], [' '], ['x']])
            lines += [marker] + gap + t + r.choice([gap, gap, [''], []]) + [marker]
        else:
            lines += [marker] + r.choice([[], [''], ['', ''], ['  '], ['\t'], ['x'], ['\x0c'],
                                         [gen.soup(r, [' ', '\t', '\x0b'], 25, 60) + r.choice(['', 'x'])],
                                         [' '] * 40 + ['x'], [''] * 30 + ['- x']]) + [marker]
    return lines


def random_jobs(check, name, count, styles=True):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for _ in range(count):
        marker = r.choice(MARKERS)
        toc = toc_text(r)
        raw = relations.encode(r, file_lines(r, marker, toc),
                               r.choice(relations.NEWLINES + [None, '\n']) if styles else '\n')
        nl = r.choice(relations.NEWLINES) if styles else '\n'
        style = r.choice([nl, nl, '\n', '\r', '\r\n'])
        jobs.append((raw, toc.replace('\n', style), marker, nl))
    return jobs


def edited(r, toc):
    """The table with one small change, or none."""
    x = r.randrange(14)
    k = r.randrange(len(toc))
    lines = toc.rstrip('\n').split('\n')
    j = r.randrange(len(lines))
    if x == 0:
        return toc
    if x == 1:
        return toc[:k] + toc[k].swapcase() + toc[k + 1:]
    if x == 2:
        return toc.replace(*r.choice([('&amp;', '&'), ('&', '&amp;'), ('<', '&lt;'), ('"', "'"), ('_', '*'),
                                      ('\\', ''), ('\u00e9', 'e\u0301'), ('e\u0301', '\u00e9'),
                                      ('-', '*'), ('-', '+'), ('.', ')'), ('#', ''), (' ', '\t'),
                                      (' ', '\u00a0'), ('-', '\u2010'), ('1', '\u0661'), ('%20', ' '),
                                      ('\u212b', '\u00c5'), ('[', '\\['), ('](#', '] (#')]))
    if x == 3:
        return toc[:k] + toc[k + 1:]
    if x == 4:
        return toc[:k] + toc[k] + toc[k:]
    if x == 5:
        return toc[:k] + r.choice('ax -\t#*\u200b\u00ad\ufeff\u0301') + toc[k:]
    if x == 6:
        return toc[:k] + r.choice('ax -.') + toc[k + 1:]
    if x == 7:
        lines[j], lines[-1] = lines[-1], lines[j]
    elif x == 8:
        del lines[j]
    elif x == 9:
        lines.insert(j, lines[j])
    elif x == 10:
        lines.insert(j, r.choice(['', ' ', '<!-- x -->', '- z']))
    elif x == 11:
        lines[j] = lines[j] + r.choice([' ', '  ', '\t', '\x0b', '\u00a0', '\\'])
    elif x == 12:
        lines[j] = r.choice(['', ' ', '  ']) + lines[j].lstrip(' ')
    else:
        lines.reverse()
    return '\n'.join(lines) + '\n'


def near_jobs(check, name, count):
    """Blocks which are nearly the table."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for _ in range(count):
        marker = r.choice(MARKERS)
        ordered = r.random() < 0.3
        toc = ''
        for k in range(r.choice([1, 2, 3, 5, 9, 14])):
            t = gen.soup(r, ['item ', 'Part', ' ', 'a & b', '&amp;', '\u00e9', 'e\u0301', '*x*', '_y_', '"q"', '\\[',
                             '1', '-', '`c`', '<b>', '\u212b', '%20', '\u00df', 'I', '\u0130'], 1, 4).strip() or 'x'
            toc += '%s%s [%s](#%s)\n' % ('  ' * r.choice([0, 0, 1]) * (k > 0),
                                        '%d.' % (k + 1) if ordered else '-', t,
                                        t.lower().replace(' ', '-'))
        block = edited(r, toc) if r.random() < 0.9 else edited(r, edited(r, toc) or 'x')
        before = [r.choice(['', 'x', '# a', 'a\x85b', '\u2028', 'y\x0c', '\x1c', 'p\x0bq', 'é'])
                  for _ in range(r.randint(0, 4))]
        lines = before + [marker, ''] + block.rstrip('\n').split('\n') + ['', marker] + before[:2]
        style = r.choice(relations.NEWLINES + ['\n', '\n'])
        jobs.append((relations.encode(r, lines, style), toc.replace('\n', r.choice(relations.NEWLINES)), marker,
                     r.choice(relations.NEWLINES)))
    return jobs


def big_jobs(check, name, count):
    """Files of thousands of lines, with the block anywhere, and long tables."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for _ in range(count):
        marker = r.choice(MARKERS)
        toc = toc_text(r)
        if r.random() < 0.5:
            n = r.choice([64, 100, 128, 256, 400])
            toc = ''.join('%s [x%d](#x%d)\n' % (r.choice('-+*'), k, k) for k in range(n))

        def some():
            n = r.choice([0, 1, 3, 64, 100, 255, 256, 512, 1000, 1024, r.randint(50, 1500)])
            return [r.choice(['', '', 'x', '# a', 'é', '- x', 'text', marker + 'x', 'y ' * 9])
                    for _ in range(n)] if n < 600 else \
                [r.choice(['', 'x'])] * n
        if r.random() < 0.15:
            wide = r.choice(['é' * 5000, 'x' * 8191, 'x ' * 4096, '日' * 3000, 'ab' * 9000,
                             'x' * r.choice([65535, 65536, 65537, 70001])])
            lines = [wide[:20000]] + [marker] + [wide]
        else:
            lines = some() + file_lines(r, marker, toc)[:8] + \
                r.choice([[marker], [marker, '', marker], [marker, ''] + some() + ['', marker],
                          [marker, ''] + toc.rstrip().split('\n') + ['', marker]]) + some()
        if len(jobs) % 10 == 3:
            # Many markers which enclose no table before the block.
            lines = [l for _ in range(r.choice([5, 9, 12, 20, 40]))
                     for l in [marker] + r.choice([['x', 'y', 'z'], ['a'], ['', 'b', 'c', ''], ['# h']])] + \
                [marker, ''] + toc.rstrip().split('\n')[:3] + ['', marker] + ['end', marker]
        if len(jobs) % 10 == 6:
            # The block is far from the start.
            lines = ['x'] * r.choice([2000, 2047, 2048, 3000, 4100, 5000]) + [marker, '', marker, 'y', marker]
        style = r.choice(['\n', '\n', '\r\n', '\r'])
        if len(jobs) % 5 == 4:
            style = r.choice(['\r\n', '\r\n', '\r'])
            raw = relations.across(r, [marker] + file_lines(r, marker, toc)[:6], style,
                                   r.choice(relations.BUFFERS[:8]))
        else:
            raw = relations.encode(r, lines, style)
        nl = r.choice(relations.NEWLINES) if check.prop == 'C16' else '\n'
        jobs.append((raw, toc, marker, nl))
    return jobs
