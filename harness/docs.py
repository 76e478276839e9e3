"""Documents: TocBuilder bound to build_toc."""

import json
import os

import core
import gen
import impl
import tlc

INVARIANTS = ['TypeOK', 'InvC01', 'InvC04', 'InvC06', 'InvC07', 'InvC08', 'InvC09', 'InvC21',
              'InvSeen']


def opt(fam, **kw):
    o = dict(fam=fam, ordered=False, const=False, mark=ord('-'), links=True, indent=True,
             coherent=True, keep=6, skip=0)
    o.update(kw)
    if isinstance(o['mark'], str):
        o['mark'] = ord(o['mark'])
    return o


# ---- spec -> code --------------------------------------------------------
def compare(exp_status, exp_entries, act, links, newline='\n'):
    """The clauses in which a run differs from the expected one."""
    kind, value = act
    if kind == 'exc':
        return {'exception'}, value
    status = 'ok' if kind == 'ok' else value
    if status != exp_status:
        return {'status'}, status
    if status != 'ok':
        return set(), status
    entries = impl.project(value, links, newline)
    if entries is None:
        return {'malformed'}, value
    if len(entries) != len(exp_entries):
        return {'count'}, value
    bad = set()
    for e, a in zip(exp_entries, entries):
        if e[2] != a[2]:
            bad.add('label')
        if e[3] != a[3]:
            bad.add('anchor')
        if e[1] != a[1]:
            bad.add('marker')
        elif e[0] != a[0] and 'marker' not in bad:
            bad.add('indent')
    return bad, value


def _replay(batch, conf):
    """Replay documents printed by MCDoc."""
    path = os.path.join(core.work(), 'd.md')
    lines = [impl.text(x) for x in conf['lines']]
    probe = impl.text(conf['probe'])
    out = []
    runs = 0
    for raw in batch:
        r = json.loads(raw)
        o = conf['opts'][r['o'] - 1]
        doc = []
        for k, i in enumerate(r['h']):
            doc.append(lines[i - 1])
            if probe:
                doc.append(probe + str(k + 1))
        entries = [[t[0], impl.text(t[1]), impl.text(t[2]), impl.text(t[3])] for t in r['t']]
        content = '\n'.join(doc) + '\n' if doc else ''
        impl.write(path, content)
        for parser in impl.PARSERS[o['fam']]:
            act = impl.build(path, o, parser)
            runs += 1
            bad, seen = compare(r['s'], entries, act, o['links'])
            if bad:
                out.append(dict(parser=parser, opt=o, lines=doc, expected=[r['s'], entries],
                                actual=seen, clauses=sorted(bad)))
    return runs, out


def relative_to_skip(b):
    """Whether skipping lines and deleting them give different results (C21)."""
    path = os.path.join(core.work(), 's.md')
    n = b['opt']['skip']
    res = []
    for lines, skip in ((b['lines'], n), (b['lines'][n:], 0)):
        impl.write(path, ''.join(x + '\n' for x in lines))
        res.append(impl.build(path, dict(b['opt'], skip=skip), b['parser']))
    return res[0] != res[1]


def explore(check, name, conf, clauses, invariants=INVARIANTS, keep=None, replay=None):
    """Explore MCDoc exhaustively and replay every complete document."""
    path = os.path.join(check.scratch, 'mcdoc.json')
    conf = dict(conf)
    conf.setdefault('probe', '')
    conf['lines'] = [impl.cps(x) for x in conf['lines']]
    conf['probe'] = impl.cps(conf['probe'])
    with open(path, 'w') as f:
        json.dump(conf, f)
    pending = []
    batch = []
    last = []

    def flush():
        if batch:
            last[:] = batch[-2:]
            pending.append(check.workers().apply_async(replay or _replay, (list(batch), conf)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 400:
            flush()

    check.workers()
    cfg = 'SPECIFICATION MCSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nPROPERTY InvC03\n'
    cfg += ''.join('INVARIANT %s\n' % i for i in invariants)
    res = tlc.run('MCDoc', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    runs = 0
    bads = []
    for p in pending:
        n, out = p.get()
        runs += n
        bads.extend(out)
    check.tlc(name, res)
    if keep:
        bads = [b for b in bads if keep(b)]
    collect(check, name, 'doc', bads, clauses)
    for x in last[-2:]:
        r = json.loads(x)
        check.example(dict(stage=name, options=conf['opts'][r['o'] - 1],
                           lines=[impl.text(conf['lines'][i - 1]) for i in r['h']],
                           status=r['s'], entries=len(r['t'])))
    check.traces += runs
    check.part(name, replayed=runs)
    return runs


def collect(check, name, kind, bads, clauses):
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        hit = set(b['clauses']) & set(clauses)
        if 'exception' in b['clauses']:
            hit.add('exception')
        if hit:
            check.fail(kind, dict(b, stage=name, clauses=sorted(hit)))


# ---- code -> spec --------------------------------------------------------
def slug_of(line, parser):
    kind, v = impl.call(impl.api.get_md_header, line, {}, 6, parser, False)
    if kind == 'ok' and v and v[0] is not None:
        return v[0]['text_anchor_link']
    return ''


def record(lines, o, parser, act=None, slugs=None):
    """Run build_toc and give the trace of the run, or the failure."""
    if act is None:
        path = os.path.join(core.work(), 'd.md')
        content = '\n'.join(lines) + '\n' if lines else ''
        impl.write(path, content)
        act = impl.build(path, o, parser)
    if act[0] == 'exc':
        return None, dict(parser=parser, opt=o, lines=lines, actual=act[1],
                          clauses=['exception'])
    entries = []
    status = 'ok'
    if act[0] == 'ok':
        entries = impl.project(act[1], o['links'])
        if entries is None:
            return None, dict(parser=parser, opt=o, lines=lines, actual=act[1],
                              clauses=['malformed'])
    else:
        status = act[1]
    trace = dict(opt=o, lines=[impl.cps(x) for x in lines], status=status,
                 entries=[[e[0], impl.cps(e[1]), impl.cps(e[2]), impl.cps(e[3])]
                          for e in entries],
                 slugs=[impl.cps(slug_of(x, slugs or parser)) if o['links'] else []
                        for x in lines],
                 squeeze=slugs == 'cmark', parser=parser)
    return trace, None


def _record_batch(jobs):
    return [record(*j) for j in jobs]


def _record_many(jobs):
    """Runs of build_multiple_tocs: (list of documents, options, parser)."""
    out = []
    for group, o, parser in jobs:
        paths = []
        for k, doc in enumerate(group):
            paths.append(os.path.join(core.work(), 'm%d.md' % k))
            impl.write(paths[-1], '\n'.join(doc) + '\n' if doc else '')
        kind, v = impl.call(impl.api.build_multiple_tocs, list(paths),
                            **impl.api_options(o, parser))
        if kind == 'ok' and len(v) == len(group):
            for doc, toc in zip(group, v):
                out.append(record(doc, o, parser, ('ok', toc)))
        elif kind != 'err':
            out.append((None, dict(parser=parser, opt=o, lines=group, actual=[kind, v],
                                   clauses=['exception'])))
    return out


def fresh_counters(check, name, count, vocab):
    """C06: nothing is carried from a document to the next one."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o.update(links=True, coherent=False)
        group = [gen.document(r, size=r.randint(0, 6), vocab=vocab, fences=0.05)
                 for _ in range(r.randint(2, 4))]
        if r.random() < 0.5:
            group[-1] = list(group[0])
        jobs.append((group, o, parser))
    validate(check, name, jobs, {'anchor'}, recorder=_record_many)


def _record_headers(jobs):
    """The headers of a string of several lines, as if they were entries."""
    out = []
    for doc, o, parser, cut in jobs:
        toc = []
        counter = {}
        act = None
        # the same counter goes on from a string to the next one
        for part in (doc[:cut], doc[cut:]):
            kind, v = impl.call(impl.api.get_md_header, '\n'.join(part), counter, o['keep'], parser,
                                not o['links'])
            if kind != 'ok':
                act = (kind, v)
                break
            for h in v:
                if h is not None and h['visible']:
                    toc.append('- [%s](#%s)\n' % (h['text_original'], h['text_anchor_link'])
                               if o['links'] else '- %s\n' % h['text_original'])
        out.append(record(doc, o, parser, act or ('ok', ''.join(toc))))
    return out


def headers(check, name, count, clauses, links, **kw):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        doc = gen.document(r, fences=0, **kw)
        o = opt(impl.FAMILY[parser], indent=False, keep=r.choice([1, 2, 3, 6]),
                links=links or r.random() < 0.5)
        jobs.append((doc, o, parser, r.choice([0, 0, len(doc) // 2, len(doc)])))
    validate(check, name, jobs, clauses, recorder=_record_headers)


def alike(r, count):
    """Different words which have the same short checksums."""
    import hashlib
    import zlib
    sums = [lambda b: zlib.crc32(b), lambda b: zlib.adler32(b),
            lambda b: hashlib.sha1(b).hexdigest()[:8], lambda b: hashlib.sha1(b).hexdigest()[-8:],
            lambda b: hashlib.md5(b).hexdigest()[:8], lambda b: hashlib.sha256(b).hexdigest()[:8],
            lambda b: sum(b), lambda b: bytes(sorted(b))]
    words = {''.join(r.choices('abcdefghijklmnopqrstuvwxyz', k=r.choice([6, 7, 8, 9])))
             for _ in range(count)}
    out = []
    for f in sums:
        seen = {}
        found = 0
        for w in sorted(words):
            v = f(w.encode())
            if v in seen:
                out += [seen[v], w]
                found += 1
                if found > 12:
                    break
            seen[v] = w
    return list(dict.fromkeys(out))


def _record_crowd(jobs):
    out = []
    for names, parser in jobs:
        path = os.path.join(core.work(), 'd.md')
        impl.write(path, ''.join('# ' + x + '\n' for x in names))
        kind, v = impl.call(impl.api.build_toc, path, parser=parser, limit=120.0)
        if kind == 'ok':
            v = impl.project(v, True)
            v = None if v is None else [e[3] for e in v]
        out.append((parser, names, v if kind == 'ok' else [kind, v]))
    return out


def crowds(check, name, count, size):
    """C06: thousands of different headings do not disturb each other."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    near = alike(r, 220000 if check.quick else 700000)
    jobs = []
    for k in range(count):
        names = list(near)
        n = r.randint(size // 2, size)
        while len(names) < n:
            names.append(r.choice(['x', 'ab', 'h']) + '%d' % r.randrange(10 ** r.choice([4, 6, 9])))
        if k % 2:
            r.shuffle(names)
        jobs.append((list(dict.fromkeys(names)), impl.ALL_PARSERS[k % 5]))
    parts = [check.workers().apply_async(_record_crowd, ([j],)) for j in jobs]
    got = [x for p in parts for x in p.get()]
    path = os.path.join(check.scratch, 'crowds.ndjson')
    kept = []
    with open(path, 'w') as f:
        for parser, names, anchors in got:
            if anchors is None or anchors[:1] in (['exc'], ['err']) or len(anchors) != len(names):
                check.fail('crowd', dict(parser=parser, headings=len(names), stage=name,
                                         clauses=['exception'], actual=str(anchors)[:80]))
                continue
            kept.append((parser, names, anchors))
            f.write(json.dumps(dict(slugs=names, anchors=anchors)) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1]

    if kept:
        res = tlc.run('TraceCrowd', 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                      'INVARIANT Different\n', check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d traces, %d consumed' % (len(kept), len(seen)))
    for k, wrong in seen.items():
        parser, names, anchors = kept[k - 1]
        for i in wrong[:5]:
            check.fail('crowd', dict(parser=parser, headings=len(names), stage=name, at=i,
                                     heading=names[i - 1], anchor=anchors[i - 1], clauses=['anchor'],
                                     lines=['# ' + x for x in names[:i]]))
    check.traces += len(kept)
    check.cases += len(jobs)
    check.part(name, traces=len(kept), headings=sum(len(x[1]) for x in kept))


def _record_many_lines(jobs):
    out = []
    for levels, words, keep, parser, links in jobs:
        path = os.path.join(core.work(), 'd.md')
        impl.write(path, ''.join(('#' * l + ' ' if l else '') + w + '\n'
                                 for l, w in zip(levels, words)))
        kind, v = impl.call(impl.api.build_toc, path, parser=parser, keep_header_levels=keep,
                            no_links=not links, no_indentation=True, limit=240.0)
        if kind == 'ok':
            v = impl.project(v, links)
            v = v if v is None else [e[2] for e in v]
        else:
            v = [kind, v]
        out.append(v)
    return out


def thousands(check, name, sizes):
    """C01: documents of tens of thousands of lines."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k, size in enumerate(sizes):
        prose = r.choice([0, 0.05, 0.5, 0.999])
        levels, words = [], []
        for i in range(size):
            if r.random() < prose and i != size - 1:
                levels.append(0)
                words.append(r.choice(['', 'text', 'x # y', '- a', '#b']))
            else:
                levels.append(r.choice([1, 1, 1, 2, 3, 6]) if i != size - 1 else 1)
                words.append('a%d' % r.randrange(10 ** r.choice([1, 3, 6])))
        jobs.append((levels, words, r.choice([1, 3, 6]), impl.ALL_PARSERS[(k + check.seed) % 6],
                     k % 2 == 0))
    got = [x for p in [check.workers().apply_async(_record_many_lines, ([j],)) for j in jobs]
           for x in p.get()]
    path = os.path.join(check.scratch, 'many.ndjson')
    kept = []
    with open(path, 'w') as f:
        for job, labels in zip(jobs, got):
            if labels is None or labels[:1] in (['exc'], ['err']):
                check.fail('many', dict(parser=job[3], keep=job[2], stage=name, size=len(job[0]),
                                        clauses=['exception'], actual=str(labels)[:80]))
                continue
            kept.append((job, labels))
            f.write(json.dumps(dict(keep=job[2], levels=job[0], words=job[1], labels=labels)) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1]

    if kept:
        res = tlc.run('TraceMany', 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                      check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d traces, %d consumed' % (len(kept), len(seen)))
    for k, at in seen.items():
        (levels, words, keep, parser, links), labels = kept[k - 1]
        if at:
            check.fail('many', dict(parser=parser, keep=keep, links=links, stage=name, first_wrong=at,
                                    headings=sum(1 for x in levels if 1 <= x <= keep),
                                    entries=len(labels), clauses=['count'], levels=levels,
                                    words=words))
    check.traces += len(kept)
    check.cases += len(jobs)
    check.part(name, traces=len(kept), lines=sum(len(j[0]) for j, _ in kept))


def _record_siblings(jobs):
    out = []
    for doc, parser, mark in jobs:
        path = os.path.join(core.work(), 'd.md')
        impl.write(path, ''.join(x + '\n' for x in doc))
        kind, v = impl.call(impl.api.build_toc, path, parser=parser, ordered=True, no_links=True,
                            list_marker=mark, limit=120.0)
        if kind == 'ok':
            v = impl.project(v, False)
        groups = []
        if kind == 'ok' and v is not None:
            for ind, marker, label, _ in v:
                if label == 'a':
                    groups.append(dict(marker=marker, ind=ind, inner=[]))
                elif groups:
                    groups[-1]['inner'].append([ind, marker])
        out.append((parser, doc, mark, groups if kind == 'ok' and v is not None else [kind, v]))
    return out


def siblings(check, name, count, part):
    """C07, C08: lists of thousands of entries, some with a sublist."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        n = r.choice([1010, 1100, 3000, 10005, 10100])
        doc = []
        for i in range(1, n + 1):
            doc.append('# a')
            if i % 100 in (0, 1, 99) or i < 12 or r.random() < 0.02:
                doc += ['## b'] * r.choice([0, 1, 2])
        parser = impl.ALL_PARSERS[k % 6]
        jobs.append((doc, parser, '.' if parser == 'redcarpet' else r.choice('.)')))
    got = [x for p in [check.workers().apply_async(_record_siblings, ([j],)) for j in jobs]
           for x in p.get()]
    path = os.path.join(check.scratch, 'siblings.ndjson')
    kept = []
    with open(path, 'w') as f:
        for parser, doc, mark, groups in got:
            if len(groups) != doc.count('# a'):
                # the entries themselves are those of C01 and C17
                continue
            kept.append((parser, doc, mark, groups))
            f.write(json.dumps(dict(fam=impl.FAMILY[parser], mark=mark, groups=groups)) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1:]

    if kept:
        res = tlc.run('TraceSiblings', 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n',
                      check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d traces, %d consumed' % (len(kept), len(seen)))
    for k, (outer, inner) in seen.items():
        parser, doc, mark, groups = kept[k - 1]
        for i in (outer if part == 'outer' else inner)[:5]:
            check.fail('siblings', dict(parser=parser, mark=mark, stage=name, at=i, entry=groups[i - 1],
                                        clauses=['marker' if part == 'outer' else 'indent'], lines=doc))
    check.traces += len(kept)
    check.cases += len(jobs)
    check.part(name, traces=len(kept), headings=sum(len(x[1]) for x in kept))


def _record_gitlab(jobs):
    """Each document with cmark and with gitlab."""
    out = []
    for k, doc, o in jobs:
        for parser in ('cmark', 'gitlab'):
            trace, failure = record(doc, dict(o, fam=impl.FAMILY[parser]), parser,
                                    slugs='cmark' if parser == 'gitlab' else None)
            (trace or failure)['pair'] = k
            out.append((trace, failure))
    return out


def gitlab(check, name, count):
    """C22: gitlab differs from cmark only in the collapsed hyphens."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    vocab = ['a', 'a - a', 'a -- a', 'a-a', 'A - A', 'a--a', '-', '- -', 'b', 'a - a - a', 'a -',
             '&', 'a & a', '_a_ - b']
    for k in range(count):
        o = gen.options(r, 'cm')
        o['coherent'] = r.random() < 0.4
        if k % 2:
            doc = gen.document(r, vocab=vocab, fences=0.03)
        else:
            doc = gen.document(r, rich=0.7)
        jobs.append((k, doc, o))
    validate(check, name, jobs, {'count', 'label', 'anchor', 'marker', 'indent', 'status',
                                 'malformed'}, recorder=_record_gitlab, judge=_only_gitlab)


def _only_gitlab(bads):
    """The documents on which cmark is right and gitlab is not."""
    wrong = {b['pair'] for b in bads if b['parser'] == 'cmark'}
    return [b for b in bads if b['parser'] == 'gitlab' and b['pair'] not in wrong]


def validate(check, name, jobs, clauses, shape=True, recorder=_record_batch, judge=None):
    """Record runs of build_toc for (lines, options, parser) and validate them."""
    traces = []
    bads = []
    pairs = []
    parts = [check.workers().apply_async(recorder, (b,)) for b in core.batches(jobs, 200)]
    for p in parts:
        for trace, failure in p.get():
            if trace is not None:
                pairs.append(trace.pop('pair', None))
                traces.append(trace)
            else:
                bads.append(failure)
    path = os.path.join(check.scratch, 'traces.ndjson')
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v['t']] = v

    cfg = 'SPECIFICATION TraceSpec\nVIEW TraceView\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT Complete\n'
    if shape:
        cfg += 'INVARIANT Shape\n'
    if traces:
        res = tlc.run('TraceDoc', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(traces) and not res.broken:
            raise tlc.TlcError('%d traces, %d consumed' % (len(traces), len(seen)))
    for k, v in seen.items():
        if v['b']:
            t = traces[k - 1]
            bads.append(dict(parser=t['parser'], opt=t['opt'],
                             lines=[impl.text(x) for x in t['lines']],
                             spec_status=v['s'], status=t['status'],
                             entries=[[e[0]] + [impl.text(x) for x in e[1:]]
                                      for e in t['entries']],
                             pair=pairs[k - 1], clauses=v['b']))
    if judge:
        bads = judge(bads)
    collect(check, name, 'doc', bads, clauses)
    for t in traces[:2]:
        check.example(dict(stage=name, parser=t['parser'], options=t['opt'],
                           lines=[impl.text(x) for x in t['lines']], status=t['status'],
                           entries=len(t['entries'])))
    check.traces += len(traces)
    check.cases += len(jobs)
    check.part(name, traces=len(traces))


def random_jobs(check, name, count, fams=None, opts=None, **kw):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    parsers = [p for p in impl.ALL_PARSERS if fams is None or impl.FAMILY[p] in fams]
    for k in range(count):
        parser = parsers[k % len(parsers)]
        o = gen.options(r, impl.FAMILY[parser])
        if opts:
            o.update(opts(r))
        jobs.append((gen.document(r, **kw), o, parser))
    return jobs
