"""Histories of in-place runs and edits: MCRun and TraceRun."""

import json
import os

import core
import files
import gen
import impl
import relations
import tlc

api = impl.api


def in_place(path, opt, parser, marker, nl, program=False):
    """One run of md_toc -p: None if it is rejected, or its verdict."""
    if program:
        code, out, err = impl.program(impl.argv_of(
            opt, parser, [path], marker, in_place=True, diff=True,
            newline=None if nl == '\n' else nl))
        if code not in (0, 128):
            return None if code == 1 and '.exceptions.' in err else 'exception'
        return code == 0
    kind, toc = impl.build(path, opt, parser, nl)
    if kind != 'ok':
        return None if kind == 'err' else 'exception'
    kind, equal = impl.call(api.write_string_on_file_between_markers, path, toc, marker, nl)
    return equal if kind == 'ok' else 'exception'


def content(lines, nl):
    return ''.join(x + nl for x in lines)


def play(job):
    """Run a history.

    job: opt, parser, marker, nl, pre, post, form (lines), events, program.
    Gives the events with their results, or None if a run is rejected.
    """
    pre, post = list(job['pre']), list(job['post'])
    nl = job['nl']
    args = (job['opt'], job['parser'], job['marker'], nl, job['program'])
    path = os.path.join(core.work(), 'h.md')
    other = os.path.join(core.work(), 'i.md')
    impl.write(path, content(pre + job['form'] + post, nl))
    trace = []
    for e in job['events']:
        if e[0] == 'run':
            equal = in_place(path, *args)
            if equal is None:
                return None
            if equal == 'exception':
                return 'exception'
            after = impl.read(path).decode('utf-8')
            impl.write(other, content(pre + job['form'] + post, nl))
            if in_place(other, *args) in (None, 'exception'):
                return 'exception'
            fresh = impl.read(other).decode('utf-8')
            trace.append(dict(kind='run', after=after, equal=equal, fresh=fresh))
        else:
            kind, side, i, x = e
            lines = impl.read(path).decode('utf-8').split(nl)[:-1]
            a, b = len(pre), len(lines) - len(post)
            if lines[:a] != pre or lines[b:] != post or b < a:
                # The lines around the table of contents are lost.
                trace.append(dict(kind='edit', after=content(lines, nl), equal=False, fresh='lost'))
                return trace
            block = lines[a:b]
            q = pre if side == 1 else post
            if kind == 'insert':
                q.insert(i - 1, x)
            else:
                del q[i - 1]
            text = content(pre + block + post, nl)
            impl.write(path, text)
            trace.append(dict(kind='edit', after=text, equal=False, fresh=''))
    return trace


def _play(jobs):
    return [play(j) for j in jobs]


def validate(check, name, jobs):
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_play, (b,))) for b in core.batches(jobs, 50)]
    kept = []
    rejected = 0
    path = os.path.join(check.scratch, 'runs.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for job, trace in zip(b, p.get()):
                if trace is None:
                    rejected += 1
                    continue
                if trace == 'exception':
                    check.fail('run', dict(job, stage=name, clauses=['exception']))
                    continue
                kept.append((job, trace))
                f.write(json.dumps([dict(e, after=impl.cps(e['after']), fresh=impl.cps(e['fresh']))
                                    for e in trace]) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1] if len(v) > 1 else []

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    if kept:
        res = tlc.run('TraceRun', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d histories, %d consumed' % (len(kept), len(seen)))
    bads = []
    for k, bad in seen.items():
        job, trace = kept[k - 1]
        if bad:
            bads.append(dict(job, trace=trace, clauses=sorted(bad)))
        if 'expect' in job and trace[-1]['after'] != job['expect'][0]:
            # Not convergence: the file is not the one of the specification.
            check.part(name, unexpected=1)
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('run', dict(b, stage=name))
    for job, trace in kept[:2]:
        check.example(dict(job, stage=name, trace=trace))
    check.traces += len(kept)
    check.part(name, histories=len(kept), rejected=rejected)


def explore(check, name, conf):
    """Every history of MCRun, replayed."""
    conf = dict(conf)
    conf.setdefault('marker', files.MARKER)
    coded = dict(conf, lines=[impl.cps(x) for x in conf['lines']], marker=impl.cps(conf['marker']),
                 forms=[[impl.cps(x) for x in f] for f in conf['forms']])
    path = os.path.join(check.scratch, 'mcrun.json')
    with open(path, 'w') as f:
        json.dump(coded, f)
    jobs = []

    def sink(text):
        v = json.loads(text)
        pre, post = v['p'], v['q']
        for e in reversed(v['h']):
            if e[0] != 'run':
                q = pre if e[1] == 1 else post
                if e[0] == 'insert':
                    del q[e[2] - 1]
                else:
                    q.insert(e[2] - 1, e[3])
        lines = conf['lines']
        events = [e if e[0] == 'run' else [e[0], e[1], e[2], lines[e[3] - 1]] for e in v['h']]
        for parser in impl.PARSERS[v['o']['fam']][:1]:
            jobs.append(dict(opt=v['o'], parser=parser, marker=conf['marker'], nl='\n',
                             pre=[lines[k - 1] for k in pre], post=[lines[k - 1] for k in post],
                             form=conf['forms'][v['m'] - 1], events=events, program=False,
                             expect=[impl.text(v['c']), v['v']]))

    cfg = 'SPECIFICATION RunSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in ('InvPlace', 'InvStable', 'InvFresh', 'InvVerdict'))
    res = tlc.run('MCRun', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    check.tlc(name, res)
    validate(check, name, jobs)


def heading_line(r, level):
    t = gen.heading_text(r, 0.4).strip(' \t#\\\x0b\x0c\u00a0\u2003\u3000\u200a') or 'a'
    return '#' * level + ' ' + t


def random_jobs(check, name, count):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        fam = impl.FAMILY[parser]
        o = gen.options(r, fam)
        o.update(links=True, skip=0, coherent=r.random() < 0.5)
        if o['coherent']:
            o['indent'] = r.random() < 0.5
        # A redcarpet table of contents starting deeper than level one is not
        # found again (known finding): it is not generated here.
        top = fam == 'rc' and o['indent']
        program = r.random() < 0.3
        if program:
            o['keep'] = min(o['keep'], 6)

        def line(fence=True):
            x = r.random()
            if x < 0.6:
                return heading_line(r, 1 if top else r.randint(1, 4))
            if x < 0.75 and fence:
                return r.choice(['```', '~~~', '````', '``` x'])
            return r.choice(['', 'text', '- item', '1. one', '<!-- TOC -->', '    code', '* * *', '-'])

        marker = r.choice(files.MARKERS[:4] + ['TOC', '[](TOC)', '$x^', '<!--é-->'])
        pre = [line() for _ in range(r.randint(0, 4))]
        post = [line() for _ in range(r.randint(0, 5))]
        form = r.choice([[marker], [marker], [marker, marker], [marker, '', marker],
                         [marker, '', '', marker], [' ' + marker + ' '], [marker, '', ' ', '', marker]])
        events = [['run'], ['run']]
        a, b = len(pre), len(post)
        for _ in range(r.randint(0, 3)):
            side = r.choice([1, 2])
            size = a if side == 1 else b
            if size and r.random() < 0.4:
                events.append(['delete', side, r.randint(1, size), ''])
                size -= 1
            else:
                events.append(['insert', side, r.randint(1, size + 1), line()])
                size += 1
            if side == 1:
                a = size
            else:
                b = size
            if r.random() < 0.7:
                events.append(['run'])
        events += [['run'], ['run']]
        yield dict(opt=o, parser=parser, marker=marker, nl=r.choice(['\n', '\n', '\r\n', '\r']),
                   pre=pre, post=post, form=form, events=events, program=program)


def long_jobs(check, name, count):
    """Files with many headings."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o.update(links=True, skip=0, coherent=False)
        top = impl.FAMILY[parser] == 'rc' and o['indent']
        size = r.choice([9, 12, 60, 120, 300])
        words = [gen.soup(r, ['a', 'b', ' c', '-', 'é', ' [d]'], 1, r.choice([2, 12])).strip(' -') or 'a'
                 for _ in range(20)]
        post = ['#' * (1 if top else r.randint(1, 3)) + ' ' + r.choice(words) for _ in range(size)]
        marker = r.choice(files.MARKERS[:4])
        events = [['run'], ['run'], ['insert', 2, r.randint(1, size), '# new'], ['run'],
                  ['delete', 2, r.randint(1, size), ''], ['run'], ['run']]
        yield dict(opt=o, parser=parser, marker=marker, nl=r.choice(['\n', '\n', '\r\n']),
                   pre=[], post=post, form=[marker], events=events, program=False)


def finding(check, name):
    """The known finding: a redcarpet table of contents whose first entry is indented."""
    import docs
    job = dict(opt=docs.opt('rc'), parser='redcarpet', marker=files.MARKER, nl='\n',
               pre=[], post=['## a'], form=[files.MARKER], events=[['run'], ['run']],
               program=False)
    validate(check, name, [job])
