"""Runs on several files and of the program: Program and Cli bound to the code."""

import json
import os
import random
import shutil
import subprocess
import sys

import core
import files
import gen
import impl
import relations
import tlc

api = impl.api
OTHER = ('other.md', b'# other\n<!--TOC-->\n')


def lay(where, contents):
    """A directory with the files of contents, {name: bytes}."""
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    for name, data in list(contents.items()) + [OTHER]:
        if data is not None and name != '-':
            path = os.path.join(where, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(data)


def found(where):
    """The contents of all the files."""
    out = {}
    for base, _, names in os.walk(where):
        for n in names:
            path = os.path.join(base, n)
            out[os.path.relpath(path, where)] = impl.read(path)
    return out


norm = os.path.normpath


class inside:
    """Run with a directory as the current one."""

    def __init__(self, where):
        self.where = where

    def __enter__(self):
        os.chdir(self.where)

    def __exit__(self, *_):
        os.chdir('/')


def library(job, where):
    """What the library gives for each file alone, one after the other.

    job: contents, names, opt, parser, nl, marker, inplace.  Gives the list of
    [status, toc, equal] and the contents after the writes.
    """
    lay(where, job['contents'])
    out = []
    with inside(where):
        for name in job['names']:
            if name == '-':
                got = impl.build_stdin(job['contents'].get('-') or b'', job['opt'], job['parser'],
                                       job['nl'])
            else:
                got = impl.build(name, job['opt'], job['parser'], job['nl'])
            out.append([got[0] if got[0] == 'ok' else got[1], got[1] if got[0] == 'ok' else '', True])
        if '-' not in job['names'] and all(x[0] == 'ok' for x in out):
            for x, name in zip(out, job['names']):
                if job['inplace']:
                    got = impl.call(api.write_string_on_file_between_markers, name, x[1],
                                    job['marker'], job['nl'])
                else:
                    got = impl.call(api.tocs_equal, x[1], name, job['marker'])
                if got[0] != 'ok' or not isinstance(got[1], bool):
                    return None
                x[2] = got[1]
        elif not job['inplace'] and all(x[0] == 'ok' for x in out):
            for x, name in zip(out, job['names']):
                if name != '-':
                    got = impl.call(api.tocs_equal, x[1], name, job['marker'])
                    if got[0] != 'ok':
                        return None
                    x[2] = got[1]
    return out, found(where)


def real(argv, where, stdin):
    """Run the program in another process."""
    p = subprocess.run([sys.executable, '-m', 'md_toc'] + argv, cwd=where, input=stdin,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                       env=dict(os.environ, PYTHONPATH=impl.REPO))
    return p.returncode, p.stdout.decode('utf-8'), p.stderr.decode('utf-8', 'replace')


def run(job):
    """Run the program and give the record of the run.

    job, besides the arguments of library: argv, bad, diff, process.
    """
    base = core.work()
    if job['bad']:
        lib, after = [['ok', '', True] for _ in job['names']], {}
    else:
        got = library(job, os.path.join(base, 'lib'))
        if got is None:
            return None
        lib, after = got
        if job.get('api') and any(x[0] != 'ok' for x in lib):
            return None
    where = os.path.join(base, 'run')
    lay(where, job['contents'])
    stdin = job['contents'].get('-') or b''
    if job.get('api'):
        with inside(where):
            code, out, err = write_all(job, [t for _, t, _ in lib])
    elif job.get('process'):
        code, out, err = real(job['argv'], where, stdin)
    else:
        with inside(where):
            code, out, err = impl.program(job['argv'], stdin)
    now = found(where)
    names = job['names']
    kept, written = [], []
    for name in names:
        first = job['contents'].get(name)
        kept.append(True if name == '-' else now.get(norm(name)) == first)
        written.append(name != '-' and now.get(norm(name)) == after.get(norm(name)))
    inputs = {norm(n) for n in names}
    others = {n: d for n, d in now.items() if n not in inputs} == \
        {norm(n): d for n, d in list(job['contents'].items()) + [OTHER]
         if norm(n) not in inputs and n != '-' and d is not None}
    return dict(
        cmd=dict(inplace=job['inplace'], diff=job['diff'], bad=job['bad'], files=names,
                 lib=[dict(status=s, toc=impl.cps(t), equal=e) for s, t, e in lib]),
        seen=dict(code=code if isinstance(code, int) else -1, out=impl.cps(out), kept=kept,
                  written=written, others=others),
        errors=err[-300:])


def write_all(job, tocs):
    """Write the files with the library: the exit status says what happened."""
    strings = list(tocs)
    names = list(job['names'])
    kind, v = impl.call(api.write_strings_on_files_between_markers, names, strings,
                        job['marker'], job['nl'])
    if kind == 'ok' and isinstance(v, bool):
        return (0 if v else 128), '', ''
    return (1 if (kind, v) == ('err', 'stdin') else -1), '', str(v)


def _run(jobs):
    return [run(j) for j in jobs]


def shown(job):
    return dict(argv=job['argv'], names=job['names'], process=bool(job.get('process')),
                api=bool(job.get('api')), inplace=job['inplace'],
                contents={n: d.decode('utf-8', 'replace') if d is not None else None
                          for n, d in job['contents'].items()})


def validate(check, name, jobs, wanted):
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_run, (b,))) for b in core.batches(jobs, 50)]
    kept = []
    skipped = 0
    path = os.path.join(check.scratch, 'programs.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for job, rec in zip(b, p.get()):
                if rec is None:
                    # The library itself fails: not a matter of the program.
                    skipped += 1
                    continue
                kept.append((job, rec))
                f.write(json.dumps(dict(cmd=rec['cmd'], seen=rec['seen'])) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1:]

    cfg = ('SPECIFICATION TraceSpec\nVIEW TraceView\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n' +
           ''.join('INVARIANT %s\n' % i for i in INVARIANTS))
    if kept:
        res = tlc.run('TraceProgram', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    bads = []
    for k, v in seen.items():
        if v and set(v[0]) & set(wanted):
            job, rec = kept[k - 1]
            bads.append(dict(shown(job), clauses=sorted(set(v[0]) & set(wanted)), expected=v[1],
                             code=rec['seen']['code'], out=impl.text(rec['seen']['out']),
                             lib=[[x['status'], impl.text(x['toc']), x['equal']]
                                  for x in rec['cmd']['lib']],
                             kept=rec['seen']['kept'], errors=rec['errors']))
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('program', dict(b, stage=name))
    for job, rec in kept[:2]:
        check.example(dict(shown(job), stage=name, code=rec['seen']['code']))
    check.traces += len(kept)
    check.part(name, traces=len(kept), skipped=skipped)


INVARIANTS = ['NothingIfAnyFails', 'OneEach', 'OnlyInPlace', 'NeverStdin', 'Status']

# ---- commands ------------------------------------------------------------------
M = files.MARKER
DOC = ('%s\n\n- [a](#a)\n\n%s\n# a\n## b *c*\n### d\n#### a\n##### e [f]\n###### g\n# a\n```\n# h\n'
       '```\n') % (M, M)
CONTENTS = {
    # Up to date with the default settings of github once written.
    'a.md': DOC.encode(),
    'b.md': b'# x\n<!--OTHER-->\n# y\n<!--TOC-->\n',
    'plain.md': b'# x\n## y\n',
    'fresh.md': b'<!--TOC-->\n\n- [x](#x)\n  - [y](#y)\n\n<!--TOC-->\n# x\n## y\n',
    'bad.md': b'# x\n### y\n<!--TOC-->\n',
    'crlf.md': b'# x\r\n<!--TOC-->\r\n## y\r\n',
    '-': b'# x\n## y\n',
    'missing.md': None,
}
GROUPS = [['a.md'], ['fresh.md'], ['b.md', 'fresh.md'], ['bad.md', 'a.md'], ['-'], [],
          ['fresh.md', 'missing.md'], ['crlf.md', 'plain.md'], ['fresh.md', 'a.md', '-'],
          ['plain.md'], ['fresh.md', 'bad.md']]


def command(c, names, r=None):
    """A spelling of the command c of Cli."""
    def pick(*xs):
        return xs[0] if r is None else r.choice(xs)

    def valued(short, long, v):
        forms = [[short + v], [long + '=' + v], [short, v], [long, v]]
        if v.startswith('-') and v != '-':
            forms = forms[:2]
        return forms[0] if r is None else r.choice(forms)

    head, tail, bare = [], [], []
    if 'c' in c['coh'] and c['coh'] != 'none':
        head.append([pick('-c', '--no-list-coherence')])
    if c['coh'] in ('i', 'ci'):
        head.append([pick('-i', '--no-indentation')])
    if c['links'] == 'l':
        head.append([pick('-l', '--no-links')])
    if c['marker'] != 'none':
        head.append(valued('-m', '--toc-marker', c['marker']))
    if c['nl'] != 'none':
        head.append(valued('-n', '--newline-string',
                           {'n': r'\n', 'r': r'\r', 'rn': r'\r\n'}.get(c['nl'], c['nl'])))
    if c['place'] == 'p':
        head.append([pick('-p', '--in-place')])
    if c['diff'] == 'd':
        head.append([pick('-d', '--diff')])
    if c['skip'] != 'none':
        head.append(valued('-s', '--skip-lines', c['skip']))
    for key, short, long in (('u', '-u', '--unordered-list-marker'),
                             ('o', '-o', '--ordered-list-marker'),
                             ('levels', '-l', '--header-levels')):
        if c[key] == 'bare':
            bare.append([pick(short, long)])
        elif c[key] != 'none':
            tail.append(valued(short, long, c[key]))
    if c['const'] == 'c':
        tail.append([pick('-c', '--constant-ordered-list')])
    if r is not None:
        r.shuffle(head)
        r.shuffle(tail)
        r.shuffle(bare)
    head, tail, bare = ([x for part in q for x in part] for q in (head, tail, bare))
    parser = [c['parser']] if c['parser'] != 'none' else []
    # An option without its value takes no file name for it.
    if r is not None and r.random() < 0.3:
        return head + parser + list(names) + tail + bare
    return head + parser + tail + list(names) + bare


def cli_job(v, contents, names, r, process=False):
    c = v['c']
    bad = v['b']
    o, nl = v['s'] if not bad else (None, [10])
    return dict(argv=command(c, names, r), names=list(names) or ['-'], contents=contents, opt=o,
                parser=c['parser'], nl=impl.text(nl),
                marker=M if c['marker'] == 'none' else c['marker'],
                inplace=c['place'] == 'p', diff=c['diff'] == 'd', bad=bad, process=process)


def commands(check, name, conf, wanted, share=1.0, processes=0):
    """The commands of MCCli; share: the part of those of full size that is run."""
    path = os.path.join(check.scratch, 'mccli.json')
    groups = conf.get('file_groups', GROUPS)
    with open(path, 'w') as f:
        json.dump(dict(most=conf['most'], parsers=conf['parsers'], groups=len(groups)), f)
    r = gen.rng(check.seed, check.prop, name, check.tier)
    got = []
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT TypeOK\n'
    res = tlc.run('MCCli', cfg, check.scratch, env={'MC_CONFIG': path},
                  sink=lambda t: got.append(t))
    check.tlc(name, res)
    got.sort()
    if share < 1:
        got = [t for t in got if r.random() < share]
    jobs = []
    for t in got:
        v = json.loads(t)
        names = groups[v['g'] - 1]
        jobs.append(cli_job(v, {n: CONTENTS[n] for n in list(names) + ['-']}, names, r))
    for k in range(processes):
        jobs.append(dict(r.choice(jobs), process=True))
    validate(check, name, jobs, wanted)


def random_commands(check, name, count, wanted, diff=None, inplace=None, stdin=0.1, api=0):
    """Random valid commands on random files; api: the part run with the library."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['keep'] = min(o['keep'], 6)
        if not o['indent']:
            o['coherent'] = True
        marker = r.choice([M, M, '<!--toc-->', '[](TOC)', 'T O C'])
        nl = r.choice(relations.NEWLINES + ['\n', '\n'])
        n = r.choice([1, 1, 1, 1, 2, 2, 3, 3, 3, 5, 9, 17 if r.random() < 0.3 else 4])
        contents, names = {}, []
        for j in range(n):
            doc = gen.document(r, rich=0.2, size=r.randint(0, 7), clean=r.random() < 0.7)
            x = r.random()
            if x < 0.7:
                i = r.randint(0, len(doc))
                doc[i:i] = r.choice([[marker], [marker, '', marker],
                                     [marker, '', '- [a](#a)', '', marker]])
            raw = relations.encode(r, doc, r.choice(relations.NEWLINES + [None, '\n', '\n']))
            fname = gen.name(r, j)
            names.append(fname)
            contents[fname] = raw.encode('utf-8')
        if r.random() < stdin:
            names[r.randrange(n)] = '-'
            contents['-'] = r.choice([b'', b'# a\n## b\n', b'# a\n### c\n'])
        if r.random() < 0.05:
            names.append(r.choice(names))
            if names[-1] == '-':
                names.pop()
        place = r.random() < 0.5 if inplace is None else inplace
        compare = r.random() < 0.5 if diff is None else diff
        argv = impl.argv_of(o, parser, names, None if marker == M and r.random() < 0.8 else marker,
                            place, compare, None if nl == '\n' and r.random() < 0.8 else nl, r)
        job = dict(argv=argv, names=names, contents=contents, opt=o, parser=parser, nl=nl,
                   marker=marker, inplace=place, diff=compare, bad=False)
        if r.random() < api:
            job.update(api=True, inplace=True, diff=True)
        if r.random() < 0.5:
            # Bring some of the files up to date first.
            job['contents'] = updated(r, job)
        jobs.append(job)
    validate(check, name, jobs, wanted)


def updated(r, job):
    """The contents with some tables of contents written by the library."""
    where = os.path.join(core.work(), 'up')
    contents = dict(job['contents'])
    for n in set(job['names']):
        if n != '-' and r.random() < 0.8:
            one = dict(job, names=[n], contents={n: contents[n]}, inplace=True)
            got = library(one, where)
            if got is not None:
                contents[n] = got[1][norm(n)]
    return contents


# ---- several files (C13) -----------------------------------------------------------
def alone(arg):
    """The table of contents of a file, in a process which did nothing before,
    and the content of the file once it is written."""
    name, data, opt, parser, nl = arg
    where = os.path.join(core.work(), 'alone')
    lay(where, {name: data})
    with inside(where):
        kind, toc = impl.build(name, opt, parser, nl)
        after = data
        if kind == 'ok':
            w = impl.call(api.write_string_on_file_between_markers, name, toc, M, nl)
            after = impl.read(name)
            if w[0] != 'ok':
                return 'write', toc, after
    return kind, toc, after


POOL = {
    'one.md': b'# a\n## b\n# a\n',
    'two.md': b'# a\n# a-1\n```\n# c\n```\n<!--TOC-->\n',
    'open.md': b'# a\n```\n# b\n',
    'deep.md': b'## b\n### c\n## b\n<!--TOC-->\n\n<!--TOC-->\n',
    'jump.md': b'# a\n### c\n<!--TOC-->\n',
    'empty.md': b'<!--TOC-->\n#\n',
    'none.md': b'',
    'bytes.md': b'# a\n\xff\xfe\n',
    'long.md': b'# ' + b'x' * 1000 + b'\n',
    'same.md': b'<!--TOC-->\n\n- [a](#a)\n\n<!--TOC-->\n# a\n',
    'list.md': b''.join(b'# i%d\n' % k for k in range(12)) + b'## j\n',
}
ABSENT = 'absent.md'
GOOD = ('ok', 'write')     # the table of contents is built


def together(job):
    """Build the files of a job together, or write them with the program.

    Gives the record of the run; job: names, contents, opt, parser, nl,
    inplace, singles (what alone gives for each file).
    """
    where = os.path.join(core.work(), 'multi')
    start = {n: d for n, d in list(job['contents'].items()) + [OTHER] if d is not None}
    lay(where, job['contents'])
    names = job['names']
    inputs = {norm(n) for n in names}
    tocs, failure = [], ''
    if not job['inplace']:
        with inside(where):
            kind, v = impl.call(api.build_multiple_tocs, list(names),
                                **impl.api_options(job['opt'], job['parser'], job['nl']))
        code = 0 if kind == 'ok' else 1
        if kind == 'ok':
            tocs = v
        else:
            failure = v
    else:
        with inside(where):
            code, _, _ = impl.program(impl.argv_of(
                job['opt'], job['parser'], names, M, in_place=True,
                newline=None if job['nl'] == '\n' else job['nl']))
        code = code if isinstance(code, int) else -1
    now = found(where)
    return dict(
        cmd=dict(inplace=job['inplace'], diff=False, bad=False, files=names,
                 lib=[dict(status='ok' if k in GOOD else str(t),
                           toc=impl.cps(t) if k in GOOD else [],
                           equal=True) for k, t, _ in job['singles']]),
        seen=dict(code=code, tocs=[impl.cps(t) for t in tocs], failure=str(failure),
                  kept=[now.get(norm(n)) == job['contents'].get(n) for n in names],
                  written=[now.get(norm(n)) == after
                           for n, (_, _, after) in zip(names, job['singles'])],
                  others={n: d for n, d in now.items() if n not in inputs} ==
                  {norm(n): d for n, d in start.items() if norm(n) not in inputs}))


def _together(jobs):
    return [together(j) for j in jobs]


def shown_multi(job):
    return dict(names=job['names'], opt=job['opt'], parser=job['parser'], nl=job['nl'],
                inplace=job['inplace'],
                contents={n: d.decode('utf-8', 'replace') if d is not None else None
                          for n, d in job['contents'].items()})


def validate_multi(check, name, jobs):
    parts = [(b, check.workers().apply_async(_together, (b,))) for b in core.batches(jobs, 60)]
    kept = []
    path = os.path.join(check.scratch, 'multi.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for job, rec in zip(b, p.get()):
                kept.append((job, rec))
                f.write(json.dumps(rec) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1:]

    cfg = ('SPECIFICATION TraceSpec\nVIEW TraceView\nCONSTRAINT EmitMulti\n'
           'CHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in INVARIANTS))
    if kept:
        res = tlc.run('TraceProgram', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    bads = []
    for k, v in seen.items():
        if v:
            job, rec = kept[k - 1]
            bads.append(dict(shown_multi(job), clauses=sorted(v[0]), expected=v[1],
                             singles=[[a, b] for a, b, _ in job['singles']],
                             code=rec['seen']['code'], failure=rec['seen']['failure'],
                             tocs=[impl.text(t) for t in rec['seen']['tocs']]))
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('multi', dict(b, stage=name))
    for job, rec in kept[:2]:
        check.example(dict(shown_multi(job), stage=name, code=rec['seen']['code']))
    check.traces += len(kept)
    check.part(name, traces=len(kept))


def multiple(check, name, settings, most):
    """C13: every sequence of files of the pool, built together and written."""
    order = sorted(POOL) + [ABSENT]
    jobs = []
    for opt, parser, nl in settings:
        singles = dict(zip(order, check.fresh(alone, [
            (n, POOL.get(n), opt, parser, nl) for n in order])))
        rows = [dict(name=n, status='ok' if singles[n][0] in GOOD else str(singles[n][1]),
                     equal=True, marked=True) for n in order]
        path = os.path.join(check.scratch, 'mcprogram.json')
        with open(path, 'w') as f:
            json.dump(dict(pool=rows, most=most, ways=[dict(inplace=False, diff=False),
                                                       dict(inplace=True, diff=False)]), f)
        seen = []
        cfg = ('SPECIFICATION MCSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
               'PROPERTY Terminates\n' + ''.join('INVARIANT %s\n' % i for i in INVARIANTS))
        res = tlc.run('MCProgram', cfg, check.scratch, env={'MC_CONFIG': path},
                      sink=lambda t: seen.append(json.loads(t)))
        check.tlc(name, res)
        for v in sorted(seen, key=lambda v: (v['q'], v['i'])):
            names = [order[i - 1] for i in v['q']]
            if v['i'] and v['c'] == 0 and len(set(names)) < len(names):
                # Writing a file twice is a matter of C11.
                continue
            if v['i'] and any(singles[n][0] == 'write' for n in names):
                # A file that cannot be decoded has a notice for a table of
                # contents, but cannot be written.
                continue
            jobs.append(dict(names=names, contents={n: POOL.get(n) for n in names}, opt=opt,
                             parser=parser, nl=nl, inplace=v['i'],
                             singles=[singles[n] for n in names]))
    validate_multi(check, name, jobs)


def random_multiple(check, name, count):
    """Random documents, built together and alone."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    raws = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        o = gen.options(r, impl.FAMILY[parser])
        o['keep'] = min(o['keep'], 6)
        if not o['indent']:
            o['coherent'] = True
        o['links'] = r.random() < 0.8
        nl = r.choice(relations.NEWLINES + ['\n', '\n'])
        n = r.choice([2, 3, 4, 5, 2, 3, 4, 5, 8, 13, 33 if r.random() < 0.2 else 6])
        contents = {}
        names = []
        for j in range(n):
            doc = gen.document(r, rich=0.15, clean=True, wild=0.01,
                               size=r.randint(0, 8) if n < 7 else r.randint(0, 3),
                               vocab=r.choice([None, ['a', 'b', 'a-1']]))
            if r.random() < 0.6:
                doc.insert(r.randint(0, len(doc)), M)
            names.append(gen.name(r, j))
            contents[names[-1]] = relations.plain(doc).encode('utf-8')
        if r.random() < 0.15:
            names.insert(r.randint(0, n), r.choice(names))
        raws.append((contents, names, o, parser, nl))
    wants = [(n, c[n], o, p, nl) for c, names, o, p, nl in raws for n in names]
    results = iter(check.fresh(alone, wants))
    jobs = []
    for contents, names, o, parser, nl in raws:
        singles = [next(results) for _ in names]
        for inplace in (False, True):
            if inplace and len(set(names)) < len(names):
                continue
            jobs.append(dict(names=names, contents=contents, opt=o, parser=parser, nl=nl,
                             inplace=inplace, singles=singles))
    check.cases += len(jobs)
    validate_multi(check, name, jobs)
