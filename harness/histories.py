"""Histories of operations in one process: History bound to the code."""

import copy
import hashlib
import json
import os
import subprocess
import sys

import core
import docs
import files
import gen
import grammar
import impl
import programs
import relations
import texts
import tlc

api = impl.api
M = files.MARKER

WORLD = {
    'a.md': b'# a\n## b\n# a\n' + M.encode() + b'\n```\n# c\n',
    'b.md': b'## x [y]\n### x [y]\n## z *t*\n' + M.encode() + b'\n\n- [x](#x)\n\n' + M.encode() + b'\n',
    'c.md': b'# a\n### c\n',
    'd.md': b'#\n# a\n',
    'e.md': b'# a\n\xff\n',
}


def perform(op):
    """Do an operation in the current directory: (result, arguments kept).

    op is [function, arguments...]; the result is a JSON value.
    """
    f, args = op[0], op[1:]
    kept = True
    if f == 'build':
        name, o, parser, nl = args
        got = impl.build(name, o, parser, nl)
    elif f == 'stdin':
        text, o, parser, nl = args
        got = impl.build_stdin(text.encode('utf-8'), o, parser, nl)
    elif f == 'multi':
        names, o, parser, nl = args
        given = list(names)
        got = impl.call(api.build_multiple_tocs, given, **impl.api_options(o, parser, nl))
        kept = given == names
    elif f == 'write':
        name, toc, marker, nl = args
        got = impl.call(api.write_string_on_file_between_markers, name, toc, marker, nl)
    elif f == 'writes':
        names, tocs, marker, nl = args
        a, b = list(names), list(tocs)
        got = impl.call(api.write_strings_on_files_between_markers, a, b, marker, nl)
        kept = (a, b) == (names, tocs)
    elif f == 'equal':
        got = impl.call(api.tocs_equal, *args)
    elif f == 'program':
        code, out, err = impl.program(args[0], b'# stdin\n## b\n')
        got = ('ok', [code, out])
    elif f == 'header':
        line, keep, parser, no_links = args
        got = impl.call(api.get_md_header, line, {}, keep, parser, no_links)
    elif f == 'atx':
        line, keep, parser, no_links = args
        got = impl.call(api.get_atx_heading, line, keep, parser, no_links)
    elif f == 'anchor':
        text, counter, parser = args
        given = copy.deepcopy(counter)
        got = impl.call(api.build_anchor_link, text, given, parser)
        got = (got[0], [got[1], given])
    elif f == 'html':
        got = impl.call(api.remove_html_tags, *args)
    elif f == 'emphasis':
        got = impl.call(api.remove_emphasis, *args)
    elif f == 'fence':
        got = impl.call(api.is_opening_code_fence, *args)
    elif f == 'close':
        got = impl.call(api.is_closing_code_fence, *args)
    elif f == 'edit':
        # Somebody else changes the file, which looks as old as before.
        name, text = args
        s = os.stat(name)
        impl.write(name, text)
        os.utime(name, ns=(s.st_atime_ns, s.st_mtime_ns))
        got = ('ok', None)
    else:
        raise ValueError(f)
    return json.dumps(got, default=repr, sort_keys=True), kept


WRITERS = {'write', 'writes', 'edit'}


def writes(op):
    return op[0] in WRITERS or (op[0] == 'program' and bool({'-p', '--in-place'} & set(op[1])))


def digest(world):
    return hashlib.sha256(repr(sorted(world.items())).encode()).hexdigest()[:24]


def stats(where):
    out = {}
    for n in os.listdir(where):
        s = os.lstat(os.path.join(where, n))
        out[n] = (s.st_mtime_ns, s.st_ino, s.st_mode)
    return out


def play(job):
    """Perform the operations of a history; gives the steps and the worlds met."""
    ops, contents = job
    where = os.path.join(core.work(), 'world')
    programs.lay(where, contents)
    steps = []
    worlds = {}
    with programs.inside(where):
        for op in ops:
            before = programs.found(where)
            s = stats(where)
            result, kept = perform(op)
            after = programs.found(where)
            d = digest(before)
            worlds[d] = before
            e = digest(after)
            if not writes(op) and e == d and stats(where) != s:
                e = 'touched'
            steps.append(dict(op=op, writes=writes(op), before=d, after=e, result=result,
                              kept=kept))
    return steps, worlds


def _play(jobs):
    return [play(j) for j in jobs]


def once(arg):
    """An operation on a world, in a process which did nothing before."""
    op, world = arg
    where = os.path.join(core.work(), 'world')
    programs.lay(where, world)
    with programs.inside(where):
        result, _ = perform(op)
        return result, digest(programs.found(where))


def validate(check, name, jobs):
    """jobs: (operations, contents of the files)."""
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_play, (b,))) for b in core.batches(jobs, 25)]
    histories = []
    need = {}
    for b, p in parts:
        for job, (steps, worlds) in zip(b, p.get()):
            histories.append(steps)
            for s in steps:
                key = (json.dumps(s['op'], sort_keys=True), s['before'])
                if key not in need:
                    need[key] = (s['op'], worlds[s['before']])
    keys = list(need)
    results = dict(zip(keys, check.fresh(once, [need[k] for k in keys])))
    judge(check, name, histories, results)
    check.part(name, fresh=len(keys))


def short(text):
    return hashlib.sha256(text.encode('utf-8', 'surrogatepass')).hexdigest()[:24]


def judge(check, name, histories, results):
    path = os.path.join(check.scratch, 'histories.ndjson')
    with open(path, 'w') as f:
        for steps in histories:
            row = []
            for s in steps:
                op = json.dumps(s['op'], sort_keys=True)
                fresh, after = results[op, s['before']]
                row.append(dict(op=short(op), writes=s['writes'], before=s['before'],
                                after=s['after'], result=short(s['result']), kept=s['kept'],
                                fresh=short(fresh), freshafter=after))
            f.write(json.dumps(row) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1] if len(v) > 1 else []

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    res = tlc.run('TracePure', cfg, check.scratch, env={'TRACE': path}, sink=sink)
    check.tlc(name, res)
    if len(seen) != len(histories):
        raise tlc.TlcError('%d histories, %d consumed' % (len(histories), len(seen)))
    bads = []
    for k, bad in seen.items():
        if bad:
            steps = histories[k - 1]
            i = min(b[0] for b in bad)
            s = steps[i - 1]
            fresh, after = results[json.dumps(s['op'], sort_keys=True), s['before']]
            bads.append(dict(ops=[x['op'] for x in steps[:i]], result=s['result'][:1500],
                             fresh=fresh[:1500], clauses=sorted({b[1] for b in bad})))
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('history', dict(b, stage=name))
    for steps in histories[:2]:
        check.example(dict(stage=name, ops=[s['op'] for s in steps],
                           results=[s['result'][:200] for s in steps]))
    check.traces += len(histories)
    check.part(name, histories=len(histories), operations=sum(map(len, histories)))


O = docs.opt
OPS = [
    ['build', 'a.md', O('gfm'), 'github', '\n'],
    ['build', 'b.md', O('gl', ordered=True, mark='.'), 'gitlab', '\n'],
    ['build', 'c.md', O('cm'), 'cmark', '\n'],
    ['build', 'd.md', O('gfm'), 'github', '\n'],
    ['build', 'e.md', O('rc'), 'redcarpet', '\n'],
    ['multi', ['a.md', 'b.md', 'a.md'], O('gfm', coherent=False), 'github', '\n'],
    ['write', 'a.md', '- [a](#a)\n', M, '\n'],
    ['program', ['-p', '-c', 'github', 'a.md', 'b.md']],
    ['program', ['-d', 'gitlab', '-o.', 'b.md']],
    ['program', ['-c', '-i', 'github', 'a.md']],
    ['anchor', 'A *b* <c>', {}, 'github'],
    ['header', '## a [b]', 3, 'cmark', False],
    ['equal', '- [x](#x)', 'b.md', M],
    ['edit', 'a.md', WORLD['a.md'].decode().replace('# a', '# c').replace('## b', '# bb')],
]


def explore(check, name, depth, ops=None):
    """Every history of History, replayed."""
    ops = ops or OPS
    path = os.path.join(check.scratch, 'history.json')
    with open(path, 'w') as f:
        json.dump(dict(ops=[dict(name=str(k), writes=writes(o)) for k, o in enumerate(ops)],
                       depth=depth), f)
    got = []
    cfg = ('SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT NoMemory\n'
           'INVARIANT OnlyWritersWrite\n')
    res = tlc.run('History', cfg, check.scratch, env={'MC_CONFIG': path},
                  sink=lambda t: got.append(t))
    check.tlc(name, res)
    got.sort()
    validate(check, name, [([ops[i - 1] for i in json.loads(t)], WORLD) for t in got])


def random_op(r, names):
    parser = r.choice(impl.ALL_PARSERS)
    o = gen.options(r, impl.FAMILY[parser])
    nl = r.choice(relations.NEWLINES + ['\n'])
    x = r.random()
    if x < 0.3:
        return ['build', r.choice(names + ['missing.md']), o, parser, nl]
    if x < 0.35:
        return ['stdin', '\n'.join(gen.document(r, size=3, rich=0.2)), o, parser, nl]
    if x < 0.45:
        return ['multi', [r.choice(names) for _ in range(r.randint(1, 3))],
                dict(o, coherent=False), parser, nl]
    if x < 0.49:
        return ['edit', r.choice(names), '\n'.join(gen.document(r, size=3, rich=0.2) + [M, '# c'])]
    if x < 0.53:
        return ['write', r.choice(names + ['-']), files.toc_text(r), r.choice([M, M, 'x']), nl]
    if x < 0.56:
        return ['writes', r.sample(names, 2), [files.toc_text(r), files.toc_text(r)], M, nl]
    if x < 0.62:
        return ['equal', files.toc_text(r), r.choice(names), M]
    if x < 0.72:
        o['keep'] = min(o['keep'], 6)
        if not o['indent']:
            o['coherent'] = True
        return ['program', impl.argv_of(o, parser, [r.choice(names)], None, r.random() < 0.3,
                                        r.random() < 0.3, None, None)]
    line = gen.heading(r, r.randint(1, 4), 0.5)
    if x < 0.8:
        return ['header', line, r.randint(1, 6), parser, r.random() < 0.3]
    if x < 0.85:
        return ['atx', line, r.randint(1, 6), parser, r.random() < 0.3]
    t = gen.heading_text(r, 0.6)
    if x < 0.91:
        return ['anchor', t, r.choice([{}, {'a': 1}, {'a': 2, 'foo': 1}]), parser]
    if x < 0.94:
        return ['html', t, parser]
    if x < 0.97:
        return ['emphasis', t, parser]
    return r.choice([['fence', gen.fence(r), parser],
                     ['close', gen.fence(r), r.choice(['`', '```', '~~~']), False, parser]])


def random_jobs(check, name, count, size):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for _ in range(count):
        contents = {}
        for j in range(4):
            doc = gen.document(r, size=r.randint(0, 6), rich=0.3, clean=r.random() < 0.7,
                               vocab=r.choice([None, None, ['a', 'b']]))
            if r.random() < 0.7:
                doc.insert(r.randint(0, len(doc)), M)
            contents['f%d.md' % j] = relations.plain(doc).encode('utf-8')
        names = sorted(contents)
        pool = [random_op(r, names) for _ in range(size)]
        # Some of the operations come again.
        ops = [r.choice(pool) if r.random() < 0.3 else pool[k] for k in range(size)]
        jobs.append((ops, contents))
    return jobs


# ---- the same text, other arguments ----------------------------------------------------
TRICKY = [
    '#\ta', '# a\\', '# [x] [y\\]', '# <title>x</title> <b>', '# a  b -- c', ' # a', '# &amp; é b',
    '#### deep\n# a', '# a\n# a\n# a', '# a\n### b', '```\n```\t\n# a', '\t```\n# a', '# ',
    '# a #\t', '# _a_ *b*', '# a\n## b\n## c\n# d\n## e', '## a\n# b', '``` `\n# a', '# ß É',
    '# a\n```\n# b', '# *a\n# a*', '# <A b=c>d', '# `a` - b',
    '# <script>a</script> <Xmp/> <b>', '# <!A b> <?c?> <![CDATA[d]]> <!--e--> <!f>',
    '# [a](b "c") **d__ <http://e> ***', '# a &lt; b;c <d', '#a', '####### a', '# 日 É',
]


def variants_of(text, name):
    """Operations on the same text which differ in one argument."""
    for p in impl.ALL_PARSERS:
        f = impl.FAMILY[p]
        yield ['build', name, O(f, coherent=False), p, '\n']
        for line in text.split('\n'):
            yield ['header', line, 2, p, False]
            yield ['atx', line, 6, p, True]
            yield ['anchor', line.strip('# \t'), {}, p]
            yield ['html', line, p]
            yield ['fence', line, p]
            yield ['close', line, '```', False, p]
            if p != 'redcarpet':
                yield ['emphasis', line.strip('# \t'), p]
    base = dict(coherent=False)
    for k in (dict(links=False), dict(keep=1), dict(indent=False), dict(ordered=True, mark='.'),
              dict(ordered=True, mark=')'), dict(const=True, mark='.'), dict(skip=1), dict(mark='*'),
              dict(coherent=True)):
        yield ['build', name, O('gfm', **dict(base, **k)), 'github', '\n']
    yield ['build', name, O('gfm', **base), 'github', '\r\n']
    yield ['stdin', text, O('gfm', **base), 'github', '\n']
    for line in text.split('\n'):
        yield ['atx', line, 1, 'github', True]
        yield ['atx', line, 2, 'github', False]
        yield ['atx', line, 6, 'github', False]
        yield ['close', line, '~~~', False, 'github']
        yield ['close', line, '```', True, 'github']
        yield ['anchor', line.strip('# \t'), {'a': 1}, 'github']


def variants(check, name, count):
    """Each operation of a text before and after each other one."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    some = TRICKY if len(TRICKY) <= count else r.sample(TRICKY, count)
    for k in range(count):
        text = some[k] if k < len(some) else '# ' + grammar.raw(r, False) if k % 2 else \
            '\n'.join(gen.document(r, size=2, rich=0.7))
        groups = {}
        for op in variants_of(text, 'v.md'):
            groups.setdefault(op[0], []).append(op)
        contents = {'v.md': text.encode('utf-8')}
        for ops in groups.values():
            r.shuffle(ops)
            jobs.append((ops, contents))
            jobs.append((ops[::-1], contents))
    validate(check, name, jobs)


# ---- other processes ------------------------------------------------------------------
def elsewhere(check, name, count):
    """The same operations in interpreters with other hash seeds."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for ops, contents in random_jobs(check, name, count, 8):
        jobs.append((ops, contents))
    packed = [(ops, {n: d.decode('utf-8') for n, d in c.items()}) for ops, c in jobs]
    path = os.path.join(check.scratch, 'elsewhere.json')
    with open(path, 'w') as f:
        json.dump(packed, f)
    procs = []
    for seed in ('0', '1', '424242', str(r.randint(1, 10 ** 6))):
        out = os.path.join(check.scratch, 'elsewhere-%s.json' % seed)
        procs.append((out, subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), path, out],
            env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=os.path.dirname(__file__)))))
    runs = []
    for out, p in procs:
        if p.wait(600) != 0:
            raise tlc.TlcError('interpreter failed')
        with open(out) as f:
            runs.append(json.load(f))
    # The first interpreter is the reference for the others.
    results = {}
    for steps in runs[0]:
        for s in steps:
            results.setdefault((json.dumps(s['op'], sort_keys=True), s['before']),
                               (s['result'], s['after']))
    histories = []
    for run in runs[1:]:
        for steps in run:
            cut = []
            for s in steps:
                if (json.dumps(s['op'], sort_keys=True), s['before']) not in results:
                    break
                cut.append(s)
            histories.append(cut)
    judge(check, name, histories, results)


def _main(path, out):
    with open(path) as f:
        jobs = json.load(f)
    res = [play((ops, {n: d.encode('utf-8') for n, d in c.items()}))[0] for ops, c in jobs]
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    _main(sys.argv[1], sys.argv[2])
