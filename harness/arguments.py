"""Arguments in and out of their ranges: Arguments bound to the API."""

import copy
import json
import os

import core
import gen
import impl
import tlc

api = impl.api

# Marks which are not a single character have a negative number in the spec.
STRINGS = {-1: '', -2: '--', -3: '-+', -4: '.)', -5: '1.', -6: '-+*'}
TABLE = '<!--TOC-->'


def mark(c):
    return STRINGS[c] if c < 0 else chr(c)


class Objects:
    """What the calls work on."""

    def __init__(self, parser, start):
        self.parser = parser
        self.dir = os.path.join(core.work(), 'args')
        os.makedirs(self.dir, exist_ok=True)
        for n in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, n))
        self.files = []
        for k in range(4):
            self.files.append(os.path.join(self.dir, 'f%d.md' % k))
            impl.write(self.files[-1], '# a\n\n%s\n%s\n## b\n' % (TABLE, '\n- old\n\n' + TABLE + '\n'
                                                                  if k % 2 else ''))
        self.doc = os.path.join(self.dir, 'doc.md')
        self.numbers = dict(start)
        self.log = api.init_indentation_log(parser, '-')
        self.anchors = {'a': 3} if start else {}

    def state(self):
        files = {}
        for n in sorted(os.listdir(self.dir)):
            if n != 'doc.md':
                files[n] = impl.read(os.path.join(self.dir, n))
        return dict(numbers=copy.deepcopy(self.numbers), log=copy.deepcopy(self.log),
                    anchors=copy.deepcopy(self.anchors), files=files)

    def run(self, c):
        f, p = c['f'], self.parser
        text = impl.text(c['text'])
        a, b, ordered = c['a'], c['b'], c['ordered']
        # In half of the calls the arguments have a name.
        named = (a + b + c['c'] + len(text)) % 2
        if f == 'count':
            return api.increase_index_ordered_list(self.numbers, a, b, p)
        if f == 'indent':
            if named:
                return api.compute_toc_line_indentation_spaces(
                    b, a, parser=p, ordered=ordered, list_marker=mark(c['mark']),
                    indentation_log=self.log, index=c['c'])
            return api.compute_toc_line_indentation_spaces(b, a, p, ordered, mark(c['mark']),
                                                           self.log, c['c'])
        if f == 'entry':
            h = dict(header_type=b, text_original='t', text_anchor_link='t', visible=True)
            return api.build_toc_line_without_indentation(h, ordered, named == 1, c['c'], p,
                                                          mark(c['mark']))
        if f == 'line':
            return api.build_toc_line('- t', a)
        if f == 'heading':
            return api.get_atx_heading(text, a, p, ordered)
        if f == 'header':
            return api.get_md_header(text, self.anchors, a, p, ordered)
        if f == 'anchor':
            return api.build_anchor_link(text, self.anchors, p)
        if f in ('build', 'all'):
            impl.write(self.doc, text)
            o = dict(ordered=ordered, keep_header_levels=b, parser=p, list_marker=mark(c['mark']),
                     skip_lines=a, no_list_coherence=True, no_indentation=c['c'] == 2,
                     no_links=c['c'] == 3)
            if f == 'build':
                return api.build_toc(self.doc, **o)
            return api.build_multiple_tocs([self.doc, self.doc], **o)
        if f == 'write':
            return api.write_strings_on_files_between_markers(
                self.files[:a], ['- new %d\n' % k for k in range(b)], TABLE, '\n')
        raise AssertionError(f)


def outcome(f):
    def judged():
        try:
            f()
        except impl.exceptions.StringCannotContainNewlines:
            return 'newline'
        except ValueError:
            return 'value'
        return 'ok'
    kind, v = impl.call(judged)
    return v if kind == 'ok' else str(v)


def play(calls, parser, start):
    """The record of a history of calls on the same objects."""
    objects = Objects(parser, start)
    before = objects.state()
    out = []
    for c in calls:
        got = outcome(lambda: objects.run(c))
        after = objects.state()
        out.append(dict(call=c, outcome=got,
                        changed=[x for x in sorted(after) if after[x] != before[x]]))
        before = after
    return out


CHANGES = dict(count=['numbers'], indent=['log'], header=['anchors'], anchor=['anchors'],
               write=['files'])


def _replay(batch, every):
    runs = 0
    out = []
    for text in batch:
        hist = json.loads(text)
        calls = [dict(s['call'], text=list(s['call']['text'])) for s in hist]
        names = impl.PARSERS[calls[0]['fam']]
        for k, parser in enumerate(names):
            if not every and (len(text) + k) % len(names):
                continue
            runs += 1
            rec = play(calls, parser, {} if len(text) % 2 else {'h1': 2, 'h3': 9})
            for s, r in zip(hist, rec):
                v = s['verdict']
                bad = []
                if (r['outcome'] not in ('ok', 'value', 'newline') if v == 'any'
                        else r['outcome'] != v):
                    bad.append('outcome')
                if v in ('value', 'newline') and r['changed']:
                    bad.append('changed')
                if set(r['changed']) - set(CHANGES.get(r['call']['f'], [])):
                    bad.append('others')
                if bad:
                    out.append(dict(parser=parser, history=[x['call'] for x in rec],
                                    call=r['call'], expected=v, outcome=r['outcome'],
                                    changed=r['changed'], clauses=bad))
                    break
    return runs, out


def explore(check, name, groups, depth, every=True):
    conf = dict(depth=depth, groups=groups)
    path = os.path.join(check.scratch, 'mcargs.json')
    with open(path, 'w') as f:
        json.dump(conf, f)
    pending = []
    batch = []

    def flush():
        if batch:
            pending.append(check.workers().apply_async(_replay, (list(batch), every)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 300:
            flush()

    check.workers()
    cfg = ('SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT InvVersions\n'
           'PROPERTY Stutters\n')
    res = tlc.run('MCArguments', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    check.tlc(name, res)
    bads = []
    runs = 0
    for p in pending:
        n, out = p.get()
        runs += n
        bads += out
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('arguments', dict(b, stage=name))
    check.traces += runs
    check.part(name, replayed=runs)


def group(f, fams=('gfm', 'cm', 'gl', 'rc'), a=(0,), b=(1,), c=(1,), ordered=(False,), marks='-',
          texts=('a',)):
    return dict(f=f, fams=list(fams), a=list(a), b=list(b), c=list(c), ordered=list(ordered),
                marks=[m if isinstance(m, int) else ord(m) for m in marks],
                texts=[impl.cps(t) for t in texts])


MARKS = ['-', '+', '*', '.', ')', 'x', '1', ' ', '#', -1, -2, -3, -4, -5, -6]
BOTH = [False, True]
DOCS = ['', 'x\n', '# a\n', 'x\n# a\n\n## b\n', '### c\n# a\n', '\n\n', '# a\n# a\n']


def single():
    """Groups whose calls are tried alone."""
    return [
        group('count', a=range(-2, 9), b=range(-2, 9)),
        group('indent', a=range(-2, 7), b=range(-2, 7), c=[-1, 0, 1, 2, 10], ordered=BOTH, marks='-.)x'),
        group('indent', a=[0, 1], b=[1, 2], c=[1], ordered=BOTH, marks=MARKS),
        group('entry', b=range(-2, 9), c=[-1, 0, 1, 2, 10], ordered=BOTH, marks=MARKS),
        group('line', a=range(-3, 6)),
        group('heading', a=range(-2, 9), ordered=BOTH,
              texts=['', '# a', '## b\n', 'x', '\n', '# a\n# b\n', '####### a', '    # a']),
        group('header', a=range(-2, 9), ordered=BOTH,
              texts=['# a', '## b\n', 'x', '\n', '# a\nx\n## a\n', '']),
        group('anchor', texts=['', 'a', '\n', '\r', 'a\n', '\na', 'a\n\n', 'a\nb', 'a\rb', 'a\r\nb',
                               '\r\na', 'a b\r', '\n\n\n', 'a\x0bb', 'a\x0cb', 'a\x1cb', 'a\x85b',
                               'a\u2028b', 'a\u2029b', '\n\ra\r', '\na\n\nb\n', 'a \n', ' \n a', '<a\nb>',
                               '*a\nb*']),
        group('build', a=range(-2, 5), b=[-1, 0, 1, 2, 6, 9], c=[1, 2, 3], ordered=BOTH, marks='-.x',
              texts=DOCS),
        group('build', a=[0, 1], b=[1, 6], c=[1, 2], ordered=BOTH, marks=MARKS, texts=DOCS),
        group('all', a=[-1, 0, 1], b=[0, 1, 6], c=[1], ordered=BOTH, marks='-)x', texts=DOCS),
        group('write', a=range(0, 5), b=range(0, 6)),
    ]


def sequences():
    """Groups with a few calls, for the histories."""
    return [
        group('count', ['gfm', 'rc'], a=[-1, 0, 2], b=[0, 1, 2]),
        group('indent', ['gfm', 'rc'], a=[-1, 0, 1], b=[0, 2], c=[0, 12], ordered=[True], marks='.x'),
        group('entry', ['gfm', 'rc'], b=[0, 1], marks='-.'),
        group('header', ['gfm', 'rc'], a=[0, 2], texts=['# a']),
        group('anchor', ['gfm', 'rc'], texts=['a', 'a\nb']),
        group('build', ['gfm', 'rc'], a=[-1, 0], b=[0, 2], texts=['# a\n']),
        group('write', ['gfm', 'rc'], a=[1, 2], b=[1, 2]),
    ]


# ---- code -> spec ----------------------------------------------------------
def number(r, low, high):
    """A number near a bound or far away."""
    x = r.random()
    if x < 0.4:
        return r.randint(low - 2, low + 2)
    if x < 0.7:
        return r.randint(low, high)
    if x < 0.85:
        return -r.choice([2, 3, 10, 255, 256, 65536, 10 ** 6, 2 ** 31 - 1, r.randint(1, 10 ** 9)])
    return min(high, r.choice([10, 100, 1000, 10 ** 6, 999999999, 2 ** 31 - 1]))


def random_call(r, fam):
    f = r.choice(['count', 'indent', 'indent', 'entry', 'line', 'heading', 'header', 'anchor', 'anchor',
                  'build', 'all', 'write'])
    big = 2 ** 31 - 1
    c = dict(f=f, fam=fam, a=0, b=1, c=1, ordered=r.random() < 0.5, mark=ord('-'), text=[97])
    if f in ('indent', 'entry', 'build', 'all'):
        if r.random() < 0.75:
            c['mark'] = ord(r.choice('.' if fam == 'rc' else '.)') if c['ordered'] else r.choice('-+*'))
        else:
            c['mark'] = r.choice([ord(r.choice('-+*.)x1#:;,~ _')), -1, -2, -3, -4, -5, -6, 0x2022,
                                  0xff0e, r.randint(33, 0x2ff)])
    if f == 'count':
        c.update(a=number(r, 0, big), b=number(r, 1, big))
    elif f == 'indent':
        c.update(a=number(r, 0, 6), b=number(r, 1, 6), c=number(r, 1, big))
    elif f == 'entry':
        c.update(b=number(r, 1, big), c=number(r, 1, big))
    elif f == 'line':
        c.update(a=number(r, 0, 3000))
    elif f in ('heading', 'header'):
        c.update(a=number(r, 1, big), text=impl.cps(r.choice(
            ['# a', '## b c', '### d\n', 'x', '# a\n## b\n', '', '\n', '   # e', '```', '#\ta'])))
    elif f == 'anchor':
        c['text'] = impl.cps(gen.soup(r, ['a', 'b', ' ', '\n', '\r', '\r\n', '\x0b', '\x0c', '\x85',
                                          '\u2028', 'x', '*', '<b>', '-', 'é', '\\', '\t'], 0,
                                      r.choice([3, 6, 12, 300])))
    elif f in ('build', 'all'):
        doc = [r.choice(['# a', '## b', '### c', '#### d', 'x', '', '# a', 'y z'])
               for _ in range(r.randint(0, 5))]
        c.update(a=number(r, 0, 9), b=number(r, 1, big), c=r.choice([1, 2, 3]),
                 text=impl.cps(''.join(x + '\n' for x in doc)))
    else:
        c.update(a=r.randint(0, 4), b=r.randint(0, 5))
    return c


def _record(jobs):
    return [play(*j) for j in jobs]


def validate(check, name, count):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        parser = impl.ALL_PARSERS[k % 6]
        start = {} if r.random() < 0.5 else {'h%d' % r.randint(1, 6): r.randint(1, 50) for _ in range(3)}
        jobs.append(([random_call(r, impl.FAMILY[parser]) for _ in range(r.randint(1, 8))], parser,
                     start))
    parts = [check.workers().apply_async(_record, (b,)) for b in core.batches(jobs, 100)]
    recs = [x for p in parts for x in p.get()]
    path = os.path.join(check.scratch, 'args.ndjson')
    with open(path, 'w') as f:
        for rec in recs:
            f.write(json.dumps(rec) + '\n')
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1]

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    res = tlc.run('TraceArguments', cfg, check.scratch, env={'TRACE': path}, sink=sink)
    check.tlc(name, res)
    if len(seen) != len(recs):
        raise tlc.TlcError('%d histories, %d consumed' % (len(recs), len(seen)))
    bads = []
    for k, wrong in seen.items():
        if wrong:
            pos, clauses = wrong[0]
            s = recs[k - 1][pos - 1]
            bads.append(dict(parser=jobs[k - 1][1], start=jobs[k - 1][2],
                             history=[x['call'] for x in recs[k - 1][:pos]], call=s['call'],
                             outcome=s['outcome'], changed=s['changed'], clauses=clauses))
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('arguments', dict(b, stage=name))
    for rec in recs[:2]:
        check.example(dict(stage=name, history=rec))
    check.traces += len(recs)
    check.cases += len(recs)
    check.part(name, traces=len(recs))
