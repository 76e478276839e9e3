"""The public building blocks, put together by hand, against build_toc."""

import json
import os

import core
import docs
import gen
import impl
import relations
import tlc

api = impl.api


def steps(lines, o, parser, ends, knows_end, out):
    """Compose the functions line by line; out gets the lines of the table."""
    ordered = o['ordered'] or o['const']
    mark = chr(o['mark'])
    if ordered and mark not in ('.' if parser == 'redcarpet' else '.)'):
        mark = '.'
    anchors, numbers = {}, {}
    log = api.init_indentation_log(parser, mark)
    prev = 0
    fence = None
    lines = lines[o['skip']:]
    for k, text in enumerate(lines):
        line = text + '\n' if ends else text
        yield
        if fence is not None:
            if api.is_closing_code_fence(line, fence, knows_end and k == len(lines) - 1, parser):
                fence = None
            continue
        fence = api.is_opening_code_fence(line, parser)
        if fence is not None:
            continue
        header = api.get_md_header(line, anchors, o['keep'], parser, not o['links'])[0]
        if header is None or not header['visible']:
            continue
        level = header['header_type']
        index = 1
        if ordered and not o['const']:
            api.increase_index_ordered_list(numbers, prev, level, parser)
            index = numbers['h' + str(level)]
        spaces = 0
        if o['indent']:
            api.compute_toc_line_indentation_spaces(level, prev, parser, ordered, mark, log, index)
            spaces = log[level]['indentation_spaces']
        entry = api.build_toc_line_without_indentation(header, ordered, not o['links'], index, parser,
                                                       mark)
        out.append(api.build_toc_line(entry, spaces) + '\n')
        prev = level


def together(runs):
    """Advance several compositions in turns: the outcome of each."""
    state = []
    for lines, o, parser, ends, knows_end in runs:
        out = []
        state.append([steps(lines, o, parser, ends, knows_end, out), out, None])
    while any(s[2] is None for s in state):
        for s in state:
            if s[2] is not None:
                continue
            kind, v = impl.call(next, s[0], True)
            if kind != 'ok':
                s[2] = (kind, v)
            elif v:
                s[2] = ('ok', ''.join(s[1]))
    return [s[2] for s in state]


def _text(lines):
    return ''.join(x + '\n' for x in lines)


def _built(lines, o, parser):
    path = os.path.join(core.work(), 'b.md')
    impl.write(path, _text(lines))
    return impl.build(path, o, parser)


def _replay(batch, conf):
    lines = [impl.text(x) for x in conf['lines']]
    out = []
    runs = 0
    for raw in batch:
        r = json.loads(raw)
        o = conf['opts'][r['o'] - 1]
        doc = [lines[i - 1] for i in r['h']]
        for k, parser in enumerate(impl.PARSERS[o['fam']]):
            a = _built(doc, o, parser)
            n = len(raw) + k
            b, = together([(doc, o, parser, n % 2 == 0, n % 3 == 0)])
            runs += 1
            if a != b:
                out.append(dict(parser=parser, opt=o, lines=doc, built=a, composed=b,
                                clauses=['composed']))
    return runs, out


def explore(check, name, conf):
    """The documents of MCDoc, on which the specification only takes steps."""
    docs.explore(check, name, conf, {'composed'}, replay=_replay)


def _record(jobs):
    out = []
    for group in jobs:
        for (lines, o, parser, _, _), b in zip(group, together(group)):
            a = _built(lines, o, parser)
            rec = []
            for kind, v in (a, b):
                rec.append(dict(raw=_text(lines), skip=o['skip'], nl='\n',
                                status='ok' if kind == 'ok' else str(v),
                                out=v if kind == 'ok' else '', parser=parser, source='file'))
            out.append((o, tuple(rec)))
    return out


def validate(check, name, count, **kw):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        group = []
        for j in range(r.choice([1, 1, 2, 3])):
            parser = impl.ALL_PARSERS[(k + j) % 6]
            o = gen.options(r, impl.FAMILY[parser])
            o['coherent'] = False
            doc = gen.document(r, **kw)
            if j and r.random() < 0.5:
                doc = list(group[0][0])
            group.append((doc, o, parser, r.random() < 0.5, r.random() < 0.5))
        jobs.append(group)
    judge(check, name, jobs)


def given(check, name, make, count):
    """Documents of a generator of the other properties, a few in turns."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    runs = [(doc, dict(o, coherent=False), parser, r.random() < 0.5, r.random() < 0.5)
            for doc, o, parser in make(r, count)]
    judge(check, name, list(core.batches(runs, 2)))


def judge(check, name, jobs):
    parts = [check.workers().apply_async(_record, (b,)) for b in core.batches(jobs, 40)]
    pairs = [x for p in parts for x in p.get()]
    relations.judge(check, name, pairs)
