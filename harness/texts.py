"""Lines and heading texts: Atx, Html, Emph and Slug bound to the API."""

import json
import os

import core
import gen
import impl
import tlc

api = impl.api


# ---- the implementation, projected as the spec projects itself ------------
def heading(line, parser):
    """[level, text, label status, label]."""
    kind, v = impl.call(api.get_atx_heading, line, 6, parser, True)
    if kind != 'ok':
        return [kind, v]
    v = v[0]
    if v['header_type'] is None:
        plain = [0, '']
    else:
        plain = [v['header_type'], v['header_text_trimmed']]
    kind, w = impl.call(api.get_atx_heading, line, 6, parser, False)
    if kind == 'exc':
        return [kind, w]
    if kind == 'err':
        return plain + [w, '']
    w = w[0]
    if w['header_type'] != v['header_type']:
        return ['exc', 'level depends on links']
    return plain + ['ok', w['header_text_trimmed'] or '']


def simple(f):
    def g(s, parser):
        # The parser is github if it is not given.
        given = () if parser == 'github' and len(s) % 2 else (parser,)
        kind, v = impl.call(f, s, *given)
        return v if kind == 'ok' else [kind, v]
    return g


FUNCTIONS = {
    'heading': heading,
    'html': simple(api.remove_html_tags),
    'emphasis': simple(api.remove_emphasis),
    'slug': simple(lambda s, *parser: api.build_anchor_link(s, {}, *parser)),
}


def anchor(line, parser):
    """The anchor of a heading line, None if it is not a heading or is rejected."""
    kind, v = impl.call(api.get_md_header, line, {}, 6, parser, False)
    if kind == 'ok':
        return None if v[0] is None else v[0]['text_anchor_link']
    return None if kind == 'err' else [kind, v]


def multi(arg, parser):
    """[[level, text, visible], ...] for a string of lines."""
    s, keep = arg
    kind, v = impl.call(api.get_atx_heading, s, keep, parser, True)
    if kind != 'ok':
        return [kind, v]
    return [[x['header_type'] or 0, x['header_text_trimmed'] or '', bool(x['visible'])]
            for x in v]


def number(arg, parser):
    """The number after n, for an entry of level cur after one of level prev; 0: rejected."""
    n, prev, cur = arg
    counter = {'h%d' % cur: n} if n else {}
    kind, v = impl.call(api.increase_index_ordered_list, counter, prev, cur, parser)
    if kind == 'err' and v == 'number':
        return 0
    if kind != 'ok':
        return [kind, v]
    return counter.get('h%d' % cur, -1)


def opens(line, parser):
    """The fence opened by a line, '' if there is none."""
    kind, v = impl.call(api.is_opening_code_fence, line, parser)
    return (v or '') if kind == 'ok' else [kind, v]


def closes(arg, parser):
    """Whether a line closes a fence."""
    line, fence, end = arg
    kind, v = impl.call(api.is_closing_code_fence, line, fence, end, parser)
    return bool(v) if kind == 'ok' else [kind, v]


def split(s, parser):
    """The lines of a string, after a mark which tells them from an error."""
    kind, v = impl.call(api.replace_and_split_newlines, s)
    return [0, list(v)] if kind == 'ok' else [kind, v]


def without(arg, parser):
    """A text without the characters of some ranges."""
    s, ranges = arg
    kind, v = impl.call(api.filter_indices_from_line, s, [range(*g) for g in ranges])
    return v if kind == 'ok' else [kind, v]


def indented(line, parser):
    kind, v = impl.call(api.is_valid_code_fence_indent, line, parser)
    return bool(v) if kind == 'ok' else [kind, v]


FUNCTIONS.update(anchor=anchor, lines=multi, number=number, opens=opens, closes=closes, split=split,
                 without=without, words=simple(api.anchor_link_punctuation_filter),
                 indented=indented)


def encode(x):
    if isinstance(x, int):
        return x
    if x and x[0] == 0 and len(x) == 2:
        return [impl.cps(e) for e in x[1]]
    if x and isinstance(x[0], list):
        return [[a, impl.cps(b), c] for a, b, c in x]
    if isinstance(x, str):
        return impl.cps(x)
    return [impl.cps(e) if isinstance(e, str) and k in (1, 3) else e for k, e in enumerate(x)]


def decode(f, x):
    if f == 'heading':
        return [x[0], impl.text(x[1]), x[2], impl.text(x[3])]
    if f == 'lines':
        return [[a, impl.text(b), c] for a, b, c in x]
    if f in ('number', 'closes', 'indented'):
        return x
    if f == 'split':
        return [0, [impl.text(e) for e in x]]
    return impl.text(x)


def clauses(f, exp, act):
    """The parts in which two results differ."""
    if isinstance(act, list) and act and act[0] in ('exc', 'err'):
        return {'exception'}
    if f != 'heading':
        return {f} if exp != act else set()
    bad = set()
    if exp[0] != act[0]:
        return {'level'}
    if exp[1] != act[1]:
        bad.add('text')
    elif exp[2] != act[2]:
        bad.add('status')
    elif exp[3] != act[3]:
        bad.add('label')
    return bad


# ---- spec -> code ----------------------------------------------------------
def _replay(batch, conf):
    f = conf['function']
    g = FUNCTIONS[f]
    out = []
    runs = 0
    for raw in batch:
        p, body, table = json.loads(raw)
        front = conf['prefixes'][p - 1] + ''.join(conf['tokens'][k - 1] for k in body)
        for suffix, row in zip(conf['suffixes'], table):
            s = front + suffix
            for fam, x in zip(conf['fams'], row):
                if x == 'out':
                    continue
                exp = decode(f, x)
                for parser in conf['parsers'][fam]:
                    runs += 1
                    act = g(s, parser)
                    bad = clauses(f, exp, act)
                    if bad:
                        out.append(dict(function=f, parser=parser, text=s, expected=exp,
                                        actual=act, clauses=sorted(bad)))
    return runs, out


def explore(check, name, conf, wanted):
    conf = dict(conf)
    conf.setdefault('prefixes', [''])
    conf.setdefault('suffixes', [''])
    conf.setdefault('fams', ['gfm', 'cm', 'rc'])
    conf.setdefault('parsers', impl.PARSERS)
    coded = dict(conf)
    for k in ('prefixes', 'tokens', 'suffixes'):
        coded[k] = [impl.cps(x) for x in conf[k]]
    coded.pop('parsers')
    path = os.path.join(check.scratch, 'mctext.json')
    with open(path, 'w') as f:
        json.dump(coded, f)
    pending = []
    batch = []
    last = []

    def flush():
        if batch:
            last[:] = batch[-2:]
            pending.append(check.workers().apply_async(_replay, (list(batch), conf)))
            batch.clear()

    def sink(text):
        batch.append(text)
        if len(batch) >= 300:
            flush()

    check.workers()
    inv = {'heading': 'InvHeading', 'html': 'InvHtml', 'emphasis': 'InvEmphasis',
           'slug': 'InvSlug', 'split': 'InvSplit', 'words': 'InvWords',
           'indented': 'InvIndented'}[conf['function']]
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nINVARIANT %s\n' % inv
    res = tlc.run('MCText', cfg, check.scratch, env={'MC_CONFIG': path}, sink=sink)
    flush()
    runs = 0
    bads = []
    for p in pending:
        n, out = p.get()
        runs += n
        bads.extend(out)
    check.tlc(name, res)
    collect(check, name, bads, wanted)
    for x in last[-2:]:
        p, body, table = json.loads(x)
        check.example(dict(stage=name, function=conf['function'],
                           text=conf['prefixes'][p - 1] +
                           ''.join(conf['tokens'][k - 1] for k in body) + conf['suffixes'][0],
                           expected=decode(conf['function'], table[0][0])
                           if table[0][0] != 'out' else 'out'))
    check.traces += runs
    check.part(name, replayed=runs)


def collect(check, name, bads, wanted):
    bads.sort(key=lambda b: len(str(b['text'])))
    for b in bads:
        hit = set(b['clauses']) & (set(wanted) | {'exception'})
        if hit:
            check.fail('text', dict(b, stage=name, clauses=sorted(hit)))


# ---- code -> spec ----------------------------------------------------------
def _record(jobs):
    out = []
    for f, parser, s in jobs:
        out.append(FUNCTIONS[f](s, parser))
    return out


def validate(check, name, jobs, wanted):
    """Record the calls (function, parser, text) and validate them."""
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_record, (b,))) for b in core.batches(jobs, 300)]
    bads = []
    kept = []
    path = os.path.join(check.scratch, 'texts.ndjson')
    with open(path, 'w') as out:
        for b, p in parts:
            for (f, parser, s), act in zip(b, p.get()):
                if isinstance(act, list) and act and act[0] in ('exc', 'err'):
                    bads.append(dict(function=f, parser=parser, text=s, actual=act,
                                     clauses=['exception']))
                    continue
                if act is None:
                    continue
                kept.append((f, parser, s, act))
                rec = {'f': f, 'fam': impl.FAMILY[parser], 'out': encode(act)}
                if f == 'lines':
                    rec['in'], rec['keep'] = impl.cps(s[0]), s[1]
                elif f == 'number':
                    rec['in'] = s
                elif f == 'closes':
                    rec['in'] = dict(line=impl.cps(s[0]), char=ord(s[1][0]), size=len(s[1]),
                                     end=s[2])
                elif f == 'without':
                    rec['in'] = dict(text=impl.cps(s[0]), ranges=s[1])
                else:
                    rec['in'] = impl.cps(s)
                out.write(json.dumps(rec) + '\n')
    seen = set()
    outside = []

    def sink(text):
        v = json.loads(text)
        seen.add(v[0])
        if len(v) > 1 and v[1] == 'out':
            outside.append(v[0])
        elif len(v) > 1:
            f, parser, s, act = kept[v[0] - 1]
            exp = decode(f, v[1])
            bads.append(dict(function=f, parser=parser, text=s, expected=exp, actual=act,
                             clauses=sorted(clauses(f, exp, act))))

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    if kept:
        res = tlc.run('TraceText', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    collect(check, name, bads, wanted)
    for f, parser, s, act in kept[:2]:
        check.example(dict(stage=name, function=f, parser=parser, text=s, result=act))
    check.traces += len(kept) - len(outside)
    check.cases += len(jobs)
    check.part(name, traces=len(kept) - len(outside), outside=len(outside))


def multiline(check, name, count):
    """C02: the lines of a string are examined one by one."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        pieces = []
        for _ in range(r.randint(0, 6)):
            x = r.random()
            if x < 0.6:
                pieces.append(gen.heading(r, r.randint(1, 7), 0.4))
            elif x < 0.8:
                pieces.append(gen.prose(r))
            else:
                pieces.append(r.choice(['', '\\', '#', '###### a', '# b', '##']))
            pieces.append(r.choice(['\n', '\n', '\n', '\r\n', '\r', '\n\n']))
        if pieces and r.random() < 0.5:
            pieces.pop()
        jobs.append(('lines', impl.ALL_PARSERS[k % 6], (''.join(pieces), r.choice([1, 2, 3, 6, 6]))))
    validate(check, name, jobs, {'lines'})


def heading_slugs(check, name, count, make):
    """C05: the anchors of heading lines."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        jobs.append(('anchor', impl.ALL_PARSERS[k % 6],
                     '#' * r.randint(1, 6) + ' ' + make(r) + r.choice(['', '', ' #', ' ', '\\'])))
    validate(check, name, jobs, {'anchor'})


def number_limit(check, name, count):
    """C08: the numbers of ordered lists, and their limit."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for parser in impl.ALL_PARSERS:
        for n in [0, 1, 8, 9, 99, 999999996, 999999997, 999999998, 999999999, 1000000000]:
            for cur in range(1, 7):
                for prev in range(0, 7):
                    jobs.append(('number', parser, (n, prev, cur)))
    r.shuffle(jobs)
    validate(check, name, jobs[:count], {'number'})


# ---- all the characters -----------------------------------------------------
def unicode_slugs(check, name):
    """C05: the anchors of texts made of all the assigned characters."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    points = gen.code_points()
    if not check.quick:
        points = points + r.sample(points, len(points))
    jobs = []
    for k in range(0, len(points), 120):
        jobs.append(('slug', impl.ALL_PARSERS[k // 120 % 5],
                     ''.join(map(chr, points[k:k + 120]))))
    for k in range(400 if check.quick else 4000):
        s = ''.join(r.choice(['', 'a', ' ', 'B']) + chr(r.choice(points)) + r.choice(['', '', '\u0301', '-'])
                    for _ in range(r.randint(1, 12)))
        jobs.append(('slug', impl.ALL_PARSERS[k % 6], s))
    validate(check, name, jobs, {'slug'})


def unicode_flanks(check, name):
    """C19: runs of delimiters next to all the kinds of characters."""
    import unicodedata
    r = gen.rng(check.seed, check.prop, name, check.tier)
    points = gen.code_points()
    special = [c for c in points if unicodedata.category(chr(c))[0] in 'PZ']
    plain = r.sample(points, 6000 if check.quick else 60000)
    # what a run next to the character, and to something else on its other
    # side, can open and close
    forms = []
    for d in ('*', '_', '**', '__'):
        for near in ('a', '(', ')', ' ', ''):
            forms += ['%s' + d + near + 'b' + d + ' ', ' ' + d + near + 'b' + d + '%s ',
                      near + d + '%sb' + d + ' ', ' ' + d + 'b%s' + d + near + ' ',
                      ' ' + d + '(a)' + d + '%s' + near + ' ']
    jobs = []
    k = 0
    for group, times in ((special, 4 if check.quick else 24), (plain, 1)):
        for c in range(0, len(group), 6):
            for _ in range(times):
                k += 1
                jobs.append(('emphasis', impl.ALL_PARSERS[k % 5],
                             ''.join(r.choice(forms) % chr(x) for x in group[c:c + 6])))
    validate(check, name, jobs, {'emphasis'})


# ---- C26 -------------------------------------------------------------------
def range_calls(check, name, count):
    """Every single range around texts of up to four characters, then random ones."""
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for n in range(5):
        for a in range(-2, n + 2):
            for b in range(-2, n + 3):
                for step in (1, 2, -1, -2):
                    jobs.append(('without', 'github', ('abcd'[:n], [[a, b, step]])))
        jobs.append(('without', 'github', ('abcd'[:n], [])))
    for _ in range(count):
        s = gen.soup(r, ['a', 'b', 'é', '*', ' ', '日', '\U0001f600', '\n'], 0,
                     r.choice([2, 6, 20, 300]))
        ranges = []
        for _ in range(r.choice([0, 1, 2, 2, 3, 6])):
            a = r.randint(-3, len(s) + 2)
            ranges.append([a, r.choice([a, a + 1, a + 2, r.randint(-3, len(s) + 5)]),
                           r.choice([1, 1, 1, 1, 2, 3, -1, -2])])
            if ranges and r.random() < 0.2:
                ranges.append(list(r.choice(ranges)))
        r.shuffle(ranges)
        jobs.append(('without', 'github', (s, ranges)))
    validate(check, name, jobs, {'without'})


def every_helper(check, name):
    """The helpers on texts made of all the assigned characters."""
    points = gen.code_points()
    jobs = []
    for k in range(0, len(points), 150):
        s = ''.join(map(chr, points[k:k + 150]))
        parser = impl.ALL_PARSERS[k // 150 % 5]
        jobs.append(('words', parser, s))
        jobs.append(('split', parser, s))
    # nothing but spaces is indentation
    for c in points if not check.quick else [c for c in points if c < 0x3100]:
        if not chr(c).isalnum():
            jobs.append(('indented', impl.ALL_PARSERS[c % 5], chr(c) * 4 + 'a'))
    validate(check, name, jobs, {'words', 'split', 'indented'})
