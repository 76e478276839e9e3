"""Mutation analysis of the checks, on copies of /repo: mutate.py PHASE

make     mutants of every statement (results in /tmp/x/mut)
test     keep those which pass the existing tests
differ   keep those whose results differ on a corpus of random inputs (the
         others are listed: either equivalent or out of reach of the generators)
check    run the checks on those which differ; list the missed ones
"""
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = '/tmp/x/mut'
FILES = ['api.py', 'generic.py', 'cli.py', 'constants.py', '__main__.py',
         'cmark/inlines_c.py', 'cmark/scanners_c.py', 'cmark/utf8_c.py', 'cmark/cmark_ctype_c.py',
         'cmark/chunk_h.py', 'cmark/references_c.py', 'cmark/houdini_html_u_c.py',
         'cmark/node_c.py', 'cmark/buffer_c.py', 'cmark/cmark_h.py', 'cmark/node_h.py']
COMPARE = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'],
           ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
           ast.Is: ['is not'], ast.IsNot: ['is']}
BINARY = {ast.Add: '-', ast.Sub: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.Mult: '+'}


def offsets(src):
    o, n = [0], 0
    for l in src.splitlines(keepends=True):
        n += len(l.encode())
        o.append(n)
    return o


def mutants(name):
    src = open('/repo/md_toc/' + name).read()
    tree = ast.parse(src)
    o = offsets(src)
    data = src.encode()
    out = []

    def span(n):
        return o[n.lineno - 1] + n.col_offset, o[n.end_lineno - 1] + n.end_col_offset

    def put(n, new, kind):
        a, b = span(n)
        out.append(dict(file=name, line=n.lineno, a=a, b=b, new=new, kind=kind,
                        old=data[a:b].decode()))

    def seg(n):
        a, b = span(n)
        return data[a:b].decode()

    doc = set()
    hints = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        for f in ('annotation', 'returns'):
            h = getattr(n, f, None)
            if h is not None:
                hints.update(ast.walk(h))
    for n in ast.walk(tree):
        if n in hints:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in COMPARE.get(type(n.ops[0]), []):
                put(n, '(%s) %s (%s)' % (seg(n.left), new, seg(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + op2.join('(%s)' % seg(v) for v in rest) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in BINARY:
            put(n, '(%s) %s (%s)' % (seg(n.left), BINARY[type(n.op)], seg(n.right)), 'arith')
        elif isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'const')
                if n.value > 0:
                    put(n, str(n.value - 1), 'const')
            elif isinstance(n.value, str) and n.value:
                s = n.value
                if name == 'cli.py' and len(s) > 12:
                    continue
                for new in {s[:-1], s[1:], s + 'x'}:
                    put(n, '(%r)' % new if new else "('')", 'str')
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, 'True' if isinstance(n, ast.If) else '(%s) and False' % seg(n.test), 'cond')
            if isinstance(n, ast.If):
                put(n.test, 'False', 'cond')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Raise, ast.Continue,
                            ast.Break, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.AugAssign):
                op = {ast.Add: '-=', ast.Sub: '+='}.get(type(n.op))
                if op:
                    put(n, '%s %s %s' % (seg(n.target), op, seg(n.value)), 'aug')
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                'strip', 'lstrip', 'rstrip', 'lower', 'replace'):
            put(n, seg(n.func.value), 'method')
    return out


def apply(m, tree):
    p = os.path.join(tree, 'md_toc', m['file'])
    data = open(p, 'rb').read()
    with open(p, 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])
    return p, data


def slot():
    k = multiprocessing.current_process()._identity[0]
    tree = '/dev/shm/mut-%d' % k
    if not os.path.isdir(tree):
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns('.git'))
    return k, tree


ENV = dict(os.environ, LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def run(cmd, cwd, limit, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=limit, env=dict(ENV, **env), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'hang', ''


def test(m):
    _, tree = slot()
    p, data = apply(m, tree)
    try:
        code, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                         '--timeout=20', '-o', 'python_files=tests.py', '--doctest-modules',
                         '--ignore=md_toc/tests/fuzzer.py', '--ignore=md_toc/tests/benchmark.py',
                         'md_toc'], tree, 40, PYTHONPATH=tree)
        return code == 0
    finally:
        open(p, 'wb').write(data)


def differ(m):
    _, tree = slot()
    p, data = apply(m, tree)
    try:
        kind = 'cmark' if 'cmark' in m['file'] else 'all'
        code, out = run(['/opt/venv/bin/python', os.path.join(HERE, 'mutate_corpus.py'), kind,
                         os.path.join(OUT, kind + '.base')], tree, 120,
                        MDTOC_TREE=tree, PYTHONUTF8='1')
        return [code, out.strip().splitlines()[-1:] if code == 0 else 'fails']
    finally:
        open(p, 'wb').write(data)


WHICH = {
    'cmark': ['C19', 'C05', 'C17'],
    'api.py': ['C01', 'C05', 'C02', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C15', 'C16',
               'C17', 'C18', 'C19', 'C20', 'C21', 'C11', 'C13', 'C14', 'C22', 'C23'],
    'generic.py': ['C10', 'C12', 'C11', 'C05', 'C17', 'C18', 'C16'],
    'cli.py': ['C14', 'C13', 'C12', 'C15'],
    'constants.py': ['C20', 'C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C14', 'C22', 'C05', 'C16'],
    '__main__.py': ['C14'],
}


FIRST = {  # the checks most likely to see a change of a function
    'tocs_equal': 'C12', 'write_string_on_file_between_markers': 'C10 C12 C18 C16',
    'write_strings_on_files_between_markers': 'C12 C15 C13', 'build_multiple_tocs': 'C13 C14',
    'build_toc': 'C01 C08 C09 C07 C21 C17', 'increase_index_ordered_list': 'C08',
    'init_indentation_log': 'C07', 'compute_toc_line_indentation_spaces': 'C07',
    'build_toc_line_without_indentation': 'C08 C01', 'build_toc_line': 'C07',
    'remove_html_tags': 'C20', 'remove_emphasis': 'C19', 'filter_indices_from_line': 'C19',
    'anchor_link_punctuation_filter': 'C05', 'build_anchor_link': 'C05 C06',
    'replace_and_split_newlines': 'C02', 'get_atx_heading': 'C02 C04', 'get_md_header': 'C05 C06',
    'is_valid_code_fence_indent': 'C03', 'is_opening_code_fence': 'C03', 'is_closing_code_fence': 'C03',
    'write_toc': 'C14', '_get_existing_toc': 'C10 C12', '_string_empty': 'C10', '_detect_toc_list': 'C10',
    '_read_line_interval': 'C10', '_extract_lines': 'C12',
}


def order(m):
    tree = ast.parse(open('/repo/md_toc/' + m['file']).read())
    name = ''
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno <= m['line'] <= n.end_lineno:
            name = n.name
    first = FIRST.get(name, '').split()
    return first + [c for c in WHICH.get(m['file'], WHICH['cmark']) if c not in first]


def checks(m):
    k, tree = slot()
    verif = '/dev/shm/mv-%d' % k
    if not os.path.isdir(verif):
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns('.git', 'seeded'))
    p, data = apply(m, tree)
    try:
        log = []
        for c in order(m):
            code, out = run(['python3', 'check.py', c], verif, 900, MDTOC_TREE=tree)
            log.append([c, code])
            if code == 1:
                first = [l for l in out.splitlines() if l.startswith('first')]
                return c, log, (first or [''])[0][:300]
        return None, log, ''
    finally:
        open(p, 'wb').write(data)


def load(name):
    return json.load(open(os.path.join(OUT, name)))


def save(name, v):
    json.dump(v, open(os.path.join(OUT, name), 'w'), indent=0)


def show(m):
    return '%s:%d %s: %r -> %r' % (m['file'], m['line'], m['kind'], m['old'][:90], m['new'][:90])


def main():
    phase = sys.argv[1]
    os.makedirs(OUT, exist_ok=True)
    if phase == 'make':
        ms = []
        for f in FILES:
            got = []
            for m in mutants(f):
                data = open('/repo/md_toc/' + f, 'rb').read()
                try:
                    compile(data[:m['a']] + m['new'].encode() + data[m['b']:], f, 'exec')
                except (SyntaxError, ValueError):
                    continue
                got.append(m)
            print(f, len(got))
            ms += got
        save('all.json', ms)
        return
    width = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    with multiprocessing.Pool(width) as pool:
        if phase == 'test':
            ms = load('all.json')
            ok = pool.map(test, ms, 4)
            save('alive.json', [m for m, x in zip(ms, ok) if x])
            print(len(ms), sum(ok))
        elif phase == 'differ':
            bases = {}
            for kind in ('cmark', 'all'):
                code, base = run(['/opt/venv/bin/python', os.path.join(HERE, 'mutate_corpus.py'), kind],
                                 '/repo', 120, MDTOC_TREE='/repo', PYTHONUTF8='1')
                assert code == 0, base
                open(os.path.join(OUT, kind + '.base'), 'w').write(base.strip().splitlines()[-1])
                bases[kind] = [code, base.strip().splitlines()[-1:]]
            ms = load('alive.json')
            got = pool.map(differ, ms, 1)
            save('differ.json', [m for m, g in zip(ms, got) if g != bases[
                'cmark' if 'cmark' in m['file'] else 'all']])
            same = [m for m, g in zip(ms, got) if g == bases[
                'cmark' if 'cmark' in m['file'] else 'all']]
            save('same.json', same)
            print(len(ms), len(same))
        elif phase == 'check':
            ms = load(sys.argv[3] if len(sys.argv) > 3 else 'differ.json')
            random.Random(1).shuffle(ms)
            missed = []
            for m, (c, log, first) in zip(ms, pool.imap(checks, ms)):
                print('MISSED' if c is None else c, show(m), first[:120], '' if c else log, flush=True)
                if c is None:
                    missed.append(m)
                    save('missed.json', missed)


if __name__ == '__main__':
    main()
