"""Plant bugs: plant.py BUGS.py [ID ...] [--check]

BUGS.py holds BUGS, a list of dictionaries: id, property, needs, breaks, edits
(a list of (file, old, new)), demo (Python code; toc(text, **options) and
work (a scratch directory) are given; it must fail with the change).

Each is applied to a copy of /repo, tested and demonstrated; those which pass
are kept in /verif/seeded.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
TREE = '/dev/shm/plant-%d' % os.getpid()
PRE = '''import io
import os
import subprocess
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import md_toc
from md_toc import api

_scratch = tempfile.TemporaryDirectory()
work = _scratch.name


def path(name, text):
    p = os.path.join(work, name)
    with open(p, 'w', newline='') as f:
        f.write(text)
    return p


def read(p):
    with open(p, newline='') as f:
        return f.read()


def toc(text, **options):
    return api.build_toc(path('d.md', text), **options)


def program(*args, data=''):
    p = subprocess.run([sys.executable, '-B', '-m', 'md_toc'] + list(args), input=data,
                       capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=os.getcwd()))
    return p.returncode, p.stdout


'''
SH = '''#!/bin/bash
# Run with the repository as the working directory.
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def git(*a):
    return subprocess.run(['git', '-C', TREE] + list(a), check=True, capture_output=True,
                          text=True).stdout


def tests():
    out = os.path.join('/dev/shm', 'plant-%d.xml' % os.getpid())
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    '--timeout=300', '-o', 'python_files=tests.py test_*.py *_test.py',
                    '--doctest-modules', '--ignore=md_toc/tests/fuzzer.py',
                    '--ignore=md_toc/tests/benchmark.py', '-o', 'junit_family=xunit2',
                    '--junitxml=' + out, 'md_toc'], cwd=TREE, capture_output=True,
                   env=dict(os.environ, PYTHONPATH=TREE, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8',
                            PYTHONHASHSEED='0'))
    import xml.etree.ElementTree
    bad, good = [], 0
    for c in xml.etree.ElementTree.parse(out).iter('testcase'):
        if len(c) and c[0].tag in ('failure', 'error'):
            bad.append(c.get('name'))
        else:
            good += 1
    os.remove(out)
    return bad or ([] if good >= 25 else ['%d passed' % good])


def demo(folder):
    return subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=TREE,
                          capture_output=True, text=True, timeout=300)


def original(diff):
    """Whether a change removes a line of the original repository."""
    base = git('rev-list', '--max-parents=0', 'HEAD').split()[0]
    name = n = None
    for l in diff.splitlines():
        if l.startswith('--- '):
            name = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-'):
            who = git('blame', '-s', '-l', '-L%d,%d' % (n, n), 'HEAD', '--', name)
            if who.lstrip('^')[:39] == base[:39]:
                return True
            n += 1
        elif l.startswith(' '):
            n += 1
    return False


def main():
    args = sys.argv[1:]
    check = '--check' in args
    args = [a for a in args if a != '--check']
    scope = {}
    exec(open(args[0]).read(), scope)
    shutil.copytree('/repo', TREE)
    git('checkout', '--', '.')
    for b in scope['BUGS']:
        if args[1:] and b['id'] not in args[1:]:
            continue
        assert git('status', '--short') == '', 'dirty /repo'
        folder = os.path.join(SEEDED, b['id'])
        os.makedirs(folder, exist_ok=True)
        files = {'demo.sh': SH, 'demo.py': PRE + b['demo'].strip('\n') + '\n',
                 'meta.json': json.dumps(dict(property=b['property'], needs=b['needs'],
                                              what_it_breaks=b['breaks']), indent=1) + '\n'}
        for n, t in files.items():
            with open(os.path.join(folder, n), 'w') as f:
                f.write(t)
        problem = None
        d = demo(folder)
        if d.returncode != 0:
            problem = 'demo fails on the unchanged tree: ' + d.stderr[-600:]
        try:
            for name, old, new in b['edits']:
                p = os.path.join(TREE, 'md_toc', name)
                t = open(p).read()
                if t.count(old) != 1:
                    problem = 'found %d times: %r' % (t.count(old), old)
                    break
                open(p, 'w').write(t.replace(old, new))
            if not problem:
                with open(os.path.join(folder, 'patch.diff'), 'w') as f:
                    f.write(git('diff'))
                if not original(git('diff')):
                    print('  ', b['id'], 'changes no line of the original repository')
                bad = tests()
                if bad:
                    problem = 'tests fail: %s' % bad
                d = demo(folder)
                if d.returncode == 0:
                    problem = 'demo passes with the change'
                if not problem and check:
                    r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), b['property']],
                                       capture_output=True, text=True,
                                       env=dict(os.environ, MDTOC_TREE=TREE))
                    print('   check %s: exit %d %s' % (b['property'], r.returncode,
                          [x for x in r.stdout.splitlines() if x.startswith('first')][:1] and
                          [x for x in r.stdout.splitlines() if x.startswith('first')][0][:300]))
        finally:
            git('checkout', '--', '.')
        print(b['id'], 'kept' if not problem else 'DROPPED ' + problem, flush=True)
        if problem:
            for n in os.listdir(folder):
                os.remove(os.path.join(folder, n))
            os.rmdir(folder)


try:
    main()
finally:
    shutil.rmtree(TREE, ignore_errors=True)
