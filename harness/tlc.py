"""Run TLC on a module of /verif/spec and collect what it prints."""

import json
import os
import re
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TlcError(Exception):
    """TLC could not be run to completion."""


class Result:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.broken = []      # violated invariants or properties
        self.lines = []       # raw JSON strings, unless a sink took them
        self.tail = []
        self.actions = {}     # action -> (distinct, generated), with coverage


MOST = 8 << 20       # bytes of the records given to TLC at a time


def pieces(path, scratch):
    """Split a file of records: [(path, records before it)]."""
    if os.path.getsize(path) <= MOST:
        return [(path, 0)]
    out = []
    n = size = 0
    f = None
    with open(path) as records:
        for line in records:
            if f is None or size > MOST:
                if f is not None:
                    f.close()
                out.append((os.path.join(scratch, 'piece%d.ndjson' % len(out)), n))
                f = open(out[-1][0], 'w')
                size = 0
            f.write(line)
            size += len(line)
            n += 1
    f.close()
    return out


def run(module, cfg, scratch, env=None, sink=None, **options):
    """Run TLC, on a part of the records after another if they are many.

    The first element of what is printed for a record, or "t", is its number.
    """
    if not env or 'TRACE' not in env:
        return run_once(module, cfg, scratch, env, sink=sink, **options)
    parts = pieces(env['TRACE'], scratch)
    if len(parts) == 1:
        return run_once(module, cfg, scratch, env, sink=sink, **options)
    total = Result()
    for path, before in parts:
        def shifted(text):
            v = json.loads(text)
            if isinstance(v, dict):
                v['t'] += before
            else:
                v[0] += before
            if sink is not None:
                sink(json.dumps(v))
            else:
                total.lines.append(json.dumps(v))

        res = run_once(module, cfg, scratch, dict(env, TRACE=path), sink=shifted, **options)
        os.remove(path)
        total.generated += res.generated
        total.distinct += res.distinct
        total.depth = max(total.depth, res.depth)
        total.broken += res.broken
        total.tail = res.tail
        for k, (a, b) in res.actions.items():
            x, y = total.actions.get(k, (0, 0))
            total.actions[k] = (a + x, b + y)
    return total


def run_once(module, cfg, scratch, env=None, workers=8, sink=None, timeout=800,
             heap='6g', coverage=False, extra=()):
    """Run TLC.

    cfg is the text of the configuration.  Every line TLC prints that holds a
    JSON text is given to sink (or kept in the result).
    """
    work = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    cfg_path = os.path.join(work, module + '.cfg')
    with open(cfg_path, 'w') as f:
        f.write(cfg)
    command = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
               '-noGenerateSpecTE', '-nowarning', '-config', cfg_path]
    if coverage:
        command += ['-coverage', '1']
    command += list(extra)
    command.append(os.path.join(SPEC, module + '.tla'))
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    res = Result()
    proc = subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            env=e, cwd=work, text=True, encoding='utf-8',
                            errors='replace')
    import threading
    timer = threading.Timer(timeout, proc.kill)
    timer.start()
    finished = False
    try:
        for line in proc.stdout:
            if line.startswith('"{') or line.startswith('"['):
                text = json.loads(line)
                if sink is not None:
                    sink(text)
                else:
                    res.lines.append(text)
                continue
            line = line.rstrip('\n')
            res.tail.append(line)
            m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct', line)
            if m:
                res.generated = int(m.group(1).replace(',', ''))
                res.distinct = int(m.group(2).replace(',', ''))
            m = re.match(r'The depth of the complete state graph search is (\d+)', line)
            if m:
                res.depth = int(m.group(1))
            m = re.match(r'Error: (?:Invariant|Action property|Temporal property|Evaluating invariant) (\w+)', line)
            if m:
                res.broken.append(m.group(1))
            if line.startswith('Error: Temporal properties were violated'):
                res.broken.append('temporal')
            m = re.match(r'<(\w+) line .*>: (\d+):(\d+)', line)
            if m:
                res.actions[m.group(1)] = (int(m.group(2)), int(m.group(3)))
            if line.startswith('Model checking completed. No error'):
                finished = True
        proc.wait()
    finally:
        timer.cancel()
        if proc.poll() is None:
            proc.kill()
    if not finished and not res.broken:
        raise TlcError('TLC did not complete %s:\n%s' % (module, '\n'.join(res.tail[-40:])))
    return res
