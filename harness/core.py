"""The context of a check: scratch space, worker pool, violations, evidence."""

import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known-findings.json')

_work = None


def _init(scratch):
    global _work
    _work = tempfile.mkdtemp(prefix='w', dir=scratch)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def work():
    """A private directory of the current worker process."""
    global _work
    if _work is None or not os.path.isdir(_work):
        _work = tempfile.mkdtemp(prefix='w', dir=os.environ.get('MDTOC_SCRATCH'))
    return _work


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == 'quick'
        self.start = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='mdtoc-verif-', dir=base)
        os.environ['MDTOC_SCRATCH'] = self.scratch
        self.pool = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.examples = []
        self.parts = {}
        self.violations = []
        self.known = {}
        self.findings = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                self.findings = [x for x in json.load(f)['findings']
                                 if x['property'] == prop]

    # ---- work ----------------------------------------------------------
    def workers(self):
        if self.pool is None:
            self.pool = multiprocessing.get_context('fork').Pool(
                8, initializer=_init, initargs=(self.scratch,))
        return self.pool

    def fresh(self, f, args):
        """Call f on each argument in a process which did nothing before."""
        # This process calls nothing of the implementation, so its copies are
        # as good as new.
        with multiprocessing.get_context('fork').Pool(
                8, initializer=_init, initargs=(self.scratch,), maxtasksperchild=1) as pool:
            return pool.map(f, args, chunksize=1)

    def tlc(self, part, result, traces=0):
        """Account for a run of TLC."""
        self.states += result.distinct
        self.transitions += result.generated
        self.traces += traces
        self.part(part, states=result.distinct, transitions=result.generated)
        for name in result.broken:
            self.fail('spec', dict(module=part, broken=name, tail=result.tail[-60:]))

    def part(self, name, **values):
        p = self.parts.setdefault(name, {})
        for k, v in values.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                p[k] = p.get(k, 0) + v
            else:
                p[k] = v

    def example(self, x, most=4):
        """Keep a case of this run for the evidence, a few for each stage."""
        if sum(e.get('stage') == x.get('stage') for e in self.examples) < most:
            self.examples.append(x)

    # ---- verdicts ------------------------------------------------------
    def fail(self, kind, detail):
        """Record a violation, unless it is a listed finding."""
        for f in self.findings:
            if f['kind'] == kind and all(detail.get(k) == v for k, v in f['match'].items()):
                self.known[f['what']] = self.known.get(f['what'], 0) + 1
                return
        self.violations.append(dict(kind=kind, detail=detail))

    def abort(self):
        if self.pool is not None:
            self.pool.terminate()
            self.pool.join()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        self.abort()
        out = os.path.join(ROOT, 'evidence')
        os.makedirs(out, exist_ok=True)
        replay = os.path.join(out, 'replay-%s.json' % self.prop)
        if self.violations:
            with open(replay, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed,
                               violations=self.violations[:50]), f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        from props import LEVEL, ASSUMPTIONS
        coverage = dict(states=self.states, transitions=self.transitions,
                        traces_validated_against_impl=self.traces,
                        random_cases=self.cases, samples=self.examples,
                        parts=self.parts)
        evidence = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVEL,
                        coverage=coverage, assumptions=ASSUMPTIONS.get(self.prop, []) +
                        ASSUMPTIONS['*'],
                        wall_s=round(time.time() - self.start, 2),
                        violations=len(self.violations))
        with open(os.path.join(out, self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        for what, n in self.known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        print('%s %s: %d states, %d transitions, %d traces, %d random cases, %.1f s' %
              (self.prop, self.tier, self.states, self.transitions, self.traces, self.cases,
               time.time() - self.start))
        for name, p in self.parts.items():
            print('  %s: %s' % (name, ', '.join('%s=%s' % x for x in p.items())))
        if self.violations:
            v = self.violations[0]
            print('first violation: ' + json.dumps(v)[:3000])
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        return 0


def batches(items, n):
    batch = []
    for x in items:
        batch.append(x)
        if len(batch) >= n:
            yield batch
            batch = []
    if batch:
        yield batch


def log(*a):
    print(*a, file=sys.stderr, flush=True)
