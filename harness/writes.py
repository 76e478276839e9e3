"""In-place writes seen from outside, with faults: AtomicWrite bound to the code."""

import json
import os
import shutil
import signal
import stat
import sys

import core
import files
import gen
import impl
import relations
import tlc

api = impl.api
M = files.MARKER


class Scene:
    """A directory with a target, the path leading to it and other files."""

    def __init__(self, job):
        self.job = job
        self.base = os.path.join(core.work(), 'scene')
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(os.path.join(self.base, 'd', 'sub'))
        os.makedirs(os.path.join(self.base, 'e'))
        self.target = os.path.join(self.base, 'd', 'target.md')
        impl.write(self.target, job['raw'])
        os.chmod(self.target, job['mode'])
        kind = job['path']
        self.path = self.target
        if kind == 'link':
            self.path = os.path.join(self.base, 'd', 'link.md')
            os.symlink('target.md', self.path)
        elif kind == 'far':
            self.path = os.path.join(self.base, 'e', 'far.md')
            os.symlink(os.path.join('..', 'd', 'target.md'), self.path)
        elif kind == 'absolute':
            self.path = os.path.join(self.base, 'e', 'abs.md')
            os.symlink(self.target, self.path)
        elif kind == 'chain':
            first = os.path.join(self.base, 'd', 'first.md')
            os.symlink('target.md', first)
            self.path = os.path.join(self.base, 'e', 'second.md')
            os.symlink('../d/first.md', self.path)
        elif kind == 'through':
            os.symlink('d', os.path.join(self.base, 'f'))
            self.path = os.path.join(self.base, 'f', 'target.md')
        for name in ('neighbour.md', '.hidden', 'target.md~', 'work', 'target.md.bak', 'tmp',
                     'target.md.tmp', '.target.md.swp'):
            impl.write(os.path.join(self.base, 'd', name), 'content of %s\n%s\n' % (name, M))
        impl.write(os.path.join(self.base, 'e', 'file'), 'x')
        self.cwd = os.path.join(self.base, 'd')
        self.name = os.path.relpath(self.path, self.cwd) if job['relative'] else self.path
        self.before = self.entries()
        self.links = self.linkstate()
        self.mode = stat.S_IMODE(os.stat(self.target).st_mode)

    def entries(self):
        """Every other file: content, mode, kind."""
        out = {}
        for top, dirs, names in os.walk(self.base):
            for n in dirs + names:
                p = os.path.join(top, n)
                if p == self.target:
                    continue
                s = os.lstat(p)
                if stat.S_ISREG(s.st_mode):
                    out[p] = (s.st_mode, impl.read(p))
                elif stat.S_ISLNK(s.st_mode):
                    out[p] = ('link', os.readlink(p))
                else:
                    out[p] = (s.st_mode,)
        return out

    def linkstate(self):
        out = []
        for top, dirs, names in os.walk(self.base):
            for n in dirs + names:
                p = os.path.join(top, n)
                if os.path.islink(p):
                    out.append((p, os.readlink(p)))
        try:
            return sorted(out), stat.S_ISREG(os.lstat(self.target).st_mode)
        except OSError:
            return sorted(out), False

    def content(self):
        try:
            data = impl.read(self.path)
        except OSError:
            return 'torn'
        if data == self.job['new']:
            return 'new'
        return 'old' if data == self.job['raw'].encode('utf-8') else 'torn'

    def snap(self, phase):
        now = self.entries()
        try:
            mode = stat.S_IMODE(os.stat(self.target).st_mode) == self.mode
        except OSError:
            mode = False
        return dict(target=self.content(), mode=mode, link=self.linkstate() == self.links,
                    work=len(set(now) - set(self.before)),
                    others=all(now.get(p) == v for p, v in self.before.items()), phase=phase)

    def brief(self):
        """What changes when something happens to the target."""
        try:
            s = os.stat(self.path)
            return s.st_ino, s.st_size, s.st_mtime_ns, s.st_mode
        except OSError:
            return None

    def write(self):
        """The operation: 'ended', or 'failed' if it raised an exception."""
        os.chdir(self.cwd)
        try:
            if self.job['program']:
                code, _, _ = impl.program(
                    ['-p', '-n', self.job['nl'].replace('\r', r'\r').replace('\n', r'\n'), '-c',
                     'github', self.name], limit=60.0)
                return 'ended' if code == 0 else 'failed'
            kind, _ = impl.call(api.write_string_on_file_between_markers, self.name,
                                self.job['toc'], M, self.job['nl'], limit=60.0)
            return 'ended' if kind == 'ok' else 'failed'
        finally:
            os.chdir('/')


def expected(job):
    """The content an uninterrupted write gives."""
    scene = Scene(dict(job, new=None))
    if scene.write() != 'ended':
        return None
    try:
        return impl.read(scene.path)
    except OSError:
        return b'\0 lost'


def watched(job):
    """Snapshots at each line (or each operation) of Python code."""
    scene = Scene(job)
    snaps = [scene.snap('running')]
    last = [scene.brief()]
    opcodes = job['how'] == 'opcodes'
    events = [0]

    def look():
        events[0] += 1
        b = scene.brief()
        if b != last[0]:
            last[0] = b
            if len(snaps) < 200:
                snaps.append(scene.snap('running'))

    def local(frame, event, arg):
        look()
        return local

    def tracer(frame, event, arg):
        if opcodes:
            frame.f_trace_opcodes = True
        look()
        return local

    os.chdir(scene.cwd)
    sys.settrace(tracer)
    try:
        phase = scene.write()
    finally:
        sys.settrace(None)
    snaps.append(scene.snap(phase))
    return dict(snaps=snaps), events[0]


CLEANING = {'rmtree', '_rmtree', '_rmtree_safe_fd', '_rmtree_safe_fd_step', 'cleanup', '_cleanup',
            '_rmtree_unsafe'}
HARMLESS = {'os.remove', 'os.rmdir', 'os.unlink', 'os.scandir', 'os.listdir', 'shutil.rmtree',
            'os.chdir', 'os.putenv', 'os.unsetenv'}


def child(f):
    """Run f in a forked process: its exit status, or None if it was killed."""
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            status = f()
        finally:
            os._exit(status)
    _, s = os.waitpid(pid, 0)
    return os.WEXITSTATUS(s) if os.WIFEXITED(s) else None


def faulted(job, n):
    """An error at the n-th operation on files: the record, or None after the last."""
    scene = Scene(job)
    first = scene.snap('running')

    def run():
        count = [0]

        def hook(event, args):
            if not (event == 'open' or event.startswith(('os.', 'shutil.', 'tempfile.'))):
                return
            if event in HARMLESS or not live[0]:
                return
            f = sys._getframe(1)
            while f is not None:
                if f.f_code.co_name in CLEANING:
                    return
                f = f.f_back
            count[0] += 1
            if count[0] == n:
                raise OSError(28, 'No space left on device')
        live = [False]
        sys.addaudithook(hook)
        live[0] = True
        phase = scene.write()
        live[0] = False
        if count[0] < n:
            return 9
        return 0 if phase == 'ended' else 1

    status = child(run)
    if status == 9:
        return None
    phase = {0: 'ended', 1: 'failed'}.get(status, 'crashed')
    last = scene.snap(phase)
    if phase == 'ended' and last['target'] == 'old':
        # The error was met and ignored before anything was written.
        last['phase'] = 'failed'
    return dict(snaps=[first, last])


def limited(job, size):
    """No file may grow past size bytes."""
    scene = Scene(job)
    first = scene.snap('running')

    def run():
        import resource
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
        return 0 if scene.write() == 'ended' else 1

    status = child(run)
    phase = {0: 'ended', 1: 'failed'}.get(status, 'crashed')
    return dict(snaps=[first, scene.snap(phase)])


def crashed(job, n, size=None):
    """The process is killed at the n-th line of Python code (size[0]: how many there are)."""
    scene = Scene(job)
    first = scene.snap('running')

    def run():
        count = [0]

        def local(frame, event, arg):
            count[0] += 1
            if count[0] == n:
                os.kill(os.getpid(), signal.SIGKILL)
            return local

        def tracer(frame, event, arg):
            if 'harness' in frame.f_code.co_filename:
                return None
            return local(frame, event, arg) and local

        sys.settrace(tracer)
        scene.write()
        sys.settrace(None)
        os.write(end[1], b'%d' % count[0])
        return 9

    end = os.pipe()
    try:
        status = child(run)
        if status == 9:
            if size is not None:
                size.append(int(os.read(end[0], 20)))
            return None
    finally:
        os.close(end[0])
        os.close(end[1])
    return dict(snaps=[first, scene.snap('crashed')])


def records(job):
    """(how, record) for each run of a job."""
    os.environ['TMPDIR'] = core.work()
    import tempfile
    tempfile.tempdir = None
    job = dict(job)
    job['new'] = expected(job)
    if job['new'] is None:
        return [], 1
    out = []
    how = job['how']
    if how in ('lines', 'opcodes'):
        rec, events = watched(job)
        out.append((how, rec))
    elif how == 'faults':
        for n in range(1, 200):
            rec = faulted(job, n)
            if rec is None:
                break
            out.append(('fault %d' % n, rec))
    elif how == 'limits':
        top = len(job['new'])
        for size in sorted({0, 1, top // 2, max(0, top - 1), len(job['raw'].encode()), top}):
            out.append(('limit %d' % size, limited(job, size)))
    elif how == 'crashes':
        size = []
        crashed(job, 0, size)
        step = max(job['step'], size[0] // job['most'])
        for n in sorted(set(range(1, size[0] + 1, step)) |
                        set(range(max(1, size[0] - job['last']), size[0] + 1))):
            rec = crashed(job, n)
            if rec is None:
                break
            out.append(('crash %d' % n, rec))
    return out, 0


def _records(jobs):
    return [records(j) for j in jobs]


def model(check, name):
    cfg = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Safety\nPROPERTY OneStep\n')
    res = tlc.run('AtomicWrite', cfg, check.scratch)
    check.tlc(name, res)


def validate(check, name, jobs):
    jobs = list(jobs)
    parts = [(b, check.workers().apply_async(_records, (b,))) for b in core.batches(jobs, 2)]
    kept = []
    broken = 0
    path = os.path.join(check.scratch, 'writes.ndjson')
    with open(path, 'w') as f:
        for b, p in parts:
            for job, (recs, bad) in zip(b, p.get()):
                broken += bad
                for how, rec in recs:
                    kept.append((job, how, rec))
                    f.write(json.dumps(rec) + '\n')
    if broken:
        check.fail('write', dict(stage=name, clauses=['exception'], count=broken))
    seen = {}

    def sink(text):
        v = json.loads(text)
        seen[v[0]] = v[1:]

    cfg = 'SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    if kept:
        res = tlc.run('TraceWrite', cfg, check.scratch, env={'TRACE': path}, sink=sink)
        check.tlc(name, res)
        if len(seen) != len(kept):
            raise tlc.TlcError('%d records, %d consumed' % (len(kept), len(seen)))
    bads = []
    for k, v in seen.items():
        if v:
            job, how, rec = kept[k - 1]
            bads.append(dict(job, event=how, clauses=sorted(v[0]), snaps=rec['snaps'][:6]))
    bads.sort(key=lambda b: len(json.dumps(b)))
    for b in bads:
        check.fail('write', dict(b, stage=name))
    for job, how, rec in kept[:2]:
        check.example(dict(job, stage=name, event=how, snaps=rec['snaps'][:4]))
    check.traces += len(kept)
    check.part(name, writes=len(jobs), traces=len(kept),
               snapshots=sum(len(r['snaps']) for _, _, r in kept))


PATHS = ['plain', 'plain', 'link', 'far', 'absolute', 'chain', 'through']
MODES = [0o644, 0o600, 0o755, 0o664, 0o640, 0o444, 0o700, 0o606, 0o2664, 0o1644, 0o4755]


def random_jobs(check, name, count, how, step=1):
    r = gen.rng(check.seed, check.prop, name, check.tier)
    jobs = []
    for k in range(count):
        toc = files.toc_text(r)
        lines = files.file_lines(r, M, toc)
        x = r.random()
        if x < 0.9 and M not in lines:
            lines.insert(r.randint(0, len(lines)), M)
        style = r.choice(relations.NEWLINES + ['\n', '\n'])
        raw = relations.encode(r, lines, style)
        if r.random() < 0.1:
            raw = raw + ('text of a longer file ' * 10 + style) * r.choice([10, 60])
        program = r.random() < 0.25
        if program and how != 'limits':
            raw = style.join(['# a', '## b', M, 'text']) + style
        else:
            program = False
        jobs.append(dict(raw=raw, toc=toc, nl=r.choice(relations.NEWLINES + ['\n', '\n']),
                         mode=r.choice(MODES), path=r.choice(PATHS), relative=r.random() < 0.4,
                         program=program, how=how, step=step,
                         most=120 if check.quick else 600, last=60 if check.quick else 200))
    return jobs
