"""Simulated machine for the experiment pipeline: the real programs of dardel/ and reproduce_paper_plots/ run in-process as
jobs on a scratch file system whose every open and write is an event of the schedule.

At an event the schedule may kill the job (nothing it buffers later reaches the disk), fail the operation (EIO, ENOSPC) or
preempt the job and run another one to completion (jobs are separate processes in reality: they share only the disk).
"""
import builtins
import contextlib
import errno
import gc
import io
import os
import random
import runpy
import shutil
import sys
import tempfile
import warnings

import numpy as np

from vsim import core


REAL = [(builtins, 'open', builtins.open), (io, 'open', io.open), (shutil, 'rmtree', shutil.rmtree)] + \
    [(os, n, getattr(os, n)) for n in ('remove', 'unlink', 'rename', 'replace', 'rmdir')]


@contextlib.contextmanager
def host():
    """The harness's own view of files while a job is suspended"""
    old = [(o, n, getattr(o, n)) for o, n, _ in REAL]
    for o, n, v in REAL:
        setattr(o, n, v)
    cwd = os.getcwd()
    try:
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)
        os.chdir(cwd)


class Killed(BaseException):
    """SIGKILL of the simulated process."""


DIRS = ['benes_bernoulli_brute_force', 'benes_bernoulli_ghf', 'benes_bernoulli_mf', 'benes_bernoulli_pf', 'benes_bernoulli_errs',
        'convergence', 'parameter_estimation_ghf_ekf', 'parameter_estimation_mf', 'parameter_estimation_pf',
        'parameter_estimation_pf_cr', 'prey_predator_ghf_ekf', 'prey_predator_mf', 'prey_predator_pf', 'prey_predator_cramer_rao',
        'times']


class Disk:
    """Scratch directory with dardel/ and reproduce_paper_plots/; removed on exit."""

    def __init__(self, keys=None):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='vsim-', dir=base))
        self.dardel = os.path.join(self.root, 'dardel')
        self.plots = os.path.join(self.root, 'reproduce_paper_plots')
        os.makedirs(self.plots)
        for d in DIRS:
            os.makedirs(os.path.join(self.dardel, 'results', d))
        if keys is not None:
            np.save(os.path.join(self.dardel, 'rng_keys.npy'), keys)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, rel):
        return os.path.join(self.dardel, 'results', rel)

    def inside(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def rel(self, p):
        return os.path.relpath(os.path.realpath(os.fspath(p)), self.root)

    def files(self):
        out = []
        for d, _, fs in os.walk(os.path.join(self.dardel, 'results')):
            out += [os.path.relpath(os.path.join(d, f), os.path.join(self.dardel, 'results')) for f in fs]
        return sorted(out)

    def load(self, rel):
        """Contents of a result file (harness side), or None if it is missing or not a readable archive."""
        try:
            with np.load(self.path(rel), allow_pickle=False) as z:
                return {k: z[k] for k in z.files}
        except Exception:
            return None


class _W:
    """File opened for writing: each write is an event."""

    def __init__(self, f, m, name):
        self.__dict__.update(_f=f, _m=m, _n=name)

    def write(self, b):
        n = len(b) if not isinstance(b, memoryview) else b.nbytes
        if self._m.dead:
            return n
        self._m.event('write', self._n, n)
        return self._f.write(b)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def close(self):
        if not self._f.closed and not self._m.dead:
            self._f.flush()
        return self._f.close()

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._f)


class Job:
    """One program run. plan: {event index: [kind, arg]} with kinds kill, eio, enospc, preempt."""

    def __init__(self, machine, argv, plan=None, cwd=None):
        self.M, self.argv, self.plan, self.cwd = machine, argv, dict(plan or {}), cwd or machine.disk.dardel
        self.n, self.dead, self.full = 0, False, False
        self.reads, self.writes, self.removed = [], [], []
        self.status = None

    # -- events
    def event(self, kind, name, size=0):
        if self.dead:
            raise Killed()
        i, self.n = self.n, self.n + 1
        f = self.plan.get(i) or self.plan.get(str(i))
        log = self.M.log
        if kind != 'write':
            log.ev('io.' + kind, name)
        if f:
            if f[0] == 'kill':
                log.fault('job.kill', name)
                self.dead = True
                raise Killed()
            if f[0] == 'eio' and kind == 'read':
                log.fault('disk.eio', name)
                raise OSError(errno.EIO, 'Input/output error', name)
            if f[0] == 'enospc' and kind in ('write', 'create'):
                log.fault('disk.enospc', name)
                self.full = True
            if f[0] == 'preempt' and self.M.preempt:
                log.fault('job.preempt', name)
                self.M.preempt(f[1])
        if self.full and kind in ('write', 'create'):
            raise OSError(errno.ENOSPC, 'No space left on device', name)

    def open(self, file, mode='r', *a, **kw):
        d = self.M.disk
        if isinstance(file, int) or not d.inside(file):
            if not isinstance(file, int) and any(c in mode for c in 'wax+'):
                raise PermissionError(errno.EACCES, 'outside the simulated disk', str(file))
            return self.M.real_open(file, mode, *a, **kw)
        rel = d.rel(file)
        if any(c in mode for c in 'wax+'):
            self.event('create', rel)
            self.writes.append(rel)
            return _W(self.M.real_open(file, mode, *a, **kw), self, rel)
        self.event('read', rel)
        self.reads.append(rel)
        return self.M.real_open(file, mode, *a, **kw)

    def guard(self, real, nm):
        def f(p, *a, **kw):
            for q in (p,) + tuple(x for x in a if isinstance(x, (str, os.PathLike))):
                if not self.M.disk.inside(q):
                    raise PermissionError(errno.EACCES, f'{nm} outside the simulated disk', str(q))
            self.event(nm, self.M.disk.rel(p))
            self.removed.append((nm, self.M.disk.rel(p)))
            return real(p, *a, **kw)
        return f

    def run(self):
        """Returns 0, or the name of the error the program ended with, or 'killed'."""
        M = self.M
        M.log.ev('job.start', ' '.join(self.argv))
        old = (sys.argv, sys.stdout, sys.stderr, os.getcwd(), builtins.open, io.open)
        oldfs = {n: getattr(os, n) for n in ('remove', 'unlink', 'rename', 'replace', 'rmdir')}
        oldrm = shutil.rmtree
        st = (random.getstate(), np.random.get_state())
        random.seed(M.entropy())
        np.random.seed(M.entropy() % 2 ** 32)
        sys.argv = list(self.argv)
        sys.stdout = sys.stderr = io.StringIO()
        os.chdir(self.cwd)
        builtins.open = io.open = self.open
        for n, r in oldfs.items():
            setattr(os, n, self.guard(r, n))
        shutil.rmtree = self.guard(oldrm, 'rmtree')
        path = list(sys.path)
        self.err = ''
        hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                self.globals = runpy.run_path(os.path.join(core.REPO, self.argv[0]), run_name='__main__')
            self.status = 0
        except Killed:
            self.status = 'killed'
        except SystemExit as e:
            self.status = 0 if e.code in (None, 0) else f'SystemExit({e.code})'
        except (core.Violation, core.Skip):
            raise
        except Exception as e:
            self.status = type(e).__name__
            self.err = str(e)[:300]
            self.exc = e
        finally:
            self.out = sys.stdout.getvalue() if isinstance(sys.stdout, io.StringIO) else ''
            sys.argv, sys.stdout, sys.stderr = old[:3]
            os.chdir(old[3])
            builtins.open, io.open = old[4:]
            for n, r in oldfs.items():
                setattr(os, n, r)
            shutil.rmtree = oldrm
            sys.path[:] = path
            gc.collect() if self.full or self.dead else None
            sys.unraisablehook = hook
            random.setstate(st[0])
            np.random.set_state(st[1])
        M.log.ev('job.end', str(self.status))
        return self.status


class Machine:
    def __init__(self, disk, log, seed=0):
        self.disk, self.log = disk, log
        self.real_open = REAL[0][2]
        self.preempt = None
        self._e = random.Random(seed)
        self.entropy = lambda: self._e.getrandbits(64)

    def job(self, *argv, plan=None, cwd=None):
        return Job(self, [str(a) for a in argv], plan, cwd)


@contextlib.contextmanager
def patched(repl):
    """Replace functions of the library wherever a loaded mfs module (or package) holds them. repl: {original: replacement}"""
    done = []
    byid = {id(k): v for k, v in repl.items()}
    for nm, mod in list(sys.modules.items()):
        if mod is not None and (nm == 'mfs' or nm.startswith('mfs.')):
            for a, v in list(vars(mod).items()):
                if id(v) in byid:
                    done.append((mod, a, v))
                    setattr(mod, a, byid[id(v)])
    try:
        yield
    finally:
        for mod, a, v in done:
            setattr(mod, a, v)


@contextlib.contextmanager
def attrs(*items):
    old = [(o, a, getattr(o, a)) for o, a, _ in items]
    for o, a, v in items:
        setattr(o, a, v)
    try:
        yield
    finally:
        for o, a, v in reversed(old):
            setattr(o, a, v)


def fingerprint(x):
    import hashlib
    return hashlib.sha256(np.ascontiguousarray(np.asarray(x)).tobytes()).hexdigest()[:12]


def kw(fn, a, k):
    """Bound arguments of a call of fn."""
    import inspect
    b = inspect.signature(fn).bind(*a, **k)
    b.apply_defaults()
    return b.arguments
