"""P04: recorded run times are elapsed times of the completed filter call, whatever happens to the wall clock."""
import numpy as np

from vsim import models, pipe
from vsim.core import Violation

RULE = ('one run = one time-profiling program on a simulated clock: seeded dispatch, completion, compilation and stall costs, wall-clock '
        'steps and slew at seeded clock readings, failing (NaN) filter calls, a job kill and repetition; non-trivial = a fault fired; '
        'distinct by event-log hash')
COMPONENTS = dict(real=['dardel/time_profile/{mf,ghf,pf}.py', 'benes_bernoulli simulator'],
                  stub=['filters (instant), jax.jit (asynchronous device with simulated costs)', 'time, datetime and timeit clocks (simulated)',
                        'disk'])
ASSUMPTIONS = ['the device runs asynchronously: a jitted call returns after the dispatch cost, its result is ready after the completion cost',
               'simulating the data is synchronous']
SHRINK_LISTS = ['clock', 'nans', 'stalls']


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(2 if q else 8):
        for p in ('mf', 'ghf', 'pf'):
            out.append((dict(prog=p, i=i, N=2 + (i + rng.randrange(3)) % 3, cost=2 if p == 'mf' else 1), 30 if q else 150))
    return out


def gen(rng, b):
    M = rng.choice([1, 2, 3, 5, 8])
    clock = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        clock.append([rng.randrange(0, 4 * M + 2), rng.choice(['step', 'step', 'slew', 'tiny']), rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 5)])
    argv = [f'dardel/time_profile/{b["prog"]}.py', f'--maxmc={M}']
    if b['prog'] == 'mf':
        argv += [f'--N={b["N"]}', '--mode=' + rng.choice(['raw', 'central', 'scaled'])] + (['--normal'] if rng.chance(.4) else []) \
            + ([f'--tme={rng.choice([1, 2])}'] if rng.chance(.5) else [])
    elif b['prog'] == 'ghf':
        argv += [f'--gh={rng.choice([3, 5, 11])}'] if rng.chance(.7) else []
    else:
        argv += [f'--nparticles={rng.choice([4, 6, 10])}']
    return dict(argv=argv, M=M, clock=clock, nans=[rng.randrange(1, M + 3) for _ in range(rng.choice([0, 0, 1, 2]))],
                stalls=[rng.randrange(0, M + 2) for _ in range(rng.choice([0, 0, 1, 2]))], costs=rng.getrandbits(32),
                plan=rng.choice([{}, {}, {}, {'2': ['kill', 0]}, {'4': ['enospc', 0]}]), keys=rng.getrandbits(31), entropy=rng.getrandbits(32))


class Clock:
    """true time, and what the process can read of it"""

    def __init__(self, t, log):
        self.now, self.off, self.rate, self.n, self.log = 1000., 1.7e9, 0., 0, log
        self.base = 1000.
        self.jumps = {}
        for at, kind, amt in t['clock']:
            self.jumps.setdefault(at, []).append((kind, amt))

    def tick(self):
        i, self.n = self.n, self.n + 1
        for kind, amt in self.jumps.get(i, []):
            self.log.fault('clock.' + kind)
            self.off, self.base = self.off + self.rate * (self.now - self.base), self.now
            if kind == 'slew':
                self.rate = max(-.9, min(.9, amt))
            else:
                self.off += amt if kind == 'step' else amt * 1e-9
        self.now += 1e-9

    def wall(self):
        self.tick()
        return self.now + self.off + self.rate * (self.now - self.base)

    def mono(self):
        self.tick()
        return self.now

    def cpu(self):
        self.tick()
        return .37 * self.now  # the filter runs on the device's threads

    def sleep(self, s):
        self.now += s


class Pending:
    """array on the simulated device"""

    def __init__(self, v, call, S):
        self.v, self.c, self.S = v, call, S

    def _wait(self):
        self.S.clock.now = max(self.S.clock.now, self.c['ready'])
        return self.v

    def block_until_ready(self):
        self._wait()
        return self

    def is_ready(self):
        return self.S.clock.now >= self.c['ready']

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self._wait(), dtype=dtype)

    def __jax_array__(self):
        return self._wait()

    def __getattr__(self, k):
        if k in ('shape', 'dtype', 'ndim', 'size', 'nbytes', 'aval', 'weak_type'):
            return getattr(self.v, k)
        if k.startswith('__'):
            raise AttributeError(k)
        a = getattr(self._wait(), k)
        return a

    def __getitem__(self, i):
        return Pending(self.v[i], self.c, self.S)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return (self[i] for i in range(len(self.v)))

    def __float__(self):
        return float(self._wait())

    def __bool__(self):
        return bool(self._wait())


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'neg', 'abs', 'lt', 'gt', 'eq', 'ne', 'invert', 'pow'):
    def _f(self, *a, _m=f'__{_n}__'):
        return Pending(getattr(self.v, _m)(*[x.v if isinstance(x, Pending) else x for x in a]), self.c, self.S)
    setattr(Pending, f'__{_n}__', _f)


class Sim:
    def __init__(self, t, log):
        self.t, self.log = t, log
        self.clock = Clock(t, log)
        self.rng = np.random.default_rng(t['costs'])
        self.calls, self.jit, self.tags = [], [], {}

    def tag(self, orig):
        """the real moment factory; remembers which one a transition function came from"""
        def f(*a, **k):
            out = orig(*a, **k)
            b = pipe.kw(orig, a, k)
            self.keep = getattr(self, 'keep', []) + [out]
            for v in out:
                self.tags[id(v)] = (orig.__name__, int(b['tme_order']) if 'tme_order' in b else None)
            return out
        return f

    def draw(self, lo, hi):
        return float(10 ** self.rng.uniform(np.log10(lo), np.log10(hi)))

    def filter(self, orig, stub):
        """an estimator call: instant when traced inside a jitted function (which accounts for it), synchronous otherwise"""
        def f(*a, **k):
            out = stub(*a, **k)
            b = pipe.kw(orig, a, k)
            ys = np.ravel(np.asarray(b['ys'], float))
            info = [orig.__name__] + [('order', len(b[m]) // 2) for m in ('rms0', 'cms0', 'scms0') if m in b] \
                + [('particles', int(b[m])) for m in ('nsamples',) if m in b] + [('points', len(b[m].w)) for m in ('sgps',) if m in b] \
                + [('transition', self.tags[id(v)]) for v in b.values() if id(v) in self.tags]
            if self.jit:
                self.jit[-1].append((ys, info))
            else:
                call = self.begin(ys)
                call['info'] = info
                self.clock.now += self.draw(1e-3, 10.)
                call['ready'] = call['end'] = self.clock.now
                out = self.spoil(out, call)
            return out
        return f

    def begin(self, ys):
        i = len(self.calls)
        self.calls.append(dict(i=i, ys=ys, start=self.clock.now, nan=False, compiled=False))
        return self.calls[-1]

    def spoil(self, out, call):
        import jax
        import jax.numpy as jnp
        if self.t['argv'][0].endswith('mf.py') and call['i'] in self.t['nans']:
            self.log.fault('filter.nan', call['i'])
            call['nan'] = True
            return jax.tree_util.tree_map(lambda v: v * jnp.nan, out)
        return out

    def make_jit(self, *ja, **jk):
        import jax
        if not ja or not callable(ja[0]):
            return lambda fn: self.make_jit(fn, *ja, **jk)
        fn = ja[0]
        seen = set()

        def compile_(a, k):
            self.clock.now += self.draw(1., 100.)
            seen.add(sig(a, k))

        def sig(a, k):
            return tuple((getattr(v, 'shape', None), str(getattr(v, 'dtype', type(v)))) for v in jax.tree_util.tree_leaves((a, k)))

        def g(*a, **k):
            a, k = jax.tree_util.tree_map(lambda v: v._wait() if isinstance(v, Pending) else v, (a, k))
            start = self.clock.now
            self.jit.append([])
            try:
                out = fn(*a, **k)
            finally:
                inner = self.jit.pop()
            first = sig(a, k) not in seen
            if first:
                compile_(a, k)
            if self.jit:
                self.jit[-1] += inner
                return out
            if not inner:
                self.clock.now += self.draw(1e-6, 1e-3)
                return out
            call = self.begin(inner[0][0])
            call['start'], call['compiled'], call['info'] = start, first, inner[0][1] + [('filters', len(inner))]
            out = self.spoil(out, call)
            self.clock.now += self.draw(1e-5, 1e-2)
            cost = self.draw(1e-3, 10.)
            if call['i'] in self.t['stalls']:
                self.log.fault('device.stall')
                cost += self.draw(10., 1000.)
            call['ready'] = self.clock.now + cost
            self.log.ev('filter', call['i'], call['start'], call['ready'])
            return jax.tree_util.tree_map(lambda v: Pending(v, call, self), out)

        class Lowered:
            def __init__(s, a, k):
                s.a, s.k = a, k

            def compile(s):
                compile_(s.a, s.k)
                return g
        g.lower = lambda *a, **k: Lowered(a, k)
        g.__name__ = getattr(fn, '__name__', 'f')
        g.__wrapped__ = fn
        return g


def execute(t, log, cache):
    import datetime
    import time
    import timeit
    import jax
    import jax.numpy as jnp
    import mfs.classical_filters_smoothers, mfs.one_dim.filtering, mfs.multi_dims.filtering, mfs.utils  # noqa: E401,F401
    import mfs.classical_filters_smoothers.brute_force, mfs.multi_dims.ss_models, mfs.one_dim.moments  # noqa: E401,F401
    import mfs.one_dim.ss_models as ssm
    b = t['bucket']
    S = Sim(t, log)
    C = S.clock
    repl = {o: S.filter(o, s) for o, s in models.stubs().items() if 'ys' in __import__('inspect').signature(o).parameters}
    fac = models.factories()
    repl.update(fac)
    import mfs.one_dim.moments as mo
    for f in (mo.sde_cond_moments_tme, mo.sde_cond_moments_tme_normal, mo.sde_cond_moments_euler):
        repl[f] = S.tag(f)
    keys = np.asarray(jax.random.split(jax.random.PRNGKey(t['keys']), 40))

    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(C.wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(C.wall())
    ns = lambda f: (lambda: int(f() * 1e9))
    clocks = [(time, 'time', C.wall), (time, 'time_ns', ns(C.wall)), (time, 'perf_counter', C.mono), (time, 'perf_counter_ns', ns(C.mono)),
              (time, 'monotonic', C.mono), (time, 'monotonic_ns', ns(C.mono)), (time, 'process_time', C.cpu), (time, 'thread_time', C.cpu),
              (time, 'process_time_ns', ns(C.cpu)), (time, 'sleep', C.sleep), (timeit, 'default_timer', C.mono), (datetime, 'datetime', DT)]
    # the data of run k (the layout every Benes program uses)
    with pipe.patched(fac):
        m = ssm.benes_bernoulli(b['N'] if b['prog'] == 'mf' else 2)
    sim = cache.setdefault('sim', jax.jit(lambda key: _simulate(m, key)))
    want = [np.asarray(sim(jnp.asarray(keys[k])), float) for k in range(t['M'])]
    with pipe.Disk(keys) as disk, pipe.patched(repl):
        M = pipe.Machine(disk, log, t['entropy'])
        for plan in ([t['plan']] if t['plan'] else []) + [{}]:
            S.calls.clear()
            job = M.job(*t['argv'], plan=plan)
            with pipe.attrs((jax, 'jit', S.make_jit), *clocks):
                st = job.run()
            if st == 0 or not plan:
                break
        if st != 0:
            raise Violation('exception', f"{' '.join(t['argv'])} failed without a fault: {st} {job.err}")
        times = [f for f in disk.files() if f.startswith('times/')]
        if len(times) != 1:
            raise Violation('result', f'{t["argv"][0]} stored {times}')
        el = disk.load(times[0])
        if el is None or 'elapsed_times' not in el or el['elapsed_times'].shape != (t['M'],):
            raise Violation('result', f'{t["argv"][0]}: no elapsed times of {t["M"]} runs in {times[0]}')
        el = el['elapsed_times']
    # which calls belong to which run
    cand, cur = {k: [] for k in range(t['M'])}, None
    for c in S.calls:
        for k in range(t['M']):
            if c['ys'].shape == want[k].shape and np.array_equal(c['ys'], want[k]):
                cur = k
        if cur is not None and not c['nan']:
            cand[cur].append(c)
    for k in range(t['M']):
        v = float(el[k])
        if v < 0:
            raise Violation('negative', f'run {k}: recorded run time {v} s')
        ok = [c for c in cand[k] if not c['compiled']]
        true = [c.get('end', c['ready']) - c['start'] for c in ok]
        log.ev('elapsed', v)
        hit = [c for c, x in zip(ok, true) if abs(v - x) <= 1e-6 + 1e-6 * x]
        for c in hit[:1]:
            for what, want_, got in asked(t['argv'], c['info']):
                if want_ != got:
                    raise Violation('filter', f'run {k}: the time stored in {times[0]} is that of a filter with {what} {got} instead of {want_}')
        if not hit:
            why = 'no call of the filter on the data of this run after compilation' if not true else \
                f'the filter took {true[-1]:.6g} s'
            raise Violation('elapsed', f'run {k}: recorded run time {v:.6g} s, but {why}')
        log.probe('times_checked')
    log.simtime = C.now - 1000.


def asked(argv, info):
    """(what, asked for, timed) for what the profiling program was asked to time"""
    a = dict(x[2:].split('=') if '=' in x else (x[2:], True) for x in argv[1:])
    kv = {}
    for n, v in [x for x in info if isinstance(x, tuple)]:
        kv.setdefault(n, v)
    prog = argv[0].split('/')[-1]
    name = {'ghf.py': 'sgp_filter', 'pf.py': 'bootstrap_filter'}.get(prog) or dict(raw='moment_filter_rms', central='moment_filter_cms', scaled='moment_filter_scms')[a['mode']]
    yield 'function', name, info[0]
    yield 'number of filters', 1, kv.get('filters', 1)
    if prog == 'mf.py':
        yield 'order', int(a['N']), kv.get('order')
        if 'transition' in kv:
            yield 'transition moments', 'sde_cond_moments_tme_normal' if 'normal' in a else 'sde_cond_moments_tme', kv['transition'][0]
            if kv['transition'][1] is not None:
                yield 'expansion order', int(a.get('tme', 3)), kv['transition'][1]
    elif prog == 'ghf.py' and 'points' in kv:
        yield 'number of sigma points', int(a.get('gh', 11)), kv['points']
    elif prog == 'pf.py':
        yield 'number of particles', int(a['nparticles']), kv.get('particles')


def _simulate(m, key):
    import jax
    dt, T, ts, init, drift, disp, logistic, pmf, simulate = m
    k0, k1, k2 = jax.random.split(key, 3)
    return jax.random.bernoulli(k2, logistic(simulate(init.sampler(k0, 1)[0], k1)), (T,))
