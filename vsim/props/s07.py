"""S07: callers in one process do not influence each other: seeded preemption at every line of the library and at every callback."""
import dis
import gc
import importlib
import sys
import threading
import zlib
from types import SimpleNamespace

import numpy as np

from vsim.core import Violation

RULE = ('one run = 2..4 caller threads, one runnable at a time; a seeded scheduler may switch threads at every executed line of mfs and every '
        'model callback; callers raise, stall and retry; every result compared with the same call made alone in a freshly loaded '
        'library; non-trivial = at least one preemption; distinct by the hash of the switch sequence')
COMPONENTS = dict(real=['all of mfs (a fresh import per run)', 'jax tracing, compilation and execution'], stub=['thread scheduler (simulated)', 'models (callbacks)'])
ASSUMPTIONS = ['code outside mfs (jax, tme) runs without preemption', 'a caller that gives no sign of life for 60 s is taken to wait for another caller']
SHRINK_LISTS = ['calls']
# families of calls: the values of opt that take different branches, and the arguments that matter
FAMILIES = dict(f1=([0, 1, 2], 'm dt data N order stable'), fn=([0, 1, 2], 'm dt data stable'), gauss=([0, 1, 2, 3, 4], 'm dt data d stable'),
                smooth=([0, 1, 2, 3, 4], 'm dt data d'), smc=([1, 3, 0, 2], 'm data opt stable key N'), grid=([0, 1, 2, 8], 'm dt data order'), pcr=([0], 'm data d'),
                sim=([1], 'm dt d opt N key'), models=([0, 1, 2], 'm N key key'), quad=([1, 3], 'm N d opt opt opt stable any'), indices=([1, 2, 3], 'd N opt any any any any any'), moments=([0, 1, 2], 'm dt N order d opt'),
                density=([0], 'm N'), helpers=([0], 'd N dt data any any'))
COST = dict(f1=3, fn=4, gauss=2, smooth=3, models=3, pcr=3, grid=2, moments=3)


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(1 if q else 8):
        for a, (opts, keys) in FAMILIES.items():
            shift = rng.choice([0, 3, 6]) if a == 'f1' else 0
            for o in opts:
                ks = rng.sample(keys.split(), len(keys.split()))
                ks += ks[:len(ks) % 2]
                for j in range(0, len(ks), 2):
                    out.append((dict(fam=[a, rng.choice(list(FAMILIES))], opt=o + shift, twins=ks[j:j + 2], pool=rng.getrandbits(32), i=i, cost=2 * COST.get(a, 1) + 1), (4 if 'stable' in ks[j:j + 2] and a in ('f1', 'fn') else 2) if q else 8))
    return out


def spec(rng, fam):
    """arguments of one call"""
    s = dict(fam=fam, m=rng.randrange(3), dt=rng.choice([.05, .1, .2]), T=rng.choice([2, 3]), data=rng.randrange(5), key=rng.randrange(1000), N=rng.choice([2, 3, 4]), d=rng.choice([1, 2, 2, 3]),
             order=rng.choice([1, 2]), eager=rng.chance(.4), opt=rng.randrange(12), stable=rng.chance(.3), bad=False)
    if fam in ('f1', 'fn'):
        s['N'] = rng.choice([2, 3]) if fam == 'f1' else 2
    if fam == 'models':
        s['eager'] = False
    if fam == 'fn':
        s['d'] = 2
        s['order'] = 1
    return s


def gen(rng, b):
    from vsim.core import Rng
    p = Rng(b['pool'])
    pool = [spec(p, f) for f in b['fam']]
    pool[0]['opt'] = b['opt']
    if 'stable' in b['twins'] and b['fam'][0] in ('f1', 'fn', 'quad'):
        pool[0].update(bad=True, stable=True)       # moments of no distribution: the option decides whether the result is finite
    # twins of the first call that differ from it in one argument only
    for k in b['twins']:
        tw = dict(pool[0])
        if k == 'any':
            tw.update(spec(p, tw['fam']), opt=tw['opt'])
        for _ in range(20 if k != 'any' else 0):
            tw[k] = spec(p, tw['fam'])[k]
            if tw[k] != pool[0][k]:
                break
        pool.append(tw)
    first = b.get('rid') == 0
    js = [0, 2, 3] if first or rng.chance(.5) else [0, rng.choice([2, 3])]
    if pool[0]['bad'] and 2 + b['twins'].index('stable') not in js:
        js[1] = 2 + b['twins'].index('stable')
    if rng.chance(.4):
        js.append(rng.randrange(len(pool)))
    calls = [dict(spec=pool[j], fault=rng.choice([None, None, None, 'raise', 'stall']), at=rng.choice([1, 2, 3, 5, 8])) for j in rng.sample(js, len(js))]
    return dict(calls=calls, share=first or rng.chance(.75), rate=rng.choice([.02, .1, .25, .5]), hot=rng.choice([0., .05, .1, .2, .4]), aim=rng.choice([.3, .6] if first else [0., .3, .6]), sched=rng.getrandbits(32), again=first or rng.chance(.5))


# ------------------------------------------------------------------ scheduler
class ModelError(Exception):
    pass


class Sched:
    """exactly one registered thread runs at a time; switches only at points, decided by the seed"""
    PATIENCE = 60.

    def __init__(self, seed, rate, log, hot=0., aim=0.):
        self.g = np.random.default_rng(seed)
        self.rate, self.log, self.hot, self.aim = rate, log, hot, aim
        self.salt, self.hots = str(seed), {}
        self.lock = threading.Lock()
        self.sem, self.live, self.stalled, self.cur, self.beat = {}, [], set(), None, 0
        self.loc = threading.local()
        self.done = threading.Event()
        self.switches = self.points = 0

    def add(self, tid):
        self.sem[tid] = threading.Semaphore(0)
        self.live.append(tid)

    def pick(self, but=None):
        c = [t for t in self.live if t not in self.stalled] or list(self.live)
        c = [t for t in c if t != but] or c
        return c[int(self.g.integers(len(c)))] if c else None

    def hand(self, tid):
        self.cur = tid
        self.beat += 1
        self.sem[tid].release()

    def switch(self, what, shared):
        # any point with the same probability, or always at a few places in the code and nowhere else, or, if the
        # library has state that outlives a call and the run aims at it, before and after accesses to such state
        if self.aim:
            return bool(shared) and self.g.random() < self.aim * [0., .1, 1.][shared]
        if not self.hot:
            return self.g.random() < self.rate
        if what not in self.hots:
            self.hots[what] = zlib.crc32(f'{self.salt} {what}'.encode()) < self.hot * 2 ** 32
        return self.hots[what]

    def point(self, what=None, shared=0):
        me = getattr(self.loc, 'tid', None)
        if me is None or getattr(self.loc, 'busy', False):
            return
        self.points += 1
        self.beat += 1
        if self.cur == me and len(self.live) > 1 and (me in self.stalled or self.switch(what, shared)):
            nxt = self.pick(but=me)
            if nxt != me:
                self.switches += 1
                self.log.ev('switch', me, nxt, what)
                self.hand(nxt)
                self.sem[me].acquire()

    def enter(self, tid):
        self.sem[tid].acquire()
        self.loc.tid = tid

    def leave(self, tid):
        self.loc.tid = None
        self.live.remove(tid)
        self.stalled.discard(tid)
        if self.cur != tid:
            if not self.live:
                self.done.set()
            return
        nxt = self.pick()
        if nxt is None:
            self.done.set()
        else:
            self.hand(nxt)

    def run(self, bodies):
        ts = []
        for tid, body in enumerate(bodies):
            self.add(tid)
        for tid, body in enumerate(bodies):
            def f(tid=tid, body=body):
                self.enter(tid)
                try:
                    body()
                finally:
                    self.leave(tid)
            ts.append(threading.Thread(target=f, daemon=True))
            ts[-1].start()
        self.hand(self.pick())
        idle = 0
        while not self.done.wait(self.PATIENCE):
            b = self.beat
            if b == getattr(self, '_b', None):
                others = [t for t in self.live if t != self.cur]
                idle += 1
                if not others or idle > 2 * len(bodies):
                    raise Violation('deadlock', f'callers {self.live} make no progress (last running: {self.cur})')
                self.log.probe('waiting_callers')
                self.hand(others[0])
            else:
                idle = 0
            self._b = self.beat
        for t in ts:
            t.join(10.)


class Lines:
    """calls the scheduler at every executed line of the given modules, saying whether that line, or the one the thread
    executed before it, may touch state that other calls see (module globals, attributes, items, containers)"""
    TOOL = 4
    WRITES = {'STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_ATTR', 'DELETE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_SLICE'}
    METHODS = set('append extend insert update setdefault pop popitem clear remove sort reverse add discard fill move_to_end'.split())

    def __init__(self, mods, fn):
        self.fn, self.codes, self.shared, self.names, self.rebound, self.loc = fn, [], {}, {}, set(), threading.local()
        self.scope = {m.__file__: vars(m) for m in mods if getattr(m, '__file__', None)}
        seen = set()
        files = {getattr(m, '__file__', None) for m in mods}

        def walk(co, names):
            if id(co) not in seen and co.co_filename in files:
                seen.add(id(co))
                self.codes.append(co)
                self.names[co] = names
                self.rebound |= {(co.co_filename, i.argval) for i in dis.get_instructions(co) if i.opname == 'STORE_GLOBAL'}
                for c in co.co_consts:
                    if hasattr(c, 'co_code'):
                        walk(c, names)

        def obj(v):
            v = getattr(v, '__func__', v)
            v = getattr(v, 'fget', v)
            for _ in range(8):
                w = getattr(v, '__wrapped__', None)
                if w is None or hasattr(v, '__code__'):
                    break
                v = w
            if hasattr(v, '__code__'):
                co = v.__code__
                # containers that live as long as the function: default values and cells
                names = {n for n, x in zip(co.co_varnames[:co.co_argcount][::-1], (v.__defaults__ or ())[::-1]) if self.kept(x)}
                names |= {n for n, x in (v.__kwdefaults__ or {}).items() if self.kept(x)}
                for n, c in zip(co.co_freevars, v.__closure__ or ()):
                    try:
                        names |= {n} if self.kept(c.cell_contents) else set()
                    except ValueError:
                        pass
                walk(co, names)
                if hasattr(v, '__wrapped__'):
                    obj(v.__wrapped__)
        self.attrs = {a for m in mods for v in vars(m).values() if getattr(v, '__module__', None) == m.__name__ for a, x in getattr(v, '__dict__', {}).items()
                      if self.kept(x) and a != '_field_defaults' and not a.startswith('__')}
        for m in mods:
            for v in list(vars(m).values()):
                if getattr(v, '__module__', None) != m.__name__:
                    continue
                if isinstance(v, type):
                    for w in vars(v).values():
                        obj(w)
                else:
                    obj(v)

        for co, names in self.names.items():
            self.flag(co, names)

    @staticmethod
    def kept(x):
        return isinstance(x, (dict, list, set, bytearray, np.ndarray, threading.local)) or type(x).__name__ == 'deque'

    def flag(self, co, names):
        line, scope = None, self.scope.get(co.co_filename, {})
        for ins in dis.get_instructions(co):
            if ins.starts_line is not None:
                line = ins.starts_line
            op, arg = ins.opname, ins.argval
            strong = op in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_ATTR', 'DELETE_ATTR') or op in ('LOAD_GLOBAL', 'LOAD_NAME') and not arg.startswith('__') and (self.kept(scope.get(arg)) or (co.co_filename, arg) in self.rebound) \
                or op in ('LOAD_ATTR', 'LOAD_METHOD') and arg in self.attrs or op in ('LOAD_FAST', 'LOAD_DEREF', 'LOAD_FAST_CHECK') and arg in names
            weak = op in self.WRITES or op in ('LOAD_ATTR', 'LOAD_METHOD') and arg in self.METHODS
            if strong or weak:
                self.shared[co, line] = max(self.shared.get((co, line), 0), 1 + strong)

    def event(self, co, line):
        now = self.shared.get((co, line), 0)
        last, self.loc.last = getattr(self.loc, 'last', 0), now
        self.fn(f'{co.co_name}:{line - co.co_firstlineno}', max(now, last))

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vsim')
        mon.register_callback(self.TOOL, mon.events.LINE, self.event)
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(self.TOOL, c, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)


NAMES = dict(fl='one_dim.filtering', mo='one_dim.moments', q1='one_dim.quadtures', pdf='one_dim.pdf_approximations', ss1='one_dim.ss_models', fn='multi_dims.filtering', mn='multi_dims.moments',
             mi='multi_dims.multi_indices', qn='multi_dims.quadratures', ssn='multi_dims.ss_models', bf='classical_filters_smoothers.brute_force', gfs='classical_filters_smoothers.gfs',
             gq='classical_filters_smoothers.quadratures', rs='classical_filters_smoothers.resampling', smc='classical_filters_smoothers.smc', ut='utils')


def fresh():
    """the library as a new process would load it"""
    for k in [k for k in sys.modules if k == 'mfs' or k.startswith('mfs.')]:
        del sys.modules[k]
    gc.collect()
    L = SimpleNamespace(**{n: importlib.import_module('mfs.' + v) for n, v in NAMES.items()})
    L.mods = [v for k, v in sys.modules.items() if k == 'mfs' or k.startswith('mfs.')]
    return L


# ------------------------------------------------------------------ callers
class Models:
    """model functions; `share`: callers with the same model number hold the same function objects"""

    def __init__(self, share, hook):
        self.c, self.share, self.hook = {}, share, hook
        g = np.random.default_rng(20)
        self.ys = [g.standard_normal(3) for _ in range(4)]
        self.yb = [(g.random(3) < .5) * 1. for _ in range(4)]
        self.ys.append(np.array([60., np.nan, .3]))      # an outlier and a missing value
        self.yb.append(np.array([1., np.nan, 0.]))
        self.given = [(y, y.copy()) for y in self.ys + self.yb]

    def intact(self):
        return all(np.array_equal(a, b, equal_nan=True) for a, b in self.given)

    def give(self, y):
        self.given.append((y, y.copy()))
        return y

    def get(self, key, make):
        if not self.share:
            return make()
        if key not in self.c:
            self.c[key] = make()
        return self.c[key]

    def cb(self, f):
        def g(*a, **k):
            self.hook()
            return f(*a, **k)
        return g

    def sde1(self, m):
        import jax.numpy as jnp
        return self.get(('sde1', m), lambda: (self.cb([lambda x: -x, lambda x: jnp.tanh(x), lambda x: .5 - x - .1 * x ** 3][m]),
                                              self.cb([lambda x: .4 + 0. * x, lambda x: .7 + 0. * x, lambda x: .5 + .1 * jnp.tanh(x)][m])))

    def lik1(self, m):
        import jax.numpy as jnp
        return self.get(('lik1', m), lambda: self.cb([lambda y, x: jnp.exp(-.5 * (y - x) ** 2), lambda y, x: jnp.exp(-.25 * (y - x) ** 2),
                                                      lambda y, x: jnp.where(y > .5, 1., 0.) / (1 + jnp.exp(-x)) + jnp.where(y > .5, 0., 1.) / (1 + jnp.exp(x))][m]))

    def sden(self, m, d):
        import jax.numpy as jnp
        A = [-np.eye(d), -.5 * np.eye(d) + .2 * np.eye(d, k=1), -np.eye(d) - .3 * np.eye(d, k=-1)][m]
        L = [.4 * np.eye(d), .3 * np.eye(d) + .1 * np.eye(d, k=1), .5 * np.eye(d)][m]
        return self.get(('sden', m, d), lambda: (self.cb(lambda x: jnp.asarray(A) @ x + .1 * jnp.tanh(x)), self.cb(lambda x: jnp.asarray(L))))

    def trans(self, m, d):
        import jax.numpy as jnp
        F = [.9 * np.eye(d), .8 * np.eye(d) + .1 * np.eye(d, k=1), .7 * np.eye(d) - .2 * np.eye(d, k=-1)][m]
        Q = (.1 + .1 * m) * np.eye(d)
        return self.get(('trans', m, d), lambda: self.cb(lambda x, dt: (jnp.asarray(F) @ x + dt * jnp.tanh(x), (dt + .5) * jnp.asarray(Q))))

    def meas(self, m, d, dy):
        import jax.numpy as jnp
        return self.get(('meas', m, d, dy), lambda: self.cb(lambda x: (jnp.sin(x[:dy]) + m * x[:dy], (.5 + .2 * m) * jnp.eye(dy))))


def call(L, s, M):
    """one caller's work; returns a list of arrays"""
    import jax
    import jax.numpy as jnp
    fam, m, N, d, dt, T = s['fam'], s['m'], s['N'], s['d'], s['dt'], s['T']
    key = jax.random.PRNGKey(s['key'])
    y1 = (M.yb if m == 2 else M.ys)[s['data']][:T]
    opt = s['opt']
    if fam == 'f1':
        dr, di = M.sde1(m)
        f = [lambda: L.mo.sde_cond_moments_tme(dr, di, dt, s['order']), lambda: L.mo.sde_cond_moments_tme_normal(dr, di, dt, s['order'], N), lambda: L.mo.sde_cond_moments_euler(dr, di, dt, N)][opt % 3]()
        g = L.ut.GaussianSum1D.new(jnp.array([.2, -.5 + .1 * m]), jnp.array([.5, .8]), jnp.array([.4, .6]), N=N)
        if s['bad']:
            g = g._replace(rms=g.rms.at[2].set(g.rms[1] ** 2 - 1e-6), cms=g.cms.at[2].set(-1e-6), scms=g.scms.at[2].set(-1e-6))
        if opt % 4 == 0:
            return L.fl.moment_filter_rms(f[0], M.lik1(m), g.rms, y1, s['stable'])
        if opt % 4 == 1:
            return L.fl.moment_filter_cms(f[1], f[3], M.lik1(m), g.cms, g.mean, y1, s['stable'])
        return L.fl.moment_filter_scms(f[2], f[4], M.lik1(m), g.scms, g.mean, jnp.sqrt(g.variance), y1, s['stable'])
    if fam == 'fn':
        dr, di = M.sden(m, d)
        mi = L.mi.generate_graded_lexico_multi_indices(d, 2 * N - 1, 0)
        inds = L.mi.gram_and_hankel_indices_graded_lexico(N, d)
        g = L.ut.GaussianSumND.new(jnp.stack([jnp.arange(d) * .1 + .1 * m, -jnp.ones(d) * .2]), jnp.stack([.5 * jnp.eye(d), .7 * jnp.eye(d)]), jnp.array([.3, .7]), mi)
        if s['bad']:
            j = int(np.argmax(np.asarray(mi)[:, 0] == 2))
            g = g._replace(rms=g.rms.at[j].set(g.rms[d] ** 2 - .05), cms=g.cms.at[j].set(-.05))
        lik = M.get(('likn', m), lambda: M.cb(lambda y, x: jnp.exp(-.5 * (y - jnp.sum(x) * (1 + m)) ** 2)))
        if opt % 2:
            f, sig = L.mn.sde_cond_moments_euler_maruyama(dr, di, dt, mi), 'index'
        else:
            f, sig = L.mn.sde_cond_moments_tme(dr, di, dt, s['order']), 'multi-index'
        o = (jnp.asarray(mi), inds)
        y = M.ys[s['data']][:T]
        if opt % 3 == 0:
            return L.fn.moment_filter_nd_rms((f[0], sig), lik, y, o, g.rms, s['stable'])
        if opt % 3 == 1:
            return L.fn.moment_filter_nd_cms((f[1], sig), f[3], lik, y, o, g.cms, g.mean, s['stable'])
        sc = jnp.sqrt(jnp.diagonal(g.cov))
        return L.fn.moment_filter_nd_scms((f[2], sig), f[4], lik, y, o, g.cms / jnp.prod(sc ** jnp.asarray(mi), -1), g.mean, sc, s['stable'])
    if fam in ('gauss', 'smooth'):
        dy = 1 + opt % min(d, 2)
        ys = M.give(np.stack([M.ys[s['data']][:T]] * dy, 1))
        tr, me = M.trans(m, d), M.meas(m, d, dy)
        m0, v0 = (.1 + .1 * m) * jnp.ones(d), (.5 + .1 * m) * jnp.eye(d)
        sg = L.gq.SigmaPoints.gauss_hermite(d, 2 + s['order']) if opt % 2 else L.gq.SigmaPoints.cubature(d)
        dr, di = M.sden(m, d)
        D = di(m0)
        F, Q, H, X = .9 * jnp.eye(d), dt * jnp.eye(d), jnp.eye(dy, d), (1. + m) * jnp.eye(dy)
        k = opt % 5
        out = [lambda: L.gfs.kf(F, Q, H, X, m0, v0, ys), lambda: L.gfs.ekf(tr, me, m0, v0, dt, ys, s['stable']), lambda: L.gfs.sgp_filter(tr, me, sg, m0, v0, dt, ys, s['stable']),
               lambda: L.gfs.cd_ekf(dr, di, me, m0, v0, dt, ys), lambda: L.gfs.cd_sgp_filter(dr, D, me, sg, m0, v0, dt, ys)][k]()
        if fam == 'gauss':
            return out
        a, b = out[0], out[1]
        return [lambda: L.gfs.rts(F, Q, a, b), lambda: L.gfs.eks(tr, a, b, dt), lambda: L.gfs.sgp_smoother(tr, sg, a, b, dt), lambda: L.gfs.cd_eks(dr, di, a, b, dt),
                lambda: L.gfs.cd_sgp_smoother(dr, D, sg, a, b, dt)][k]()
    if fam == 'smc':
        n = 2 + N + opt
        rs = [L.rs.systematic, L.rs.stratified, L.rs.multinomial][opt % 3]
        init = M.get(('init', m), lambda: M.cb(lambda k, n: .1 * m + jax.random.normal(k, (n,))))
        prop = M.get(('prop', m), lambda: M.cb(lambda x, k: (.9 - .2 * m) * x + .3 * jax.random.normal(k, x.shape)))
        lik = M.lik1(m)
        if opt % 2:
            return L.smc.bootstrap_filter(prop, lik, y1, init, key, n, rs, s['stable'])
        pd = M.cb(lambda x, z, y: jnp.exp(-.5 * (x - .5 * (z + y)) ** 2))
        return L.smc.particle_filter(M.cb(lambda x, y, k: .5 * (x + y) + jax.random.normal(k, x.shape)), pd, M.cb(lambda x, z: jnp.exp(-.5 * (x - z) ** 2)), lik, y1, init, key, n, rs)
    if fam == 'grid':
        dr, di = M.sde1(m)
        xs = jnp.linspace(-3., 3., 9 + 2 * s['order'])
        return L.bf.brute_force_filter(dr, di, M.lik1(m), jnp.exp(-.5 * xs ** 2) / jnp.sqrt(2 * jnp.pi), xs, y1, dt, 1 + opt % 2, ['chapman-tme-2', 'chapman-euler', 'kolmogorov'][opt % 3] if opt < 8 else f"chapman-tme-{s['order']}")
    if fam == 'pcr':
        d = min(d, 2)
        g = np.random.default_rng(s['data'])
        tr = g.standard_normal((T + 1, 3, d))
        return L.ut.posterior_cramer_rao(jnp.asarray(tr), jnp.asarray(g.standard_normal((T, 3))), (1. + m) * jnp.eye(d), M.cb(lambda x, z: -.5 * jnp.sum((x - (.9 - .1 * m) * z) ** 2)),
                                         M.cb(lambda y, x: -.5 * jnp.sum((y - jnp.sin(x)) ** 2)))
    if fam == 'sim':
        x = L.ut.simulate_sde(M.trans(m, d), (.1 + .1 * m) * jnp.ones(d), dt, T, key, s['stable'], 1 + opt % 3)
        g = L.ut.GaussianSum1D.new(jnp.array([.2, -.5 + .1 * m]), jnp.array([.5, .8]), jnp.array([.4, .6]), N=N)
        return [x, g.sampler(key, 3 + opt), g.rms, g.pdf(jnp.linspace(-1, 1, 4))]
    if fam == 'models':
        if opt % 3 == 0:
            r = L.ss1.benes_bernoulli(N)
            return [r[3].cms, r[8](jnp.asarray(.1 + m), key)[:20], r[7](1, jnp.asarray(.3))]
        if opt % 3 == 1:
            r = L.ss1.well_poisson(1. + m, N)
            return [r[3].rms, r[8](jnp.asarray(.1 + m), key)[:20], r[7](1, jnp.asarray(.3), 2.), r[4](jnp.asarray(.4), 1.5)]
        r = L.ssn.prey_predator(L.mi.generate_graded_lexico_multi_indices(2, N, 0))
        return [r[3].rms, r[4](jnp.array([.5, .6])), r[5](jnp.array([.5, .6])), r[8](key, integration_steps=1 + opt % 2)[1][:10]]
    if fam == 'quad':
        g = L.ut.GaussianSum1D.new(jnp.array([.2, -.5 + .1 * m]), jnp.array([.5, .8]), jnp.array([.4, .6]), N=N)
        ms = g.rms.at[2].set(g.rms[1] ** 2 - .05) if s['bad'] else g.rms
        out = [*L.q1.moment_quadrature(ms, ldl=s['stable']), *L.q1.moment_quadrature(g.scms, g.mean, jnp.sqrt(g.variance), sort_nodes=True)]
        d = min(d, 2)
        n = min(N, 3)
        mi = L.mi.generate_graded_lexico_multi_indices(d, 2 * n - 1, 0)
        gn = L.ut.GaussianSumND.new(jnp.ones((1, d)) * m, (.5 + .1 * m) * jnp.eye(d)[None], jnp.ones(1), mi)
        out += [*L.qn.moment_quadrature_nd(gn.cms, L.mi.gram_and_hankel_indices_graded_lexico(n, d), gn.mean, ldl=s['stable'])]
        sg = L.gq.SigmaPoints.gauss_hermite(d, n)
        s2 = L.gq.SigmaPoints.gauss_hermite(1 + opt % 2, 2 + opt % 3)
        out += [s2.w, s2.xi, sg.w, sg.xi, L.gq.SigmaPoints.cubature(d + 1).xi, L.gq.gaussian_expectation(jnp.array([[.1]]), jnp.array([[[1. + m]]]), M.cb(lambda x: jnp.tanh(x)), d=1, order=2 + opt % 4)]
        return out
    if fam == 'indices':
        mi = L.mi.generate_graded_lexico_multi_indices(d, N + opt % 3, opt % 2)
        return [mi, L.mi.sizeof_multi_indices(d, N + opt % 3, opt % 2), [L.mi.graded_lexico_indexof_multi_index(r, opt % 2) for r in mi], *L.mi.gram_and_hankel_indices_graded_lexico(min(N, 3), d),
                L.qn.nd_cartesian_prod_indices(d, N), L.q1.hankel_indices(N)]
    if fam == 'moments':
        dr, di = M.sde1(m)
        f = [lambda: L.mo.sde_cond_moments_tme(dr, di, dt, s['order']), lambda: L.mo.sde_cond_moments_tme_normal(dr, di, dt, s['order'], N), lambda: L.mo.sde_cond_moments_euler(dr, di, dt, N)][opt % 3]()
        x, n = jnp.array([.1, -.4]), jnp.arange(2 * N)
        g = L.ut.GaussianSum1D.new(jnp.array([.2, -.5 + .1 * m]), jnp.array([.5, .8]), jnp.array([.4, .6]), N=N)
        out = [f[0](x, n), f[1](x, n, .2), f[2](x, n, .2, 1.5), f[3](x), *f[4](x), L.mo.raw_to_central(g.rms), L.mo.central_to_raw(g.cms, g.mean), L.mo.raw_to_scaled(g.rms),
               L.mo.sms_to_cumulants(g.scms, g.mean, jnp.sqrt(g.variance)), L.mo.characteristic_fn(.3, g.rms)]
        mi = L.mi.generate_graded_lexico_multi_indices(d, 3, 0)
        cov = (.5 + .1 * m) * jnp.eye(d) + .1
        mi = np.roll(mi, opt, axis=0)
        ms = jnp.arange(1., 1. + len(mi))
        out += [jnp.asarray([L.mn.raw_moments_mvn_kan(jnp.ones(d) * .1 * m, cov, k) for k in mi]), jnp.asarray([L.mn.central_moments_mvn_kan(cov, k) for k in mi]),
                [L.mn.moments_nd_uniform([(-1., 1. + m)] * d, k) for k in mi], L.mn.extract_mean(ms, d), L.mn.extract_cov(ms, d), L.mn.marginalise_moments(ms, d, 2, opt % d), L.mn.extract_moments(ms, mi[opt % len(mi)])]
        return out
    if fam == 'density':
        g = L.ut.GaussianSum1D.new(jnp.array([.2, -.5 + .1 * m]), jnp.array([.5, .8]), jnp.array([.4, .6]), N=N)
        xs = jnp.linspace(-1., 1., 5)
        p = L.pdf.legendre_poly_expansion(g.rms, -4., 4.)
        zs = jnp.linspace(-2., 2., 9)
        return [p(xs), L.pdf.inverse_fourier(.1, jax.vmap(L.mo.characteristic_fn, in_axes=[0, None])(zs, g.rms), zs), L.pdf.truncated_cumulant_generating_function(.2, g.scms, g.mean, 1.)]
    g = np.random.default_rng(s['data'])
    A = g.standard_normal((N, N))
    A = jnp.asarray(A @ A.T + np.eye(N))
    return [*L.ut.ldl(A), L.ut.ldl_chol(A - 2. * jnp.eye(N)), *L.ut.discretise_lti_sde(-jnp.eye(d), jnp.eye(d), dt), L.ut.complete_bell(N, tuple(1. + .1 * i for i in range(N))),
            L.ut.hermite_probabilist(N, .3), *L.ut.lanczos(A, jnp.ones(N), N)[:1]]


def work(L, s, M):
    import jax
    with jax.disable_jit(s['eager']):
        out = call(L, s, M)
        return [np.asarray(v) for v in jax.tree_util.tree_leaves(out)]


def same(a, b):
    if len(a) != len(b):
        return f'{len(a)} arrays instead of {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or x.dtype != y.dtype:
            return f'output {i}: {x.dtype}{list(x.shape)} instead of {y.dtype}{list(y.shape)}'
        if not np.allclose(x, y, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(np.nan_to_num(y)), initial=0.)), equal_nan=True):
            e = np.max(np.abs(np.nan_to_num(x - y, nan=np.inf)))
            return f'output {i}: differs by {e:.3g}'
    return None


def name(s):
    return f"{s['fam']}({', '.join(f'{k}={v}' for k, v in s.items() if k != 'fam')})"


def alone(s, cache):
    """the call in a library nobody else has used: result or exception"""
    k = repr(sorted(s.items()))
    if k not in cache:
        L = fresh()
        try:
            cache[k] = ('ok', work(L, s, Models(False, lambda: None)))
        except Exception as e:
            cache[k] = ('error', f'{type(e).__name__}: {e}')
    return cache[k]


def execute(t, log, cache):
    base = cache.setdefault('base', {})
    want = [alone(c['spec'], base) for c in t['calls']]
    L = fresh()
    S = Sched(t['sched'], t['rate'], log, t.get('hot', 0.), t.get('aim', 0.))
    loc = threading.local()

    def hook():
        c = getattr(loc, 'call', None)
        if c is not None:
            loc.n += 1
            if c['fault'] and loc.n == c['at']:
                log.fault('caller.' + c['fault'])
                if c['fault'] == 'raise':
                    raise ModelError('the model failed')
                S.stalled.add(S.loc.tid)
        S.point('callback')
    M = Models(t['share'], hook)
    got = [None] * len(t['calls'])

    def body(i):
        def f():
            c = t['calls'][i]
            loc.call, loc.n = c, 0
            for attempt in range(2):
                try:
                    got[i] = ('ok', work(L, c['spec'], M))
                    return
                except ModelError:
                    loc.call = None
                    log.ev('retry', i)
                except Exception as e:
                    got[i] = ('error', f'{type(e).__name__}: {e}')
                    return
        return f
    lines = Lines(L.mods, S.point)
    if 2 not in lines.shared.values():
        S.aim = 0.
    with lines:
        S.run([body(i) for i in range(len(t['calls']))])
    log.fault('preemption', S.switches) if S.switches else None
    log.probe('points', S.points)
    log.probe('switches', S.switches)
    log.simtime = float(S.points)
    for i, c in enumerate(t['calls']):
        judge(c['spec'], got[i], want[i], 'next to ' + ', '.join(name(x['spec']) for j, x in enumerate(t['calls']) if j != i))
    if t['again']:
        gc.collect()
        for i, c in enumerate(t['calls'][::-1]):
            try:
                r = ('ok', work(L, c['spec'], M))
            except Exception as e:
                r = ('error', f'{type(e).__name__}: {e}')
            judge(c['spec'], r, want[len(want) - 1 - i], 'repeated after the others')
            log.probe('repeats')
    if not M.intact():
        raise Violation('input', 'a call changed the measurements of its caller')


def judge(s, got, want, how):
    if got is None:
        raise Violation('progress', f'{name(s)}, {how}: the call did not return')
    if want[0] != got[0]:
        raise Violation('interference', f'{name(s)}, {how}: {got[1] if got[0] == "error" else "returned"}, alone: {want[1] if want[0] == "error" else "returned"}')
    if want[0] == 'ok':
        e = same(got[1], want[1])
        if e:
            raise Violation('interference', f'{name(s)}, {how}: {e} from the same call made alone')
