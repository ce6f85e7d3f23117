"""S01: one-dimensional moment filters refine the reference Bayesian moment recursion on every delivered history."""
import math

import numpy as np

from vsim import refs1d as R
from vsim.core import Skip, Violation, sut
from vsim.stream import Service, gen_stream

RULE = ('one run = one seeded plant, measurement history, batch schedule and fault sequence, filtered by the raw, central '
        'and scaled filters; non-trivial = at least one fault fired and the history stayed in the domain; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['mfs.one_dim.filtering', 'mfs.one_dim.quadtures', 'mfs.one_dim.moments', 'mfs.utils.GaussianSum1D'],
                  stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; histories on which even a textbook float64 moment recursion loses 5 digits are skipped and counted']
SHRINK_LISTS = ['ops', 'msgs']
MODES = ['raw', 'central', 'scaled']
LENS = [1, 3]


def buckets(rng, tier):
    out = []
    n = 42 if tier == 'quick' else 900
    trans = ['euler', 'euler', 'tme_normal', 'linear', 'tme_normal', 'linear', 'tme']
    liks = ['gauss', 'gauss', 'bernoulli', 'poisson', 'student', 'gauss2']
    for i in range(n):
        tr = trans[i % len(trans)]
        N = rng.choice([2, 2, 3, 3, 4, 5] if tr != 'tme' else [2, 3])
        if tr == 'linear':
            N = rng.choice([2, 3, 4, 5, 6])
        b = dict(N=N, trans=tr, order=3 if i % 21 == 9 or (tier != 'quick' and rng.chance(.2)) else rng.choice([1, 2, 2]), lik=rng.choice(liks),
                 T=rng.choice([5, 7, 10]), stable=rng.chance(.35), init=rng.choice(['api', 'api', 'normal']))
        if b['order'] == 3:
            b['N'] = N = 2
        b['cost'] = dict(euler=1, linear=1, tme_normal=2, tme=3)[tr] * (1 + .3 * N) * (4 if b['order'] == 3 else 1)
        out.append((b, 30 if tier == 'quick' else 80))
    return out


def gen(rng, b):
    t = gen_stream(rng, b['T'], LENS, modes=MODES)
    kind = rng.choice(['linear', 'linear', 'tanh', 'well', 'mix'])
    p = dict(linear=[rng.uniform(-.5, .5), rng.uniform(-2., .5), 0., 0.],
             tanh=[0., 0., rng.uniform(-2., 2.), 0.],
             well=[0., rng.uniform(.3, 1.5), 0., rng.uniform(-1.2, -.3)],
             mix=[rng.uniform(-.3, .3), rng.uniform(-1., .3), rng.uniform(-1., 1.), 0.])[kind]
    unit = rng.choice([1., 1., 1., .001, .01, .1, 10., 100.])
    if unit != 1.:  # the same problem in other units of length
        kind = 'well' if kind in ('well', 'tanh') else 'linear'
        p = [rng.uniform(-.5, .5) * unit, rng.uniform(-2., .5), 0., 0.] if kind == 'linear' else [0., rng.uniform(.3, 1.5), 0., rng.uniform(-1.2, -.3) / unit ** 2]
    disp = [rng.uniform(.4, 1.2) if b['trans'] == 'tme_normal' or rng.chance(.9) else 0., rng.choice([0., 0., rng.uniform(-.25, .25)])]
    if disp[0] == 0.:
        disp[1] = 0.  # noise-free dynamics
    if unit != 1.:
        disp = [disp[0] * unit, 0.]
    nc = rng.choice([1, 2, 3])
    ws = [rng.uniform(.3, 1.) for _ in range(nc)]
    lp = rng.uniform(.5, 1.5)
    t.update(unit=unit, p=p, disp=disp, dt=rng.choice([.01, .05, .1, .2]),
             lin=[rng.uniform(.4, 1.05), unit * rng.uniform(-.4, .4), unit ** 2 * rng.uniform(.1, .8)],
             r=unit * rng.uniform(.4, 1.5), lp=lp / unit if b['lik'] in ('bernoulli', 'poisson') else lp,
             init=[[unit * rng.uniform(-1., 1.) for _ in range(nc)], [unit ** 2 * rng.uniform(.2, 1.) for _ in range(nc)],
                   [w / sum(ws) for w in ws]],
             offset=unit * rng.choice([0., 0., 0., 2., -3.]), mode=rng.choice(MODES), plant=rng.getrandbits(32))
    return t


def lik_np(kind, th, r):
    from scipy.special import gammaln
    if kind == 'gauss':
        return lambda y, x: np.exp(-.5 * ((y - x) / r) ** 2) / (r * math.sqrt(2 * math.pi))
    if kind == 'gauss2':
        return lambda y, x: np.exp(-.5 * ((y[0] - x) / r) ** 2 - .5 * ((y[1] - th * x) / (2 * r)) ** 2) / (
                4 * math.pi * r * r)
    if kind == 'bernoulli':
        return lambda y, x: np.where(y > .5, 1 / (1 + np.exp(-th * x)), 1 / (1 + np.exp(th * x)))
    if kind == 'poisson':
        def f(y, x):
            lam = np.log1p(np.exp(th * x))
            return np.exp(y * np.log(lam) - lam - gammaln(y + 1))
        return f
    return lambda y, x: (1 + ((y - x) / r) ** 2 / 3) ** -2 * 2 / (math.pi * math.sqrt(3) * r)


def plant(b, t):
    rng = np.random.default_rng(t['plant'])
    M = R.Model1D(t['p'], t['disp'])
    ms, vs, ws = [np.array(v) for v in t['init']]
    x = rng.choice(ms) + math.sqrt(vs[0]) * rng.standard_normal()
    ys = []
    th, r = t['lp'], t['r']
    for _ in range(4 * b['T'] + 8):
        if b['trans'] == 'linear':
            x = t['lin'][0] * x + t['lin'][1] + math.sqrt(t['lin'][2]) * rng.standard_normal()
        else:
            x = float(np.clip(x + M.drift(x) * t['dt'] + M.disp(x) * math.sqrt(t['dt']) * rng.standard_normal(), -4 * t['unit'], 4 * t['unit']))
        k = b['lik']
        if k == 'gauss' or k == 'student':
            ys.append(x + r * rng.standard_normal())
        elif k == 'gauss2':
            ys.append([x + r * rng.standard_normal(), th * x + 2 * r * rng.standard_normal()])
        elif k == 'bernoulli':
            ys.append(float(rng.random() < 1 / (1 + math.exp(-th * x))))
        else:
            ys.append(float(rng.poisson(math.log1p(math.exp(th * x)))))
    return ys


def corrupt(b, y, c, mag, last, unit=1.):
    k = b['lik']
    if c == 'none':
        return y
    if c == 'stuck':
        return y if last is None else last
    if k == 'bernoulli':
        return 1. - y
    if k == 'poisson':
        return float(y + round(4 * mag)) if c == 'outlier' else 0.
    f = dict(outlier=lambda v: v + 3 * mag * unit, gain=lambda v: v * (1 + mag), sign=lambda v: -v)[c]
    return [f(v) for v in y] if isinstance(y, list) else f(y)


def build(b, cache):
    """Compile the real filters once per bucket: they take model parameters, state and measurements as arguments."""
    if 'f' in cache:
        return cache['f']
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import filtering as fl
    from mfs.one_dim import moments as mo
    N, order, stable = b['N'], b['order'], b['stable']

    def lik_fn(lp, r):
        import jax.scipy.stats as st
        k = b['lik']
        if k == 'gauss':
            return lambda y, x: st.norm.pdf(y, x, r)
        if k == 'gauss2':
            return lambda y, x: st.norm.pdf(y[0], x, r) * st.norm.pdf(y[1], lp * x, 2 * r)
        if k == 'bernoulli':
            return lambda y, x: st.bernoulli.pmf(y, 1 / (1 + jnp.exp(-lp * x)))
        if k == 'poisson':
            return lambda y, x: st.poisson.pmf(y, jnp.log1p(jnp.exp(lp * x)))
        return lambda y, x: st.t.pdf(y, 3., x, r)

    def moments(a):
        drift = lambda x: a['p'][0] + a['p'][1] * x + a['p'][2] * jnp.tanh(x) + a['p'][3] * x ** 3
        disp = lambda x: a['disp'][0] + a['disp'][1] * jnp.tanh(x)
        if b['trans'] == 'euler':
            return mo.sde_cond_moments_euler(drift, disp, a['dt'], N)
        if b['trans'] == 'tme_normal':
            return mo.sde_cond_moments_tme_normal(drift, disp, a['dt'], order, N)
        if b['trans'] == 'tme':
            return mo.sde_cond_moments_tme(drift, disp, a['dt'], order)
        F, c, S = a['lin'][0], a['lin'][1], a['lin'][2]

        def raw(x, n):
            return cen(x, n, 0.)

        def cen(x, n, mean):
            return sca(x, n, mean, 1.)

        def sca(x, n, mean, scale):
            m = (F * x + c - mean) / scale
            v = S / scale ** 2
            e = [jnp.ones_like(m), m]
            for k in range(2, 2 * N):
                e.append(m * e[-1] + (k - 1) * v * e[-2])
            return jnp.stack(e[:2 * N], -1)[..., n]

        return raw, cen, sca, lambda x: F * x + c, lambda x: (F * x + c, S * jnp.ones_like(x))

    @jax.jit
    def raw(a, s, ys):
        rm, _, _, _, _ = moments(a)
        o, nell = fl.moment_filter_rms(rm, lik_fn(a['lp'], a['r']), s['ms'], ys, stable)
        return dict(ms=o, nell=nell)

    @jax.jit
    def central(a, s, ys):
        _, cm, _, me, _ = moments(a)
        o, m, nell = fl.moment_filter_cms(cm, me, lik_fn(a['lp'], a['r']), s['ms'], s['mean'], ys, stable)
        return dict(ms=o, mean=m, nell=nell)

    @jax.jit
    def scaled(a, s, ys):
        _, _, sm, _, mv = moments(a)
        o, m, sc, nell = fl.moment_filter_scms(sm, mv, lik_fn(a['lp'], a['r']), s['ms'], s['mean'], s['scale'], ys,
                                               stable)
        return dict(ms=o, mean=m, scale=sc, nell=nell)

    cache['f'] = dict(raw=raw, central=central, scaled=scaled)
    cache['mo'] = mo
    return cache['f']


def setup(b, t):
    """Reference pieces for this run."""
    M = R.Model1D(t['p'], t['disp'])
    if b['trans'] == 'linear':
        tr = ('linear',) + tuple(t['lin'])
    else:
        tr = ('euler',) if b['trans'] == 'euler' else ('tme_normal', b['order'])
    dt = t['dt']

    def cond_mv(x):
        return M.cond_mean_var(np.asarray(x, float), dt, tr)

    lik = lik_np(b['lik'], t['lp'], t['r'])
    ms, vs, ws = [np.array(v, float) for v in t['init']]
    ms = ms + t['offset']
    return M, cond_mv, lik, (ms, vs, ws)


class Reference:
    """Lazily steps the stable reference and the float64 envelope along the delivered history."""

    def __init__(self, b, t):
        self.b, self.t = b, t
        M, cond_mv, lik, init = setup(b, t)
        num = 2 * b['N']
        self.init = R.mixture_moments(*init, num)
        self.mix = init
        cm = R.tme_cond_moments(M, t['dt'], b['order']) if b['trans'] == 'tme' else R.gaussian_cond_moments(cond_mv)
        if b['trans'] == 'tme':
            self.ref = None
        else:
            self.ref = R.StableRef(b['N'], cond_mv, lik, init)
        ns = [np.random.default_rng(k) for k in range(4)]
        key = dict(raw='rms', central='cms', scaled='scms')
        self.naive = [[R.NaiveFilter(m, cm, cond_mv, lik, self.init[key[m]], self.init['mean'], self.init['scale'], ns[j])
                       for j in ((0, 1) if self.ref is not None else (0, 1, 2))] for m in MODES]
        self.outs, self.env = [], []
        self.dead = None

    def upto(self, k, ys):
        """Ensure outputs for history indices < k; ys = delivered history values so far (absolute)."""
        while len(self.outs) < k and self.dead is None:
            y = ys[len(self.outs)]
            y = np.array(y) if isinstance(y, list) else y
            try:
                with np.errstate(all='ignore'):
                    naive = [[f.step(y) for f in fs] for fs in self.naive]
                    ref = self.ref.step(y) if self.ref is not None else naive[1][2]
                e = [max(dist(o, ref) for o in fs) for fs in naive]
            except (ArithmeticError, np.linalg.LinAlgError, ValueError):
                self.dead = 'posterior outside the domain'
                break
            prev = self.env[-1] if self.env else [0.] * 3
            e = [max(a, c) for a, c in zip(e, prev)]
            if not all(np.isfinite(e)):
                self.dead = 'ill-conditioned'
                break
            self.outs.append(ref)
            self.env.append(e)
        return self.dead


def dist(o, ref):
    with np.errstate(all='ignore'):
        return float(max(np.max(np.abs(o['rms'] - ref['rms']) / ref['ra']), np.max(np.abs(o['scms'] - ref['scms']) / ref['sa']),
                         abs(o['mean'] - ref['mean']) / ref['scale'], abs(o['scale'] / ref['scale'] - 1),
                         abs(o['nell'] - ref['nell'])))


def full_stats(mode, ms, mean, scale):
    """All representations of one reported posterior."""
    num = len(ms)
    k = np.arange(num)
    if mode == 'raw':
        return dict(rms=ms)
    if mode == 'central':
        return dict(mean=mean, cms=ms)
    return dict(mean=mean, scale=scale, scms=ms)


def errors(mode, ms, mean, scale, ref):
    """Normalised deviations of reported quantities from the reference, by name."""
    e = {}
    with np.errstate(all='ignore'):
        if mode == 'raw':
            e['raw moments'] = np.max(np.abs(ms - ref['rms']) / ref['ra'])
        else:
            e['mean'] = abs(mean - ref['mean']) / ref['scale']
            if mode == 'central':
                e['central moments'] = np.max(np.abs(ms - ref['cms']) / ref['ca'])
            else:
                e['scale'] = abs(scale / ref['scale'] - 1)
                e['scaled central moments'] = np.max(np.abs(ms - ref['scms']) / ref['sa'])
    return e


FLOOR, FACTOR, LIMIT = 1e-7, 1e4, 1e-8


class Adapter:
    def __init__(self, b, t, log, cache):
        self.b, self.t, self.log = b, t, log
        self.f = build(b, cache)
        self.mo = cache['mo']
        self.ys = plant(b, t)
        self.ref = Reference(b, t)
        self.hist = []
        self.args = dict(p=np.array(t['p']), disp=np.array(t['disp']), dt=t['dt'], lin=np.array(t['lin']), r=t['r'], lp=t['lp'])
        self.extra = 0.  # extra tolerance from representation changes on the way

    def measurement(self, i, c, mag, last):
        y = self.ys[i % len(self.ys)]
        if c == 'none' and self.t['offset'] and self.b['lik'] in ('gauss', 'student'):
            y = y + self.t['offset']
        return corrupt(self.b, y, c, mag, last, self.t['unit'])

    def initial(self, mode):
        N = self.b['N']
        ms, vs, ws = self.ref.mix
        if self.b['init'] == 'api' or len(ms) > 1:
            from mfs.utils import GaussianSum1D
            import jax.numpy as jnp
            g = sut(GaussianSum1D.new, jnp.asarray(ms), jnp.asarray(vs), jnp.asarray(ws), N=N, what='GaussianSum1D.new')
            d = dict(raw=g.rms, central=g.cms, scaled=g.scms)[mode]
            mean, scale = float(g.mean), math.sqrt(float(g.variance))
            ref = self.ref.init
            if not abs(mean - ref['mean']) <= 1e-9 * (abs(ref['mean']) + ref['scale']) or not abs(scale / ref['scale'] - 1) <= 1e-8 * (1 + (ref['mean'] / ref['scale']) ** 2):
                raise Violation('initial', f'mean {mean:.10g} or scale {scale:.10g} of the initial mixture is not that of its components ({ref["mean"]:.10g}, {ref["scale"]:.10g})')
        else:
            mean, scale = float(ms[0]), math.sqrt(float(vs[0]))
            fn = dict(raw=lambda p: self.mo.raw_moment_of_normal(mean, vs[0], p),
                      central=lambda p: self.mo.central_moment_of_normal(vs[0], p),
                      scaled=lambda p: self.mo.raw_moment_of_standard_normal(p))[mode]
            d = [float(sut(fn, p, what='moments of a Normal')) for p in range(2 * N)]
        return dict(mode=mode, ms=np.array(d), mean=mean, scale=scale, nell=0.)

    def init(self):
        return self.initial(self.t['mode'])

    def process(self, state, ys):
        m = state['mode']
        o = sut(self.f[m], self.args, {k: state[k] for k in ('ms', 'mean', 'scale')}, np.array(ys), what=f'{m} moment filter')
        o = {k: np.asarray(v) for k, v in o.items()}
        L = len(ys)
        if o['ms'].shape != (L, 2 * self.b['N']):
            raise Violation('shape', f'{m} filter returned moments of shape {o["ms"].shape} for {L} measurements')
        new = dict(mode=m, ms=o['ms'][-1], mean=float(o['mean'][-1]) if m != 'raw' else 0.,
                   scale=float(o['scale'][-1]) if m == 'scaled' else 1., nell=state['nell'] + float(o['nell']))
        o['nell_total'] = new['nell']
        o['mode'] = m
        return new, o

    def migrate(self, s, mode):
        """Fail over to a node that keeps another representation, through the library's own conversions."""
        if s['mode'] == mode or not np.all(np.isfinite(s['ms'])):
            return s
        import jax.numpy as jnp
        mo, ms, mean, scale = self.mo, jnp.asarray(s['ms']), s['mean'], s['scale']
        if s['mode'] == 'raw':
            mean = float(ms[1])
            cms = sut(mo.raw_to_central, ms, what='raw_to_central')
        elif s['mode'] == 'central':
            cms = ms
        else:
            cms = sut(mo.scaled_to_central, ms, scale, what='scaled_to_central')
        scale = math.sqrt(max(float(cms[2]), 0.))
        if mode == 'raw':
            new = sut(mo.central_to_raw, cms, mean, what='central_to_raw')
            mean, scale = 0., 1.
        elif mode == 'central':
            new, scale = cms, 1.
        else:
            raw = sut(mo.central_to_raw, cms, mean, what='central_to_raw')
            new = sut(mo.raw_to_scaled, raw, what='raw_to_scaled')
        self.log.probe('migrations')
        return dict(mode=mode, ms=np.asarray(new), mean=mean, scale=scale, nell=s['nell'])

    def observe(self, k0, ys, o):
        self.hist[k0:k0 + len(ys)] = ys
        self.ref.upto(k0 + len(ys), self.hist)
        m = o['mode']
        for j in range(len(ys)):
            self.compare(k0 + j, m, o['ms'][j], o['mean'][j] if m != 'raw' else None, o['scale'][j] if m == 'scaled' else None)
        self.compare_nell(k0 + len(ys) - 1, m, o['nell_total'])
        self.log.ev('out', o['ms'], float(o['nell']))

    def tol(self, k, m):
        e = max(self.ref.env[k]) if 'migrate' in self.flags else self.ref.env[k][MODES.index(m)]
        return FLOOR + FACTOR * e

    flags = ()

    def compare(self, k, m, ms, mean, scale):
        if k >= len(self.ref.outs):
            raise Skip(self.ref.dead)
        if max(self.ref.env[k]) > LIMIT:
            raise Skip('ill-conditioned')
        ref = self.ref.outs[k]
        tol = self.tol(k, m)
        for what, e in errors(m, ms, mean, scale, ref).items():
            self.log.probe('compared')
            if not e <= tol:
                raise Violation('posterior', f'{m} filter: {what} after measurement {k} deviates by {e:.3g} (tolerance {tol:.3g})',
                                got=ms, mean=mean, scale=scale, ref=ref)

    def compare_nell(self, k, m, nell):
        ref, tol = self.ref.outs[k], self.tol(k, m)
        e = abs(nell - ref['nell']) / max(1., abs(ref['nell']))
        if not e <= tol:
            raise Violation('likelihood', f'{m} filter: negative log-likelihood after measurement {k} is {nell:.12g}, '
                                          f'reference {ref["nell"]:.12g} (tolerance {tol:.3g})')


def execute(t, log, cache):
    b = t['bucket']
    ad = Adapter(b, t, log, cache)
    if any(op[0] == 'migrate' for op in t['ops']):
        ad.flags = ('migrate',)
    hist = Service(t, log, LENS, ad).run()
    # the same delivered history, uninterrupted, in every representation
    for m in MODES:
        s = ad.initial(m)
        _, o = ad.process(s, hist)
        ad.observe(0, hist, o)
    log.probe('envelope<1e-12' if max(ad.ref.env[-1]) < 1e-12 else 'envelope<1e-9' if max(ad.ref.env[-1]) < 1e-9 else 'envelope>=1e-9')
