"""S02: multidimensional moment filters refine the reference operator-quadrature moment recursion."""
import math

import numpy as np

from vsim import refsnd as R
from vsim.core import Skip, Violation, sut
from vsim.stream import Service, gen_stream

RULE = ('one run = one seeded plant, measurement history, batch schedule and fault sequence, filtered by the raw, central '
        'and scaled N-D filters; non-trivial = at least one fault fired and the history stayed in the domain; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['mfs.multi_dims.filtering', 'mfs.multi_dims.quadratures', 'mfs.multi_dims.moments',
                        'mfs.multi_dims.multi_indices', 'mfs.utils.GaussianSumND'],
                  stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; histories on which the textbook float64 recursion loses more than half its digits, or whose moment '
               'matrix stops being positive definite, are skipped and counted']
SHRINK_LISTS = ['ops', 'msgs']
MODES = ['raw', 'central', 'scaled']
LENS = [1, 3]
KEY = dict(raw='rms', central='cms', scaled='scms')
ABS = dict(raw='ra', central='ca', scaled='sa')


def buckets(rng, tier):
    out = []
    n = 24 if tier == 'quick' else 400
    shapes = [(2, 2), (2, 2), (2, 3), (3, 2)]
    trans = ['linear', 'euler', 'tme', 'tme_normal']
    for i in range(n):
        d, N = shapes[(i // 4) % 4]
        tr = trans[i % 4]
        if tr == 'tme_normal' and (d, N) != (2, 2) and tier == 'quick':
            d, N = 2, 2
        modes = MODES if (d, N) == (2, 2) and tr != 'tme_normal' else [rng.choice(MODES)]
        b = dict(d=d, N=N, trans=tr, order=rng.choice([1, 2]), lik=rng.choice(['gauss', 'bernoulli', 'gauss2', 'poisson']),
                 T=rng.choice([4, 6]), stable=rng.chance(.3), modes=modes, disp=rng.choice(['const', 'lin']))
        b['cost'] = (10 if tr == 'tme_normal' else 1) * N * d
        out.append((b, 20 if tier == 'quick' else 60))
    for d, N in ((1, 3), (1, 4), (2, 1), (4, 2)) if tier == 'quick' else ((1, 2), (1, 3), (1, 5), (2, 1), (3, 1), (2, 4), (4, 2), (3, 3)) * 4:
        b = dict(d=d, N=N, trans='linear', order=1, lik=rng.choice(['gauss', 'bernoulli', 'poisson']), T=4, stable=False, modes=[rng.choice(MODES)], disp='const', cost=2 * d)
        out.append((b, 20 if tier == 'quick' else 60))
    for d in range(1, 7):
        out.append((dict(reader=True, d=d, cost=1), 40 if tier == 'quick' else 400))
    return out


def gen(rng, b):
    if b.get('reader'):
        d = b['d']
        N = rng.randint(2, {1: 6, 2: 5, 3: 4, 4: 3, 5: 3, 6: 2}[d])
        return dict(N=N, T=rng.randint(1, 5), atoms=rng.randint(1, 6), law=rng.getrandbits(32), jax=rng.chance(.5),
                    unit=rng.choice([1., 1., .01, 30.]), ops=[[rng.choice(['ok', 'ok', 'torn', 'stale', 'one']), rng.random()] for _ in range(rng.randint(1, 6))])
    t = gen_stream(rng, b['T'], LENS)
    d, g = b['d'], rng.np()
    A = -np.diag(g.uniform(.1, 1., d)) + .5 * g.standard_normal((d, d)) / math.sqrt(d)
    nc = rng.choice([1, 2])
    ws = [rng.uniform(.3, 1.) for _ in range(nc)]
    vs = []
    for _ in range(nc):
        V = g.standard_normal((d, d)) / math.sqrt(d)
        vs.append((.2 * V @ V.T + .2 * np.eye(d)).tolist())
    Q = g.standard_normal((d, d)) / math.sqrt(d)
    L = .4 * g.standard_normal((d, d)) / math.sqrt(d) + .4 * np.eye(d)
    if rng.chance(.3):
        L[rng.randrange(d)] = 0.  # a component that no noise drives
    t.update(A=A.tolist(), a0=g.uniform(-.3, .3, d).tolist(), q=(rng.choice([0., .15]) * g.standard_normal(d)).tolist(),
             L=L.tolist(), eL=rng.choice([0., .1]),
             F=(.8 * np.eye(d) + .2 * g.standard_normal((d, d)) / math.sqrt(d)).tolist(), Q=(.2 * Q @ Q.T + .15 * np.eye(d)).tolist(),
             h=g.uniform(-1, 1, d).tolist(), r=rng.uniform(.8, 2.), dt=rng.choice([.01, .05, .1]),
             init=[g.uniform(-.6, .6, (nc, d)).tolist(), vs, [w / sum(ws) for w in ws]],
             mode=rng.choice(b['modes']), plant=rng.getrandbits(32))
    u = rng.choice([1., 1., .003, .05, 20.]) if b['lik'] != 'gauss2' else 1.
    t['unit'] = u
    if u != 1.:  # the same problem in other units
        sc = lambda k, f: t.__setitem__(k, (np.array(t[k]) * f).tolist())
        for k, f in (('a0', u), ('q', 1 / u), ('L', u), ('Q', u * u), ('h', 1 / u)):
            sc(k, f)
        t['eL'] /= u
        t['init'][0] = (np.array(t['init'][0]) * u).tolist()
        t['init'][1] = (np.array(t['init'][1]) * u * u).tolist()
    return t


# ---- model: drift_i = a0_i + A_i x + q_i x_i x_{i+1}; dispersion = L (const) or L with row i scaled by (1 + eL x_i)
def poly_sde(b, t):
    d = b['d']
    A, a0, q, L = [np.array(t[k]) for k in ('A', 'a0', 'q', 'L')]
    one = (0,) * d
    a = []
    for i in range(d):
        p = {one: a0[i]}
        for j in range(d):
            p[R.e(d, j)] = A[i, j]
        a.append(R.padd(p, {R.add(R.e(d, i), R.e(d, (i + 1) % d)): q[i]}))
    eL = t['eL'] if b['disp'] == 'lin' else 0.
    row = [{one: 1., R.e(d, i): eL} for i in range(d)]
    LL = L @ L.T
    g = [[{k: v * LL[i, j] for k, v in R.pmul(row[i], row[j]).items()} for j in range(d)] for i in range(d)]
    return R.PolySDE(a, g)


def lik_np(b, t):
    h, r = np.array(t['h']), t['r']
    from scipy.special import gammaln
    k = b['lik']
    if k == 'gauss':
        return lambda y, X: np.exp(-.5 * ((y - X @ h) / r) ** 2) / (r * math.sqrt(2 * math.pi))
    if k == 'gauss2':
        return lambda y, X: np.exp(-.5 * ((y[0] - X[:, 0]) / r) ** 2 - .5 * ((y[1] - X[:, -1] * X[:, 0]) / r) ** 2) / (
                2 * math.pi * r * r)
    if k == 'bernoulli':
        return lambda y, X: np.where(y > .5, 1., 0.) / (1 + np.exp(-X @ h)) + np.where(y > .5, 0., 1.) / (1 + np.exp(X @ h))

    def pois(y, X):
        lam = np.log1p(np.exp(X @ h))
        return np.exp(y * np.log(lam) - lam - gammaln(y + 1))

    return pois


def reference_model(b, t):
    d = b['d']
    if b['trans'] == 'linear':
        F, Q = np.array(t['F']), np.array(t['Q'])
        mc = lambda X: (X @ F.T, np.broadcast_to(Q, X.shape[:-1] + (d, d)))
    else:
        sde = poly_sde(b, t)
        o = 1 if b['trans'] == 'euler' else b['order']
        mc = lambda X: sde.mean_cov(X, t['dt'], o)
        if o == 1:
            mc = lambda X: sde.euler(X, t['dt'])

    def cond(X, mean, scale, deg):
        if b['trans'] == 'tme':
            loc = sde.rescaled(mean, scale)
            Z = (X - mean) / scale
            return {n: loc.expect({n: 1.}, Z, t['dt'], b['order']) for n in R.indices(d, deg)}
        m, S = mc(X)
        return R.gauss_moments((m - mean) / scale, S / np.multiply.outer(scale, scale), deg)

    def cond_mv(X):
        m, S = mc(X)
        return m, np.einsum('...ii->...i', S)

    return cond, cond_mv, lik_np(b, t)


def plant(b, t, n):
    g = np.random.default_rng(t['plant'])
    d = b['d']
    u = t['unit']
    x = np.array(t['init'][0][0]) + .4 * u * g.standard_normal(d)
    sde = poly_sde(b, t)
    ys = []
    for _ in range(n):
        if b['trans'] == 'linear':
            x = np.array(t['F']) @ x + np.linalg.cholesky(np.array(t['Q']) if not t.get('badQ') else np.diag(np.diag(t['Q']))) @ g.standard_normal(d)
        else:
            m, S = sde.euler(x[None], t['dt'])
            x = np.clip(m[0] + np.linalg.cholesky(S[0] + 1e-9 * u * u * np.eye(d)) @ g.standard_normal(d), -3 * u, 3 * u)
        s = float(np.dot(t['h'], x))
        k = b['lik']
        if k == 'gauss':
            ys.append(s + t['r'] * g.standard_normal())
        elif k == 'gauss2':
            ys.append([x[0] + t['r'] * g.standard_normal(), x[0] * x[-1] + t['r'] * g.standard_normal()])
        elif k == 'bernoulli':
            ys.append(float(g.random() < 1 / (1 + math.exp(-s))))
        else:
            ys.append(float(g.poisson(math.log1p(math.exp(s)))))
    return ys


def build(b, cache):
    if 'f' in cache:
        return cache['f']
    import jax
    import jax.numpy as jnp
    import jax.scipy.stats as st
    from mfs.multi_dims import filtering as fl
    from mfs.multi_dims import moments as mo
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    d, N, stable = b['d'], b['N'], b['stable']
    mi = sut(generate_graded_lexico_multi_indices, d, 2 * N - 1, 0, what='multi-indices')
    inds = sut(gram_and_hankel_indices_graded_lexico, N, d, what='gram indices')
    order = (jnp.asarray(mi), inds)

    def lik(a):
        k = b['lik']
        h, r = a['h'], a['r']
        if k == 'gauss':
            return lambda y, x: st.norm.pdf(y, jnp.dot(h, x), r)
        if k == 'gauss2':
            return lambda y, x: st.norm.pdf(y[0], x[0], r) * st.norm.pdf(y[1], x[0] * x[-1], r)
        if k == 'bernoulli':
            return lambda y, x: st.bernoulli.pmf(y, 1 / (1 + jnp.exp(-jnp.dot(h, x))))
        return lambda y, x: st.poisson.pmf(y, jnp.log1p(jnp.exp(jnp.dot(h, x))))

    def funcs(a):
        drift = lambda x: a['a0'] + a['A'] @ x + a['q'] * x * jnp.roll(x, -1)
        disp = lambda x: a['L'] * (1 + a['eL'] * x)[:, None]
        if b['trans'] == 'euler':
            return mo.sde_cond_moments_euler_maruyama(drift, disp, a['dt'], mi), 'index'
        if b['trans'] == 'tme_normal':
            return mo.sde_cond_moments_tme_normal(drift, disp, a['dt'], b['order'], mi), 'index'
        if b['trans'] == 'tme':
            return mo.sde_cond_moments_tme(drift, disp, a['dt'], b['order']), 'multi-index'
        # user-written linear Gaussian moments through the library's Normal moments, constant transition covariance
        one = jnp.ones(d)

        def sca(x, index, mean, scale):
            m = (a['F'] @ x - mean) / scale
            S = a['Q'] / jnp.outer(scale, scale)
            return jnp.asarray([mo.raw_moments_mvn_kan(m, S, n) for n in mi])[index]

        vv = lambda f, k: jax.vmap(jax.vmap(f, in_axes=[None, 0] + [None] * k), in_axes=[0, None] + [None] * k)
        mean = jax.vmap(lambda x: a['F'] @ x)
        mv = jax.vmap(lambda x: (a['F'] @ x, jnp.diagonal(a['Q'])))
        return (vv(lambda x, i: sca(x, i, 0. * one, one), 0), vv(lambda x, i, m: sca(x, i, m, one), 1), vv(sca, 2), mean, mv), 'index'

    @jax.jit
    def raw(a, s, ys):
        (rm, *_), sig = funcs(a)
        o, n = fl.moment_filter_nd_rms((rm, sig), lik(a), ys, order, s['ms'], stable)
        return dict(ms=o, nell=n)

    @jax.jit
    def central(a, s, ys):
        (_, cm, _, me, _), sig = funcs(a)
        o, m, n = fl.moment_filter_nd_cms((cm, sig), me, lik(a), ys, order, s['ms'], s['mean'], stable)
        return dict(ms=o, mean=m, nell=n)

    @jax.jit
    def scaled(a, s, ys):
        (_, _, sm, _, mv), sig = funcs(a)
        o, m, sc, n = fl.moment_filter_nd_scms((sm, sig), mv, lik(a), ys, order, s['ms'], s['mean'], s['scale'], stable)
        return dict(ms=o, mean=m, scale=sc, nell=n)

    cache['f'] = dict(raw=raw, central=central, scaled=scaled)
    cache['mi'] = [tuple(int(v) for v in r) for r in np.asarray(mi)]
    cache['mi_np'] = np.asarray(mi)
    cache['mo'] = mo
    if sorted(cache['mi']) != sorted(R.indices(d, 2 * N - 1)):
        raise Violation('multi-index', 'the generated multi-indices are not all exponents of degree <= 2N-1')
    return cache['f']


FLOOR, FACTOR, LIMIT = 1e-7, 1e4, 1e-8


class Adapter:
    def __init__(self, b, t, log, cache):
        import jax.numpy as jnp
        self.b, self.t, self.log = b, t, log
        self.f = build(b, cache)
        self.mi, self.mo, self.mi_np = cache['mi'], cache['mo'], cache['mi_np']
        self.mix = [np.array(v, float) for v in t['init']]
        self.init_ref = R.mixture_moments(*self.mix, 2 * b['N'] - 1)
        cond, cmv, lik = reference_model(b, t)
        mk = lambda m, s: R.Filter(m, b['N'], b['d'], cond, cmv, lik, self.init_ref, np.random.default_rng(s) if s else None)
        self.ref, self.env_f = mk('scaled', 0), [mk(m, s) for s, m in enumerate(b['modes'], 1)]
        self.refs, self.env, self.dead, self.hist = [], [], None, []
        a = {k: jnp.asarray(t[k]) for k in ('A', 'a0', 'q', 'L', 'F', 'Q', 'h')}
        a.update(r=t['r'], dt=t['dt'], eL=t['eL'] if b['disp'] == 'lin' else 0.)
        self.args = a
        self.ys = plant(b, t, 24)
        self.gs = None

    def measurement(self, i, c, mag, last):
        y = self.ys[i % len(self.ys)]
        if c == 'none':
            return y
        if c == 'stuck':
            return y if last is None else last
        k = self.b['lik']
        if k == 'bernoulli':
            return 1. - y
        if k == 'poisson':
            return float(y + round(3 * mag)) if c == 'outlier' else 0.
        f = dict(outlier=lambda v: v + 2.5 * mag, gain=lambda v: v * (1 + mag), sign=lambda v: -v)[c]
        return [f(v) for v in y] if isinstance(y, list) else f(y)

    def initial(self, mode):
        import jax.numpy as jnp
        from mfs.utils import GaussianSumND
        if self.gs is None:
            self.gs = sut(GaussianSumND.new, *[jnp.asarray(v) for v in self.mix], self.mi_np, what='GaussianSumND.new')
        g = self.gs
        mean, scale = np.asarray(g.mean), np.sqrt(np.diagonal(np.asarray(g.cov)))
        m, v, w = self.mix
        rm = w @ m
        rs = np.sqrt(np.einsum('k,kii->i', w, v) + w @ (m - rm) ** 2)
        if not np.all(np.abs(mean - rm) <= 1e-9 * (np.abs(rm) + rs)) or not np.all(np.abs(scale / rs - 1) <= 1e-8 * (1 + (rm / rs) ** 2)):
            raise Violation('initial', 'mean or scale of the initial mixture is not that of its components', mean=mean, scale=scale, ref_mean=rm, ref_scale=rs)
        ms = np.asarray(g.rms if mode == 'raw' else g.cms)
        if mode == 'scaled':
            ms = ms / np.prod(scale ** self.mi_np, -1)
        return dict(mode=mode, ms=ms, mean=mean, scale=scale, nell=0.)

    def init(self):
        return self.initial(self.t['mode'])

    def process(self, s, ys):
        import jax.numpy as jnp
        m = s['mode']
        o = sut(self.f[m], self.args, {k: jnp.asarray(s[k]) for k in ('ms', 'mean', 'scale')}, jnp.asarray(ys),
                what=f'{m} N-D moment filter')
        o = {k: np.asarray(v) for k, v in o.items()}
        if o['ms'].shape != (len(ys), len(self.mi)):
            raise Violation('shape', f'{m} filter returned moments of shape {o["ms"].shape}')
        new = dict(mode=m, ms=o['ms'][-1], mean=o['mean'][-1] if m != 'raw' else s['mean'],
                   scale=o['scale'][-1] if m == 'scaled' else s['scale'], nell=s['nell'] + float(o['nell']))
        o.update(mode=m, nell_total=new['nell'])
        return new, o

    def advance(self, k):
        while len(self.refs) < k and self.dead is None:
            y = self.hist[len(self.refs)]
            y = np.array(y) if isinstance(y, list) else y
            try:
                with np.errstate(all='ignore'):
                    ref = self.ref.step(y)
                    e = 0.
                    for f in self.env_f:
                        o = f.step(y)
                        e = max([e, abs(o['nell'] - ref['nell']), np.max(np.abs(o['mean'] - ref['mean']) / ref['scale']),
                                 np.max(np.abs(o['scale'] / ref['scale'] - 1))]
                                + [abs(o['scms'][n] - ref['scms'][n]) / ref['sa'][n] for n in ref['scms']]
                                + [abs(o['rms'][n] - ref['rms'][n]) / ref['ra'][n] for n in ref['scms']])
            except (FloatingPointError, np.linalg.LinAlgError, ValueError, OverflowError):
                self.dead = 'posterior outside the domain'
                break
            e = max(e, self.env[-1] if self.env else 0.)
            if not np.isfinite(e) or e > LIMIT:
                self.dead = 'ill-conditioned'
                break
            self.refs.append(ref)
            self.env.append(e)
        if len(self.refs) < k:
            raise Skip(self.dead)

    def observe(self, k0, ys, o):
        self.hist[k0:k0 + len(ys)] = ys
        m, d = o['mode'], self.b['d']
        self.advance(k0 + len(ys))
        for j in range(len(ys)):
            k = k0 + j
            ref, tol = self.refs[k], FLOOR + FACTOR * self.env[k]
            r = np.array([ref[KEY[m]][n] for n in self.mi])
            ra = np.array([ref[ABS[m]][n] for n in self.mi])
            errs = {'moments': np.max(np.abs(o['ms'][j] - r) / ra)}
            if m != 'raw':
                errs['mean'] = np.max(np.abs(o['mean'][j] - ref['mean']) / ref['scale'])
            if m == 'scaled':
                errs['scale'] = np.max(np.abs(o['scale'][j] / ref['scale'] - 1))
            self.log.probe('compared')
            for what, e in errs.items():
                if not e <= tol:
                    raise Violation('posterior', f'{m} N-D filter: {what} after measurement {k} deviates by {e:.3g} '
                                                 f'(tolerance {tol:.3g})', got=o['ms'][j], ref=ref)
        k = k0 + len(ys) - 1
        e = abs(o['nell_total'] - self.refs[k]['nell']) / max(1., abs(self.refs[k]['nell']))
        if not e <= FLOOR + FACTOR * self.env[k]:
            raise Violation('likelihood', f'{m} N-D filter: negative log-likelihood after measurement {k} deviates by {e:.3g}')
        for j in range(len(ys)):
            self.consumers(k0 + j, m, o['ms'], j)
        self.log.ev('out', o['ms'], float(o['nell']))

    def consumers(self, k, m, mss, at):
        """What a downstream reader extracts from the reported moments (the whole batch at once)."""
        import jax.numpy as jnp
        b, mo, ref = self.b, self.mo, self.refs[k]
        d = b['d']
        tol = lambda n: 10 * (FLOOR + FACTOR * self.env[k]) * ref[ABS[m]][n]
        mom = ref[KEY[m]]
        ms = mss
        mean = np.asarray(sut(mo.extract_mean, jnp.asarray(ms), d, what='extract_mean'))[at]
        cov = np.asarray(sut(mo.extract_cov, jnp.asarray(ms), d, what='extract_cov'))[at]
        for i in range(d):
            if not abs(mean[i] - mom[R.e(d, i)]) <= tol(R.e(d, i)):
                raise Violation('consumer', f'extract_mean disagrees with the filter moments in component {i}')
            for j in range(d):
                n = R.add(R.e(d, i), R.e(d, j))
                if b['N'] > 1 and not abs(cov[i, j] - mom[n]) <= tol(n):
                    raise Violation('consumer', f'extract_cov disagrees with the filter moments in component {i},{j}')
            mar = np.asarray(sut(mo.marginalise_moments, jnp.asarray(ms), d, b['N'], i, what='marginalise_moments'))[at]
            ns = [tuple(n if j == i else 0 for j in range(d)) for n in range(2 * b['N'])]
            if mar.shape != (2 * b['N'],) or not np.all(np.abs(mar - [mom[n] for n in ns]) <= [tol(n) for n in ns]):
                raise Violation('consumer', f'marginal moments of component {i} disagree with the joint moments')


def reader(t, log, cache):
    """A reader of stored posteriors (joint moments of any dimension), of which a crash may have kept only a part."""
    import jax.numpy as jnp
    from mfs.multi_dims import moments as mo
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    d, N, T = t['bucket']['d'], t['N'], t['T']
    mi = np.asarray(sut(generate_graded_lexico_multi_indices, d, 2 * N - 1, 0, what='multi-indices'))
    g = np.random.default_rng(t['law'])
    X = t['unit'] * g.standard_normal((T, t['atoms'], d))
    W = g.dirichlet(np.ones(t['atoms']), T)
    pw = np.prod(X[:, :, None, :] ** mi, -1)
    ms, mag = np.einsum('ta,taz->tz', W, pw), np.einsum('ta,taz->tz', W, np.abs(pw)) + 1e-300
    arr = jnp.asarray if t['jax'] else np.asarray
    pos = {tuple(int(v) for v in r): i for i, r in enumerate(mi)}
    for kind, u in t['ops']:
        lo, hi = 0, T
        if kind == 'torn':
            hi = 1 + int(u * T)
            log.fault('disk.torn')
        elif kind == 'stale':
            lo = int(u * T)
            log.fault('disk.stale')
        sel = slice(lo, hi)
        one = kind == 'one'
        data = arr(ms[0] if one else ms[sel])
        M, A = (ms[:1], mag[:1]) if one else (ms[sel], mag[sel])

        def same(got, cols, shape, what):
            got = np.asarray(got)
            if got.shape != (() if one else (len(M),)) + shape:
                raise Violation('reader', f'{what} of {d}-D moments has shape {got.shape}')
            got = got.reshape((len(M),) + shape)
            want, tol = M[:, cols], 1e-12 * A[:, cols]
            if not np.all(np.abs(got - want) <= tol):
                raise Violation('reader', f'{what} of {d}-D moments (N={N}) disagrees with the joint moments')

        same(sut(mo.extract_mean, data, d, what='extract_mean'), np.array([pos[R.e(d, i)] for i in range(d)]), (d,), 'extract_mean')
        same(sut(mo.extract_cov, data, d, what='extract_cov'), np.array([[pos[R.add(R.e(d, i), R.e(d, j))] for j in range(d)] for i in range(d)]), (d, d), 'extract_cov')
        i = int(u * d)
        same(sut(mo.marginalise_moments, data, d, N, i, what='marginalise_moments'),
             np.array([pos[tuple(n if j == i else 0 for j in range(d))] for n in range(2 * N)]), (2 * N,), f'marginalise_moments axis {i}')
        n = tuple(int(v) for v in mi[int(u * len(mi))])
        same(sut(mo.extract_moments, data, list(n), what='extract_moments'), np.array(pos[n]), (), f'extract_moments {n}')
        log.probe('reads')
        log.ev('read', kind, data)


def execute(t, log, cache):
    b = t['bucket']
    if b.get('reader'):
        return reader(t, log, cache)
    ad = Adapter(b, t, log, cache)
    hist = Service(t, log, LENS, ad).run()
    for m in b['modes']:
        _, o = ad.process(ad.initial(m), hist)
        ad.observe(0, hist, o)
