"""R03: trajectory simulators and samplers: the noise is recovered from what they return and must be fresh and of the stated law."""
import math

import numpy as np
from scipy import special

from vsim import stats
from vsim.core import Violation, sut

RULE = ('one run = one seeded model and a schedule of simulator or sampler calls (fresh keys, sibling keys, repeated keys after a '
        'crash, interleaved calls); the recovered noise of all calls is tested; distinct by event-log hash')
COMPONENTS = dict(real=['mfs.utils.simulate_sde', 'mfs.utils.GaussianSum1D/ND', 'mfs.one_dim.ss_models', 'mfs.multi_dims.ss_models', 'tme'],
                  stub=['SDE coefficients of the seeded models'])
ASSUMPTIONS = ['statistical decisions have a false-alarm probability below 1e-9 each', 'JAX generates independent streams for different keys']
SHRINK_LISTS = ['calls']
FAULTLESS_OK = True


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for rep in range(1 if q else 8):
        for d in (1, 2, 3):
            for kind in ('nonlinear', 'linear'):
                for diag in (False, True):
                    steps = 1 if kind == 'nonlinear' else rng.choice([2, 3, 7])
                    out.append((dict(kind='sde', d=d, model=kind, diag=diag, steps=steps, T=rng.choice([1, 50, 400]) if rep else 400,
                                     cost=2), 6 if q else 30))
        for d in (1, 2, 3):
            out.append((dict(kind='chain', d=d, cost=1), 25 if q else 100))
        for d in (0, 1, 2, 3):
            for nc in (1, 2, 4):
                out.append((dict(kind='mixture', d=d, nc=nc, cost=1), 6 if q else 40))
        for m in ('benes', 'well', 'prey'):
            out.append((dict(kind='model', model=m, steps=rng.choice([5, 20]), cost=4), 3 if q else 20))
    return out


def gen(rng, b):
    calls = []
    for _ in range(rng.choice([2, 3, 4])):
        calls.append([rng.choice(['fresh', 'sibling', 'next']), rng.getrandbits(31)])
    for _ in range(rng.choice([1, 2])):
        calls.insert(rng.randint(1, len(calls)), ['again', rng.randint(0, 5)])
    return dict(calls=calls, par=rng.getrandbits(32), dt=rng.choice([1e-3, .01, .1, .5]), T=rng.choice([1, 2, 3, 5, 12]), steps=rng.choice([1, 2, 3, 4]),
                n=rng.choice([1, 3, 2000, 6000]), diag=rng.chance(.4), p1=rng.uniform(.5, 3.))


def keys_of(t, log):
    import jax
    out = []
    for how, s in t['calls']:
        if how == 'again':
            log.fault('repeat_after_crash')
            out.append(('again', out[s % len(out)][1] if out else jax.random.PRNGKey(s)))
        elif how == 'sibling' and out:
            log.fault('sibling_keys')
            root = jax.random.PRNGKey(s)
            a, b = jax.random.split(root)
            out += [('fresh', a), ('fresh', b)]
        elif how == 'next' and out:
            log.fault('adjacent_keys')
            out += [('fresh', jax.random.PRNGKey(s)), ('fresh', jax.random.PRNGKey(s + 1))]
        else:
            out.append(('fresh', jax.random.PRNGKey(s)))
    return out


def series(t, log, fn, what):
    """Run the schedule of calls; equal keys must give equal output, different keys different output."""
    seen = {}
    order = []
    for how, key in keys_of(t, log):
        o = sut(fn, key, what=what)
        o = [np.asarray(v) for v in (o if isinstance(o, (tuple, list)) else [o])]
        k = tuple(np.asarray(key).tolist())
        log.ev('call.' + how, *o)
        log.probe('calls')
        if k in seen:
            if not all(np.array_equal(a, b) for a, b in zip(o, seen[k])):
                raise Violation('repeat', f'{what}: the same key gave different output')
        else:
            for other in order:
                if o[0].size and np.array_equal(o[0], seen[other][0]):
                    raise Violation('repeat', f'{what}: different keys gave the same output')
            seen[k] = o
            order.append(k)
    return [seen[k] for k in order]


def sde_model(b, g):
    import jax.numpy as jnp
    d = b['d']
    K = np.tril(g.uniform(-.4, .4, (d, d)), -1)
    A = -np.eye(d) * g.uniform(.5, 1.) + K - K.T
    c = .3 * g.standard_normal(d)
    S = np.eye(d) + .5 * g.standard_normal((d, d)) if not b['diag'] else np.diag(g.uniform(.5, 1.5, d))
    S = S * g.uniform(.5, 2., d)[:, None]
    Q = S @ S.T if not b['diag'] else S

    def mc(xp):
        def m_and_cov(x, dt):
            if b['model'] == 'linear':
                return x + (xp.asarray(A) @ x + xp.asarray(c)) * dt, xp.asarray(Q) * dt
            sc = 1 + .5 * xp.tanh(x)
            m = x + (xp.asarray(A) @ xp.sin(x) + xp.asarray(c)) * dt
            return m, xp.outer(sc, sc) * xp.asarray(Q) * dt if not b['diag'] else xp.diag(sc * xp.diag(xp.asarray(Q)) * dt)
        return m_and_cov
    return mc, (A, c, Q), mc(jnp)


def white_step(mc, x, xn, dt):
    m, Q = mc(x, dt)
    return np.linalg.solve(np.linalg.cholesky(Q), xn - m)


def run_sde(t, log, cache):
    import jax
    import jax.numpy as jnp
    from mfs.utils import simulate_sde
    b = t['bucket']
    d, T, steps, dt = b['d'], b['T'], b['steps'], t['dt']
    g = np.random.default_rng(t['par'])
    mc, (A, c, Q), jmc = sde_model(b, g)
    x0 = g.standard_normal(d)
    arg = jnp.asarray(x0) if d > 1 or g.random() < .5 else float(x0[0])
    trajs = series(t, log, jax.jit(lambda key: simulate_sde(jmc, arg, dt, T, key, diagonal_cov=b['diag'], integration_steps=steps)), 'simulate_sde')
    log.simtime += T * dt * len(t['calls'])
    # law over one interval
    npmc = mc(np)
    if b['model'] == 'linear':
        h = dt / steps
        F, P, off = np.eye(d), np.zeros((d, d)), np.zeros(d)
        for _ in range(steps):
            F1 = np.eye(d) + A * h
            F, off, P = F1 @ F, F1 @ off + c * h, F1 @ P @ F1.T + Q * h
        step = lambda x, _: (F @ x + off, P)
    else:
        step = lambda x, _: npmc(x, dt)
    allz = []
    for tr, in trajs:
        if tr.shape != (T, d):
            raise Violation('shape', f'simulate_sde returned shape {tr.shape}, expected {(T, d)}')
        xs = np.vstack([x0, tr])
        z = np.array([white_step(step, xs[k], xs[k + 1], None) for k in range(T)])
        stats.distinct(z[:, 0], 'noise of one trajectory')
        if T >= 50:
            stats.white(z, 'noise of one trajectory')
        allz.append(z)
    for i in range(len(allz)):
        for j in range(i):
            if T >= 60:
                for l in range(d):
                    stats.uncorrelated(allz[i][:, l], allz[j][:, l], 'noises of two keys')
    z = np.vstack(allz)
    log.ev('noise', z[:3])
    log.probe('noise_draws', z.size)
    if len(z) >= 40:
        stats.normal(z, f'whitened increments ({b["model"]}, {steps} steps)')


def run_chain(t, log, cache):
    """Step by step with jit disabled: every sub-step starts where the last ended and covers dt / integration_steps."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import simulate_sde
    b = t['bucket']
    d, T, steps, dt = b['d'], t['T'], t['steps'], t['dt']
    bb = dict(b, model='nonlinear', diag=t['diag'])
    g = np.random.default_rng(t['par'])
    mc, _, jmc = sde_model(bb, g)
    x0 = g.standard_normal(d)
    rec = []

    def cb(x, h):
        if isinstance(x, jax.core.Tracer):
            rec.append(None)
        else:
            rec.append((np.asarray(x), float(h)))
        return jmc(x, h)

    npmc = mc(np)

    def call(key):
        rec.clear()
        with jax.disable_jit():
            tr = np.asarray(simulate_sde(cb, jnp.asarray(x0), dt, T, key, diagonal_cov=t['diag'], integration_steps=steps))
        if any(r is None for r in rec):
            log.probe('traced')
            return tr
        hs = sum(h for _, h in rec)
        if abs(hs - T * dt) > 1e-9 * T * dt or len(rec) != T * steps:
            raise Violation('interval', f'{T} intervals of {dt} in {steps} steps each were covered by {len(rec)} steps of total length {hs:.6g}')
        if np.max(np.abs(rec[0][0] - x0)) > 1e-12:
            raise Violation('chain', 'the trajectory does not start from the initial value')
        for k in range(T):
            end = rec[(k + 1) * steps][0] if k + 1 < T else None
            if end is not None and not np.allclose(tr[k], end, rtol=1e-12, atol=1e-12):
                raise Violation('chain', f'time {k}: the reported state is not where the next interval starts')
            if abs(sum(h for _, h in rec[k * steps:(k + 1) * steps]) - dt) > 1e-9 * dt:
                raise Violation('interval', f'interval {k} has the wrong length')
        xs = [r[0] for r in rec] + [tr[-1]]
        z = np.array([white_step(npmc, xs[i], xs[i + 1], rec[i][1]) for i in range(len(rec))])
        stats.distinct(z, 'noise of one trajectory')
        if np.max(np.abs(z)) > 9:
            raise Violation('law', f'a sub-step uses noise of size {np.max(np.abs(z)):.3g}')
        zs.append(z)
        log.probe('noise_draws', z.size)
        return tr

    zs = []
    series(t, log, call, 'simulate_sde')
    z = np.vstack(zs) if zs else np.zeros((0, d))
    if len(z) >= 40:
        stats.normal(z, 'noise of the sub-steps')
    log.simtime += T * dt


def run_mixture(t, log, cache):
    import jax
    import jax.numpy as jnp
    b = t['bucket']
    d, nc, n = max(1, b['d']), b['nc'], t['n']
    g = np.random.default_rng(t['par'])
    w = g.dirichlet(np.ones(nc) * 3)
    if nc > 1 and g.random() < .3:
        w[g.integers(nc)] = 0.
        w /= w.sum()
        log.fault('weights.zero')
    overlap = g.random() < .4
    S = [np.tril(.4 * g.standard_normal((d, d)), -1) + np.diag(g.uniform(.5, 1.5, d)) for _ in range(nc)]
    covs = np.array([s @ s.T for s in S])
    means = g.standard_normal((nc, d)) if overlap else (np.arange(nc)[:, None] * 40. + g.standard_normal((nc, d)))
    if b['d'] == 0:
        from mfs.utils import GaussianSum1D
        mix = sut(GaussianSum1D.new, jnp.asarray(means[:, 0]), jnp.asarray(covs[:, 0, 0]), jnp.asarray(w), N=3, what='GaussianSum1D.new')
    else:
        from mfs.utils import GaussianSumND
        from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
        mi = generate_graded_lexico_multi_indices(d, 3, 0)
        mix = sut(GaussianSumND.new, jnp.asarray(means), jnp.asarray(covs), jnp.asarray(w), mi, what='GaussianSumND.new')
    # first two moments that come with the mixture
    mean = w @ means
    cov = np.einsum('k,kij->ij', w, covs + np.einsum('ki,kj->kij', means, means)) - np.outer(mean, mean)
    gm, gc = (np.atleast_1d(mix.mean), np.atleast_2d(mix.variance)) if b['d'] == 0 else (np.asarray(mix.mean), np.asarray(mix.cov))
    sc = 1 + np.max(np.abs(means)) ** 2
    if not np.allclose(gm, mean, atol=1e-9 * sc) or not np.allclose(gc, cov, atol=1e-9 * sc):
        raise Violation('moments', 'mean or covariance of the mixture object is not that of the law it samples')
    draws = series(t, log, lambda key: mix.sampler(key, n), 'sampler')
    X = []
    for x, in draws:
        if x.shape != ((n,) if b['d'] == 0 else (n, d)):
            raise Violation('shape', f'sampler returned shape {x.shape} for {n} samples')
        X.append(x.reshape(n, d))
        stats.distinct(X[-1][:, 0], 'samples of one call')
    for i in range(1, len(X)):
        stats.uncorrelated(X[i][:, 0] - mean[0], X[i - 1][:, 0] - mean[0], 'samples of two keys')
    x = np.vstack(X)
    log.ev('samples', x[:3])
    log.probe('samples', len(x))
    # marginal law of random projections
    for _ in range(3):
        a = g.standard_normal(d)
        a /= np.linalg.norm(a)
        u = sum(w[k] * special.ndtr((x @ a - means[k] @ a) / math.sqrt(a @ covs[k] @ a)) for k in range(nc))
        stats.uniform(u, 'projection of the samples')
        stats.white(u - .5, 'successive samples', lags=(1, 2))
    if not overlap:
        k = np.clip(np.round((x[:, 0]) / 40.), 0, nc - 1).astype(int)
        if np.any(w[k] == 0):
            raise Violation('law', 'a component of zero weight was sampled')
        for j in range(nc):
            stats.binary(k == j, np.full(len(k), w[j]), f'component {j}')
        z = np.einsum('nij,nj->ni', np.linalg.inv(np.linalg.cholesky(covs))[k], x - means[k])
        stats.normal(z, 'noise within components')
        stats.white(z, 'noise within components')
        stats.white((k - w @ np.arange(nc))[:, None], 'component choices')
        for j in range(nc):
            stats.uncorrelated((k == j) - w[j], z[:, 0], 'component choice and noise')
            if (k == j).sum() >= 40:
                stats.normal(z[k == j], f'noise within component {j}')
    # density that comes with the mixture
    for p in x[:3]:
        ref = sum(w[k] * math.exp(-.5 * (p - means[k]) @ np.linalg.solve(covs[k], p - means[k])) / math.sqrt(np.linalg.det(2 * math.pi * covs[k])) for k in range(nc))
        got = float(np.asarray(mix.pdf(jnp.asarray(p if b['d'] else p[0]))).ravel()[0])
        if abs(got - ref) > 1e-9 + 1e-6 * ref:
            raise Violation('density', f'density of the mixture is {got:.8g}, expected {ref:.8g}')
        if b['d']:
            got = float(mix.logpdf(jnp.asarray(p)))
            if abs(got - math.log(ref)) > 1e-6:
                raise Violation('density', f'log-density of the mixture is {got:.8g}, expected {math.log(ref):.8g}')


def increments(x, f, f1, f2, s2, dt):
    """Second-order conditional mean and variance of dX = f dt + dW (unit dispersion)."""
    m = x + f * dt + (f * f1 + .5 * f2) * dt ** 2 / 2
    return m, s2 * dt + f1 * dt ** 2


def run_model(t, log, cache):
    import jax
    import jax.numpy as jnp
    b = t['bucket']
    name = b['model']
    g = np.random.default_rng(t['par'])
    nk = {'benes': 60, 'well': 8, 'prey': 10}[name]
    if name == 'prey':
        from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
        from mfs.multi_dims.ss_models import prey_predator
        if 'prey' not in cache:
            mi = generate_graded_lexico_multi_indices(2, 3, 0)
            cache['prey'] = prey_predator(mi)
            sim = cache['prey'][-1]
            cache['sim'] = jax.jit(jax.vmap(lambda k: sim(k, integration_steps=b['steps'])))
        dt, T, ts, gs, drift, dispersion, emission, pmf, _ = cache['prey']
        fn = lambda key: cache['sim'](jax.random.split(key, nk))
    else:
        from mfs.one_dim import ss_models
        ck = (name, t['p1']) if name == 'well' else name
        if ck not in cache:
            cache[ck] = ss_models.benes_bernoulli() if name == 'benes' else ss_models.well_poisson(cache.setdefault('p1', t['p1']))
        p1 = cache.get('p1')
        dt, T, ts, gs, drift, dispersion, emission, pmf, traj = cache[ck]

        def fn(key):
            kx, ks = jax.random.split(key)
            x0 = gs.sampler(kx, nk)
            return x0, jnp.stack([traj(x0[i], k) for i, k in enumerate(jax.random.split(ks, nk))])
    if abs(float(ts[-1]) - T * dt) > 1e-9 or len(ts) != T:
        raise Violation('grid', 'the time grid of the model does not match its interval and number of steps')
    calls = series(t, log, fn, name)
    log.simtime += len(calls) * nk * T * dt
    X0 = np.concatenate([c[0] for c in calls]).reshape(-1, 2 if name == 'prey' else 1)
    xs = np.concatenate([c[1] for c in calls])
    if xs.shape[1] != T:
        raise Violation('shape', f'{name}: trajectory of {xs.shape[1]} points, expected {T}')
    if name != 'prey':
        x = np.concatenate([X0, xs], axis=1)
        a, y = x[:, :-1], x[:, 1:]
        if name == 'benes':
            wp = 1 / (1 + np.exp(-2 * a))
            u = wp * special.ndtr((y - a - dt) / math.sqrt(dt)) + (1 - wp) * special.ndtr((y - a + dt) / math.sqrt(dt))
            stats.uniform(u, 'transitions of the Benes model')
            z = special.ndtri(np.clip(u, 1e-12, 1 - 1e-12))
            slack = 0.
        else:
            f, f1, f2 = a * (1 - p1 * a ** 2), 1 - 3 * p1 * a ** 2, -6 * p1 * a
            m, v = increments(a, f, f1, f2, 1., dt)
            z = (y - m) / np.sqrt(v)
            slack = 5e-3
        check_noise(z[:, :, None], slack, name)
        p = np.linspace(-2, 2, 9)
        if name == 'benes':
            pr = 1 / (1 + np.exp(-p ** 3 / 5))
            got = np.array([[float(pmf(k, v)) for k in (0, 1)] for v in p])
            ref = np.stack([1 - pr, pr], 1)
        else:
            lam = np.log(1 + np.exp(1.7 * p))
            got = np.array([[float(pmf(k, v, 1.7)) for k in (0, 1, 4)] for v in p])
            ref = np.array([[math.exp(-l) * l ** k / math.factorial(k) for k in (0, 1, 4)] for l in lam])
        if not np.allclose(got, ref, atol=1e-9):
            raise Violation('law', f'{name}: measurement law differs from the stated one')
        comp = [-.5, .5], .05
        u = sum(.5 * special.ndtr((X0[:, 0] - c) / math.sqrt(comp[1])) for c in comp[0])
        stats.uniform(u, f'{name}: initial states')
    else:
        ys = np.concatenate([c[2] for c in calls]).astype(float)
        x = np.concatenate([X0[:, None, :], xs], axis=1)
        a, y = x[:, :-1], x[:, 1:]
        # log coordinates: d log x = (c + C x_other - s^2/2) dt + s dW, to second order
        s = .1
        C, c = np.array([-4., 4.]), np.array([4., -4.])
        r = lambda v: c + C * v[..., ::-1]
        f = a * r(a)
        m = np.log(a) + (r(a) - s ** 2 / 2) * dt + C * f[..., ::-1] * dt ** 2 / 2
        z = (np.log(y) - m) / (s * math.sqrt(dt))
        check_noise(z, 5e-3, name)
        sd = math.sqrt(.001)
        for j in range(2):
            stats.uniform(sum(.5 * special.ndtr((X0[:, j] - 1) / (sd * q)) for q in (1., math.sqrt(2.))), 'prey: initial states')
        p = 1 / (1 + np.exp(-xs[:, :, 0] ** 3 + 1))
        res, sg = stats.binary(ys, p, 'prey: measurements')
        rs = res.reshape(p.shape)
        stats.uncorrelated(rs[:, 1:], rs[:, :-1], 'successive measurement errors')
        for j in range(2):
            stats.uncorrelated(rs, z[:, :, j], 'measurement error and state noise')
            stats.uncorrelated(rs[:, 1:], z[:, :-1, j], 'measurement error and previous state noise')
        hi = p > np.median(p)
        stats.binary(ys[hi], p[hi], 'prey: measurements at high emission')
        stats.binary(ys[~hi], p[~hi], 'prey: measurements at low emission')
        for yy in (0, 1):
            q = 1 / (1 + math.exp(-.9 ** 3 + 1))
            got = float(pmf(yy, jnp.array([.9, 1.2])))
            if abs(got - (q if yy else 1 - q)) > 1e-9:
                raise Violation('law', 'prey: measurement law differs from the stated one')
    log.probe('transitions', xs.size)


def check_noise(z, slack, name):
    n, T, d = z.shape
    zz = z.reshape(-1, d)
    stats.normal(zz, f'{name}: transition noise', slack=slack)
    stats.distinct(zz[:, 0], f'{name}: transition noise')
    for i in range(min(n, 4)):
        stats.white(z[i], f'{name}: transition noise', slack=slack)
        for j in range(i):
            stats.uncorrelated(z[i, :, 0], z[j, :, 0], f'{name}: noises of two keys', slack=slack)


def execute(t, log, cache):
    if not t['calls']:
        return
    {'sde': run_sde, 'chain': run_chain, 'mixture': run_mixture, 'model': run_model}[t['bucket']['kind']](t, log, cache)
