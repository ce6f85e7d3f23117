"""S05: stable (LDL) mode resumed from moments whose precision was degraded on the way through the checkpoint."""
import math

import numpy as np

from vsim.core import Rng, Skip, Violation, sut
from vsim.props import s01, s02

RULE = ('one run = one seeded filter history in stable mode during which checkpointed moments are degraded (shorter floats, decimal '
        'rounding, relative noise, mantissa bit flips, generations torn together) before the filter resumes from them; non-trivial = a degradation fired; distinct by event-log hash')
COMPONENTS = dict(real=['mfs.utils.ldl, ldl_chol', 'mfs.one_dim.quadtures', 'mfs.multi_dims.quadratures', 'mfs.one_dim.filtering', 'mfs.multi_dims.filtering'],
                  stub=['plant, sensor, checkpoint disk with lossy encodings, crash/restart (simulated)'])
ASSUMPTIONS = ['float64 arithmetic; degraded moment matrices with a pivot below 1e-15 of the matrix norm in absolute value (neither '
               'clearly definite nor clearly indefinite) are outside the domain and counted',
               'finiteness of the next posterior is claimed for moment matrices up to 3 x 3 with pivots above 1e-5 of the norm; for larger ones completion may overflow; in the scaled representation, only where the nodes stay below 1e3 (a single surviving node has no scale)']
SHRINK_LISTS = ['ops']
KINDS = ['f32', 'f16', 'round', 'noise', 'noise', 'bitflip', 'torn', 'torn']
PIVOT = 1e-15
CLEAR = 1e-5


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(32 if q else 320):
        if i % 4 != 3:
            tr = rng.choice(['euler', 'linear'])
            b = dict(N=2 + (i // 4) % 4, trans=tr, order=2, lik=rng.choice(['bernoulli', 'student', 'bernoulli']), T=6, stable=True, init='api', dim=1,
                     cost=2)
        else:
            b = dict(d=2, N=2 + (i // 8) % 2, trans='linear', lik='bernoulli', T=6, stable=True, disp='const', order=1, dim=2, cost=4, modes=['raw', 'central', 'scaled'])
        out.append((b, 40 if q else 120))
    return out


def gen(rng, b):
    seed = rng.getrandbits(64)
    g = Rng(seed)
    for _ in range(200):
        t = (s01 if b['dim'] == 1 else s02).gen(g, b)
        if b['dim'] > 1 or t['unit'] == 1. and t['disp'][0] > 0.:
            break
    t['mode'] = rng.choice(['raw', 'central', 'scaled'])
    if b['dim'] > 1 and rng.chance(.35):  # an inaccurate transition covariance: the predicted moments are those of no distribution
        t['Q'][0][1] = t['Q'][1][0] = rng.choice([-1, 1]) * rng.uniform(1.3, 3.) * math.sqrt(t['Q'][0][0] * t['Q'][1][1])
        t['badQ'] = True
    if 'offset' in t:
        t['offset'] = 0.
    n = rng.randint(1, 5)
    ops = []
    for _ in range(n):
        if rng.chance(.3):
            ops.append(['poll'])
        k = rng.choice(KINDS + (['edge'] * 4 if b['dim'] == 1 else []))
        ops.append(['degrade', k, dict(round=rng.choice([1, 2, 3]), noise=rng.choice([1e-12, 1e-3, 1e-2, .1, .3]), edge=10. ** -rng.randint(3, 13)).get(k, 0), rng.getrandbits(31)])
        ops.append(['poll'])
    t['ops'] = ops
    t.pop('msgs', None)
    return t


def degrade(ms, old, kind, arg, seed):
    g = np.random.default_rng(seed)
    ms = np.array(ms, float)
    if kind == 'f32':
        return ms.astype(np.float32).astype(float)
    if kind == 'f16':
        return np.clip(ms, -6e4, 6e4).astype(np.float16).astype(float)
    if kind == 'round':
        return np.round(ms, arg)
    out = ms.copy()
    if kind == 'noise':
        out[1:] *= 1 + arg * g.standard_normal(len(ms) - 1)
    elif kind == 'bitflip':
        i = g.integers(1, len(ms))
        v = ms[i:i + 1].copy().view(np.uint64)
        v ^= np.uint64(1) << np.uint64(g.integers(20, 51))
        out[i] = v.view(float)[0]
    elif kind == 'torn':
        i = g.integers(2, len(ms))
        out[i:] = old[i:]  # the tail of the previous generation
    elif kind == 'edge' and len(ms) % 2 == 0:
        # put the last pivot just above or just below zero
        n = len(ms) // 2
        idx = np.arange(n)[:, None] + np.arange(n)[None, :]
        G = ms[idx]
        out[2 * n - 2] += -pivots(G)[-1] + arg * np.linalg.norm(G) * (-1 if g.random() < .8 else 1)
    return out


def pivots(G):
    """Pivots of the LDL factorisation without pivoting."""
    G = np.array(G, float)
    n, p = len(G), []
    for j in range(n):
        p.append(G[j, j])
        if abs(G[j, j]) < 1e-300:
            return np.array(p)
        c = G[j + 1:, j] / G[j, j]
        G[j + 1:, j + 1:] -= np.outer(c, G[j, j + 1:])
    return np.array(p)


def determined(b, t, s, w, x, idx, valid=False, out=None):
    """Whether the moments predicted from this quadrature have pivots well above rounding, whatever the rounding."""
    m = s['mode']
    with np.errstate(all='ignore'):
        if b['dim'] == 1:
            _, cond_mv, _, _ = s01.setup(b, t)
            cm, cv = cond_mv(x)
            mean = 0. if m == 'raw' else np.dot(cm, w)
            scale = 1. if m != 'scaled' else math.sqrt(max(1e-300, np.dot(w, cv + (cm - mean) ** 2)))
            ms = w @ s01.R.gaussian_cond_moments(cond_mv)(x, 2 * b['N'], mean, scale)
        else:
            cond, cond_mv, _ = s02.reference_model(b, t)
            cm, cv = cond_mv(x)
            mean = np.zeros(b['d']) if m == 'raw' else w @ cm
            scale = np.ones(b['d']) if m != 'scaled' else np.sqrt(np.maximum(1e-300, w @ (cv + (cm - mean) ** 2)))
            c = cond(x, mean, scale, 2 * b['N'] - 1)
            ms = np.array([w @ c[tuple(n)] for n in MI[0]])
        if not np.all(np.isfinite(ms)) or np.max(np.abs(ms)) > 1e100:
            return False
        G = ms[idx]
        p = pivots(G)
        if out is not None:
            out.update(ms=ms, mean=mean, scale=scale)
        return len(p) == len(G) and bool(np.all(np.isfinite(p))) and bool(np.all((p if valid else np.abs(p)) > 1e-6 * np.diag(G)))


MI = [None]


def execute(t, log, cache):
    import jax.numpy as jnp
    b = t['bucket']
    mod = s01 if b['dim'] == 1 else s02
    ad = mod.Adapter(b, t, log, cache)
    if 'default' not in cache:
        cache['default'] = {}
        mod.build(dict(b, stable=False), cache['default'])
    dflt = cache['default']['f']
    if b['dim'] == 1:
        from mfs.one_dim.quadtures import moment_quadrature
        N = b['N']
        idx = np.arange(N)[:, None] + np.arange(N)[None, :]
        quad = lambda s: moment_quadrature(jnp.asarray(s['ms']), s['mean'] if s['mode'] != 'raw' else 0., s['scale'] if s['mode'] == 'scaled' else 1., ldl=True)
    else:
        from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
        from mfs.multi_dims.quadratures import moment_quadrature_nd
        inds = np.asarray(gram_and_hankel_indices_graded_lexico(b['N'], b['d']))
        idx = inds[0]
        quad = lambda s: moment_quadrature_nd(jnp.asarray(s['ms']), inds, jnp.asarray(s['mean']) if s['mode'] != 'raw' else None,
                                              jnp.asarray(s['scale']) if s['mode'] == 'scaled' else None, ldl=True)
    MI[0] = cache.get('mi')
    s = ad.init()
    old = s['ms']
    k = 0
    for op in t['ops']:
        if op[0] == 'degrade':
            s = dict(s, ms=degrade(s['ms'], old, *op[1:]))
            log.fault('disk.' + op[1], k)
            continue
        G = s['ms'][idx]
        nrm = np.linalg.norm(G)
        p = pivots(G)
        if len(p) < len(G) or not np.all(np.isfinite(p)) or np.min(np.abs(p)) < PIVOT * nrm:
            raise Skip('pivot close to zero')
        definite = bool(np.min(p) > 0)
        log.probe('definite' if definite else 'indefinite')
        w, x = [np.asarray(v) for v in sut(quad, s, what='stable quadrature')]
        if not (np.all(np.isfinite(w)) and np.all(np.isfinite(x))):
            raise Violation('quadrature', f'stable quadrature of degraded {s["mode"]} moments is not finite (step {k})', ms=s['ms'], pivots=p)
        if b['dim'] == 1 and np.min(w) < -1e-12:
            raise Violation('quadrature', f'stable quadrature has a negative weight {np.min(w):.3g} (step {k})')
        if not abs(np.sum(w) - 1) < 1e-6 * (1 + np.sum(np.abs(w))):
            raise Violation('quadrature', f'stable quadrature weights sum to {np.sum(w):.10g} (step {k})')
        y = ad.measurement(k, 'none', 1., None)
        new, o = ad.process(s, [y])
        log.ev('step', new['ms'])
        if not all(np.all(np.isfinite(np.asarray(v))) for v in (new['ms'], new['mean'], new['scale'], new['nell'])):
            if len(G) > 3 or s['mode'] == 'scaled' and np.max(np.abs(x)) > 1e3 or np.min(np.abs(p)) < CLEAR * nrm or not determined(b, t, s, w, x, idx):
                raise Skip('prediction from completed moments is degenerate')
            pm = {}
            if t.get('badQ'):
                # no posterior need exist (negative likelihoods or variances of the completed quadrature); its mean is still formed
                if not determined(b, t, s, w, x, idx, out=pm) or np.min(np.abs(pivots(pm['ms'][idx]))) < 1e-3 * np.linalg.norm(pm['ms'][idx]):
                    raise Skip('prediction from completed moments is degenerate')
                if np.all(np.isfinite(new['mean' if s['mode'] != 'raw' else 'ms'])):
                    raise Skip('no posterior under the inaccurate transition')
                log.probe('invalid_prediction')
            raise Violation('posterior', f'{s["mode"]} filter in stable mode: the posterior after degraded moments is not finite (step {k})',
                            ms=s['ms'], pivots=p, nodes=x, weights=w)
        if s['mode'] != 'scaled' and abs(new['ms'][0] - 1) > 1e-6 and len(G) <= 3 and np.min(np.abs(p)) > CLEAR * nrm:
            raise Violation('posterior', f'{s["mode"]} filter in stable mode: the zeroth moment of the posterior is {new["ms"][0]:.8g} (step {k})')
        if definite and len(G) <= 3 and np.min(p) > 1e-3 * nrm and determined(b, t, s, w, x, idx, valid=True):
            arg = {kk: jnp.asarray(s[kk]) for kk in ('ms', 'mean', 'scale')}
            o2 = {kk: np.asarray(v) for kk, v in sut(dflt[s['mode']], ad.args, arg, jnp.asarray([y]), what='default filter').items()}
            sc = 1 + np.max(np.abs(x)) + np.abs(o2['ms'][-1])
            e = np.max(np.abs(o2['ms'][-1] - o['ms'][-1]) / sc)
            log.probe('same_as_default')
            if not e < 1e-5:
                raise Violation('agreement', f'{s["mode"]} filter: stable and default mode differ by {e:.3g} on valid moments (step {k})')
        if definite and np.max(np.abs(new['ms'])) < 1e4:
            old, s = s['ms'], new
        else:  # what follows from completed moments says nothing; fail over to a clean node
            s = ad.init()
            old = s['ms']
        k += 1
