"""R01: resampling schemes under every outcome of the random source, including its extreme values."""
import math

import numpy as np

from vsim.core import Skip, Violation, sut

RULE = ('one run = one weight vector and a sequence of resampling calls whose uniform draws are decided by the schedule (real '
        'keys, extreme draws, draws on cell boundaries); non-trivial = at least one adversarial draw or degenerate weight vector; '
        'distinct by event-log hash')
COMPONENTS = dict(real=['mfs.classical_filters_smoothers.resampling'], stub=['jax.random.uniform outcomes (seeded adversary) in part of the calls'])
ASSUMPTIONS = ['uniform draws lie in [0, 1) and not all of the draws of one call are zero',
               'statistical checks use 8-sigma Bernstein-type bounds']
SHRINK_LISTS = ['calls']
METHODS = ['systematic', 'stratified', 'multinomial', 'continuous']


def buckets(rng, tier):
    out = []
    k = 2 if tier == 'quick' else 12
    for _ in range(k):
        for m in METHODS:
            for x64 in (True, False):
                out.append((dict(method=m, x64=x64, kind='calls', cost=1), 120 if tier == 'quick' else 600))
            out.append((dict(method=m, x64=True, kind='stats', cost=3), 8 if tier == 'quick' else 40))
    return out


def gen(rng, b):
    n = rng.choice([1, 2, 3, 5, 8, 17, 64, 256, 1000] if b['kind'] == 'calls' else [2, 3, 6, 12])
    if not b['x64'] and rng.chance(.2):
        n = 3000
    w = rng.choice(['uniform', 'random', 'random', 'onehot', 'zeros_first', 'zeros_last', 'sparse', 'geometric', 'tiny', 'exact'])
    calls = []
    for _ in range(8):
        calls.append([rng.choice(['real', 'real', 'zero', 'max', 'mixed', 'boundary']), rng.getrandbits(31)])
    return dict(n=n, w=w, ws=rng.getrandbits(32), calls=calls if b['kind'] == 'calls' else [['stats', rng.getrandbits(31)]])


def weights(t, dtype):
    g = np.random.default_rng(t['ws'])
    n, k = t['n'], t['w']
    w = g.random(n) + 1e-3
    if k == 'uniform':
        w = np.ones(n)
    elif k == 'onehot':
        w = np.zeros(n)
        w[g.integers(n)] = 1.
    elif k == 'zeros_first':
        w[:g.integers(n)] = 0.
    elif k == 'zeros_last':
        w[n - g.integers(n):] = 0. if n > 1 else w[n - 1:]
    elif k == 'sparse':
        w = w * (g.random(n) < .3)
    elif k == 'geometric':
        w = g.permutation(.5 ** np.arange(n).clip(0, 60))
    elif k == 'tiny':
        w = w * 10. ** -g.integers(0, 30, n)
    elif k == 'exact':
        w = g.integers(0, 3, n).astype(float)
    if w.sum() == 0:
        w[g.integers(n)] = 1.
    w = w.astype(dtype)
    return (w / w.sum(dtype=dtype)).astype(dtype)


class Seam:
    """Replaces jax.random.uniform for the duration of one call; unknown uses fall through to the real generator."""

    def __init__(self, mode, seed, n, log):
        self.mode, self.g, self.n, self.log = mode, np.random.default_rng(seed), n, log

    def __enter__(self):
        import jax
        self.jax, self.real = jax, jax.random.uniform
        if self.mode != 'real':
            jax.random.uniform = self.fake
        return self

    def __exit__(self, *a):
        self.jax.random.uniform = self.real

    def fake(self, key, shape=(), dtype=float, minval=0., maxval=1.):
        import jax.numpy as jnp
        if not (isinstance(minval, float) and minval == 0. and maxval == 1.):
            return self.real(key, shape, dtype, minval, maxval)
        u = np.asarray(self.real(key, shape, dtype))
        top = np.nextafter(u.dtype.type(1), u.dtype.type(0))
        if self.mode == 'zero':
            v = np.zeros_like(u)
        elif self.mode == 'max':
            v = np.full_like(u, top)
        elif self.mode == 'mixed':
            pick = self.g.random(u.shape)
            v = np.where(pick < .3, 0, np.where(pick < .6, top, u)).astype(u.dtype)
        else:
            # values on a coarse dyadic grid, so that cell boundaries are hit exactly
            v = (np.floor(u * 4) / 4).astype(u.dtype)
        if v.ndim and v.size > 1 and not np.any(v > 0):
            v.ravel()[-1] = top if self.mode == 'max' else u.ravel()[-1]
        self.log.fault('random.' + self.mode)
        return jnp.asarray(v)


def check_indices(method, w, idx, n):
    eps = np.finfo(w.dtype).eps
    if idx.shape != (n,) or not np.issubdtype(idx.dtype, np.integer):
        raise Violation('shape', f'{method} returned {idx.dtype} of shape {idx.shape} for {n} particles')
    if idx.min() < 0 or idx.max() >= n:
        raise Violation('range', f'{method} returned an index outside 0..{n - 1}')
    if method != 'multinomial' and np.any(np.diff(idx) < 0):
        raise Violation('order', f'{method} indices are not sorted')
    dead = np.unique(idx[w[idx] == 0])
    if dead.size:
        raise Violation('zero-weight', f'{method} selected particle {int(dead[0])} of {n}, whose weight is zero')
    c = np.bincount(idx, minlength=n)
    nw = n * w.astype(float)
    d = 4 * n * n * eps + 1e-9
    if method == 'systematic':
        bad = (c < np.floor(nw - d)) | (c > np.ceil(nw + d))
    elif method == 'stratified':
        bad = np.abs(c - nw) > 2 + d
    else:
        return
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('offspring', f'{method}: particle {i} with n*w = {nw[i]:.6g} got {c[i]} offspring')


def check_continuous(x, w, out, n):
    if out.shape != (n,):
        raise Violation('shape', f'continuous resampling returned shape {out.shape} for {n}')
    if not np.all(np.isfinite(out)):
        raise Violation('range', 'continuous resampling returned a non-finite value')
    o = np.argsort(x, kind='stable')
    xs, ws = x[o].astype(float), w[o].astype(float)
    cs = np.cumsum(ws) - ws / 2
    span = max(1e-30, xs[-1] - xs[0])
    eps = np.finfo(w.dtype).eps
    tol = 1e-6 * span + 100 * eps * np.max(np.abs(xs))
    if out.min() < xs[0] - tol or out.max() > xs[-1] + tol:
        raise Violation('range', 'continuous resampling left the range of the samples')
    if np.any(np.diff(out) < -tol):
        raise Violation('order', 'continuous resampling output is not sorted')
    dz = 8 * n * eps + 1e-12

    def left(z):  # infimum of the quantile set
        i = np.searchsorted(cs, z, 'left')
        return interp(z, i)

    def right(z):
        i = np.searchsorted(cs, z, 'right')
        return interp(z, i)

    def interp(z, i):
        if i == 0:
            return xs[0]
        if i == len(cs):
            return xs[-1]
        if cs[i] - cs[i - 1] <= 0:
            return xs[i]
        return xs[i - 1] + (xs[i] - xs[i - 1]) * (z - cs[i - 1]) / (cs[i] - cs[i - 1])

    for i in range(n):
        lo, hi = left(i / n - dz), right((i + 1) / n + dz)
        if not lo - tol <= out[i] <= hi + tol:
            raise Violation('law', f'continuous resampling: output {i} of {n} is {out[i]:.8g}, outside its quantile interval [{lo:.8g}, {hi:.8g}]')


def execute(t, log, cache):
    import contextlib

    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling as rs
    b = t['bucket']
    m, n = b['method'], t['n']
    fn = getattr(rs, 'continuous_resampling' if m == 'continuous' else m)
    ctx = contextlib.nullcontext() if b['x64'] else jax.experimental.disable_x64()
    with ctx:
        dtype = np.float64 if b['x64'] else np.float32
        w = weights(t, dtype)
        if t['w'] not in ('uniform', 'random'):
            log.fault('weights.' + t['w'])
        log.ev('weights', w)
        jw = jnp.asarray(w)
        for mode, seed in t['calls']:
            key = jax.random.PRNGKey(seed)
            if mode == 'stats':
                return stats(m, fn, w, key, log, cache) if m != 'continuous' else stats_continuous(fn, w, key, seed, log)
            with Seam(mode, seed, n, log):
                if m == 'continuous':
                    g = np.random.default_rng(seed)
                    x = g.standard_normal(n).astype(dtype)
                    if g.random() < .3:
                        x = np.round(x)
                    out = np.asarray(sut(fn, jnp.asarray(x), jw, n, key, what='continuous_resampling'))
                    check_continuous(x, w, out, n)
                else:
                    out = np.asarray(sut(fn, jw, key, what=m))
                    check_indices(m, w, out, n)
            log.ev('call', mode, out)
            log.probe('calls')


def stats(m, fn, w, key, log, cache):
    import jax
    import jax.numpy as jnp
    n, K = len(w), 20000
    keys = jax.random.split(key, K)
    idx = np.asarray(sut(jax.vmap(fn, in_axes=[None, 0]), jnp.asarray(w), keys, what=m))
    c = (idx[:, :, None] == np.arange(n)).sum(1).astype(float)
    nw = n * w
    var = nw * (1 - w) if m == 'multinomial' else np.minimum(nw, .5)
    dev = np.abs(c.mean(0) - nw)
    lim = 8 * np.sqrt(var / K) + 40. / K
    log.fault('random.many_keys')
    log.ev('stats', c.mean(0))
    log.probe('draws', K * n)
    if np.any(dev > lim):
        i = int(np.argmax(dev - lim))
        raise Violation('bias', f'{m}: particle {i} has on average {c.mean(0)[i]:.5g} offspring over {K} keys, expected {nw[i]:.5g}')
    if m == 'stratified':  # independent across the strata
        hi = np.cumsum(w)
        lo = np.concatenate([[0.], hi[:-1]])
        e = np.arange(n + 1) / n
        p = n * np.maximum(0., np.minimum(hi[:, None], e[1:]) - np.maximum(lo[:, None], e[:-1]))
        var = np.sum(p * (1 - p), 1)
    if m in ('multinomial', 'stratified'):
        v = c.var(0)
        lim = .25 * var + .01
        if np.any(np.abs(v - var) > lim):
            i = int(np.argmax(np.abs(v - var) - lim))
            raise Violation('law', f'{m}: offspring variance of particle {i} is {v[i]:.5g}, draws as independent as the scheme makes them give {var[i]:.5g}')


def stats_continuous(fn, w, key, seed, log):
    """One independent uniform draw per stratum, recovered through the piecewise-linear distribution function."""
    import jax
    import jax.numpy as jnp
    from vsim import stats as st
    n, K = len(w), 4000
    x = np.random.default_rng(seed).standard_normal(n)
    out = np.asarray(sut(jax.vmap(lambda k: fn(jnp.asarray(x), jnp.asarray(w), n, k)), jax.random.split(key, K), what='continuous_resampling'))
    o = np.argsort(x)
    xs, ws = x[o], w[o]
    cs = np.cumsum(ws) - ws / 2
    log.fault('random.many_keys')
    log.ev('stats', out[:2])
    us = {}
    for i in range(n):
        if cs[0] + 1e-9 < i / n and (i + 1) / n < cs[-1] - 1e-9:
            j = np.searchsorted(cs, [i / n, (i + 1) / n])
            if np.min(np.diff(cs[max(0, j[0] - 1):j[1] + 1])) > 1e-6:  # invertible there
                us[i] = n * np.interp(out[:, i], xs, cs) - i
    log.probe('strata', len(us))
    for i, u in us.items():
        st.uniform(u, f'continuous resampling: draw within stratum {i}')
        for j in us:
            if j < i:
                st.uncorrelated(u - .5, us[j] - .5, f'continuous resampling: draws within strata {j} and {i}')
