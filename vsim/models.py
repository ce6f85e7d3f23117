"""Library functions as the pipeline programs see them: memoised model factories and stub estimators.

Stub estimators reveal the measurements they were given in what they return, so what a program stores tells which data it used.
"""
import numpy as np

from vsim import pipe

_MEMO = {}


def _key(a, k):
    f = lambda v: (np.asarray(v).shape, np.asarray(v).tobytes())
    return tuple(f(v) for v in a) + tuple((n, f(v)) for n, v in sorted(k.items()))


def factories(nan_mask=None):
    """{original: replacement}: the real factories, each evaluated once per argument (saves compilation).

    nan_mask: inject divergence of the prey-predator simulator for keys with key[0] & nan_mask == 0."""
    from mfs.one_dim import ss_models as m1
    from mfs.multi_dims import ss_models as m2
    out = {}
    for fn in (m1.benes_bernoulli, m1.well_poisson, m2.prey_predator):
        def wrap(*a, fn=fn, **k):
            key = (fn.__name__, id(fn)) + _key(a, k)
            if key not in _MEMO:
                _MEMO[key] = fn(*a, **k)
            r = _MEMO[key]
            if fn.__name__ == 'prey_predator' and nan_mask:
                r = r[:-1] + (diverging(r[-1], nan_mask),)
            return r
        out[fn] = wrap
    return out


def diverging(simulate, mask):
    import jax.numpy as jnp

    def f(key, *a, **k):
        x0, xs, ys = simulate(key, *a, **k)
        bad = (key[0] & np.uint32(mask)) == 0
        return x0, jnp.where(bad, jnp.nan, xs), ys
    return f


def weights(T, j):
    return np.cos((1 + j) * np.arange(1, T + 1) * .37) / np.sqrt(T)


def stub_nell(ys):
    import jax.numpy as jnp
    y = jnp.ravel(ys) * 1.
    return jnp.dot(y, jnp.asarray(weights(y.shape[0], 2)))


def stubs(cap=None):
    """cap: particle filters return at most that many particles"""
    import jax.numpy as jnp
    from mfs.one_dim import filtering as f1
    from mfs.multi_dims import filtering as f2
    from mfs.classical_filters_smoothers import brute_force as bf, gfs, smc
    from mfs import utils
    A = pipe.kw

    def mom(first, y, second=1.):
        """(T, Z) moments with unit zeroth, y at order one, one at order two"""
        T, Z = y.shape[0], jnp.shape(first)[0]
        m = jnp.zeros((T, Z)).at[:, 0].set(1.)
        if Z > 1:
            m = m.at[:, 1].set(y)
        if Z > 2:
            m = m.at[:, 2].set(second)
        return m

    def rms(*a, **k):
        b = A(R1, a, k)
        y = jnp.ravel(b['ys']) * 1.
        return mom(b['rms0'], y, 1. + y ** 2), stub_nell(y)

    def cms(*a, **k):
        b = A(C1, a, k)
        y = jnp.ravel(b['ys']) * 1.
        return mom(b['cms0'], 0. * y), y, stub_nell(y)

    def scms(*a, **k):
        b = A(S1, a, k)
        y = jnp.ravel(b['ys']) * 1.
        return mom(b['scms0'], 0. * y), y, jnp.ones_like(y), stub_nell(y)

    def nrms(*a, **k):
        b = A(R2, a, k)
        y = jnp.ravel(b['ys']) * 1.
        m = jnp.ones((y.shape[0], jnp.shape(b['rms0'])[0]))
        return m.at[:, 1].set(y).at[:, 2].set(y), stub_nell(y)

    def ncms(*a, **k):
        b = A(C2, a, k)
        y = jnp.ravel(b['ys']) * 1.
        d = jnp.shape(b['mean0'])[0]
        return jnp.ones((y.shape[0], jnp.shape(b['cms0'])[0])), jnp.tile(y[:, None], (1, d)), stub_nell(y)

    def gauss(orig):
        def f(*a, **k):
            b = A(orig, a, k)
            y = jnp.ravel(b['ys']) * 1.
            d = jnp.shape(b['m0'])[0]
            return (jnp.tile(y[:, None], (1, d)), jnp.tile(jnp.eye(d), (y.shape[0], 1, 1)),
                    jnp.full(y.shape, stub_nell(y)))
        return f

    def samples(b):
        y = jnp.ravel(b['ys']) * 1.
        n = b['nsamples'] if cap is None else min(cap, b['nsamples'])
        s = jnp.where(jnp.arange(n) % 2 == 0, 1., -1.)
        x0 = b['init_sampler'](b['key'], n)
        x = y[:, None] + s[None, :]
        x = x.reshape(x.shape + (1,) * (x0.ndim - 1))
        return jnp.broadcast_to(x, (y.shape[0],) + x0.shape), stub_nell(y)

    def boot(*a, **k):
        return samples(A(B, a, k))

    def part(*a, **k):
        return samples(A(P, a, k))[0]

    def grid(*a, **k):
        b = A(G, a, k)
        y = jnp.ravel(b['ys']) * 1.
        return jnp.tile(1. + y[:, None], (1, jnp.shape(b['xs'])[0]))

    def pcr(*a, **k):
        b = A(U, a, k)
        xs, ys = b['trajs'] if 'trajs' in b else list(b.values())[0], list(b.values())[1]
        e = jnp.mean(jnp.abs(xs[1:] - ys[:, :, None]), axis=1)
        return jnp.stack([jnp.diag(1. + v) for v in e[:50]])

    R1, C1, S1 = f1.moment_filter_rms, f1.moment_filter_cms, f1.moment_filter_scms
    R2, C2 = f2.moment_filter_nd_rms, f2.moment_filter_nd_cms
    B, P, G, U = smc.bootstrap_filter, smc.particle_filter, bf.brute_force_filter, utils.posterior_cramer_rao
    return {R1: rms, C1: cms, S1: scms, R2: nrms, C2: ncms, gfs.sgp_filter: gauss(gfs.sgp_filter), gfs.ekf: gauss(gfs.ekf),
            B: boot, P: part, G: grid, U: pcr}


class Solver:
    """Stand-in for jaxopt.ScipyMinimize: records the objective and its data, returns parameters that encode the data."""

    def __init__(self, sink, method=None, jit=True, fun=None, **kw):
        self.sink, self.fun, self.kw = sink, fun, kw

    def run(self, init_params, *args, **kwargs):
        from types import SimpleNamespace
        import jax.numpy as jnp
        return self.sink(self.fun, init_params, args, kwargs, lambda p, ok: (jnp.asarray(p), SimpleNamespace(success=ok, fun_val=0., iter_num=1, status=0)))
