"""Gaussian filters and smoothers: model family, numpy references, service adapter."""
import itertools
import math

import numpy as np

from vsim.core import Skip, Violation, sut

KINDS = ['kf', 'ekf', 'cd_ekf', 'sgp', 'cd_sgp']


def gen_model(rng, dx, dy, kind):
    g = rng.np()
    A = -np.diag(g.uniform(.1, 1., dx)) + .4 * g.standard_normal((dx, dx)) / math.sqrt(dx)
    nl = rng.choice([0., .3, .8])
    B = nl * g.standard_normal((dx, dx)) / math.sqrt(dx)
    C = g.standard_normal((dx, dx)) / math.sqrt(dx)
    L = .6 * g.standard_normal((dx, dx)) / math.sqrt(dx) + .4 * np.eye(dx)
    H = g.standard_normal((dy, dx))
    G = rng.choice([0., .5]) * g.standard_normal((dy, dx)) / math.sqrt(dx)
    K = g.standard_normal((dx, dx)) / math.sqrt(dx)
    R = g.standard_normal((dy, dy)) / math.sqrt(dy)
    R = .3 * R @ R.T + g.uniform(.2, .8) * np.eye(dy)
    F = .8 * np.eye(dx) + .25 * g.standard_normal((dx, dx)) / math.sqrt(dx)
    Q = g.standard_normal((dx, dx)) / math.sqrt(dx)
    Q = .3 * Q @ Q.T + .15 * np.eye(dx)
    V = g.standard_normal((dx, dx)) / math.sqrt(dx)
    V = .5 * V @ V.T + .3 * np.eye(dx)
    # units of the state and of the measurement: the same problem must come out the same
    u, w = rng.choice([1., 1., 1., .001, .03, 20., 500.]), rng.choice([1., 1., 1., .001, .02, 30., 1000.])
    ls = lambda M, f=1.: (M * f).tolist()
    return dict(A=ls(A), B=ls(B, u), C=ls(C, 1 / u), L=ls(L, u), H=ls(H, w / u), G=ls(G, w), K=ls(K, 1 / u), R=ls(R, w * w),
                F=ls(F), Q=ls(Q, u * u), V=ls(V, u * u), m0=ls(g.uniform(-1, 1, dx), u), u=u, w=w,
                eL=rng.choice([0., .3]), eR=rng.choice([0., .4]), dt=rng.choice([.01, .05, .1, .2]))


class NP:
    """The same model in plain numpy with analytic Jacobians."""

    def __init__(self, a):
        self.__dict__.update({k: np.array(v) if isinstance(v, list) else v for k, v in a.items()})

    def drift(self, x):
        return self.A @ x + self.B @ np.tanh(self.C @ x)

    def jdrift(self, x):
        return self.A + self.B @ np.diag(1 - np.tanh(self.C @ x) ** 2) @ self.C

    def disp(self, x):
        return self.L * (1 + self.eL * np.tanh(x[0] / self.u))

    def trans(self, x):
        b = self.disp(x)
        return x + self.drift(x) * self.dt, b @ b.T * self.dt + 1e-3 * self.u ** 2 * np.eye(len(x))

    def jtrans(self, x):
        return np.eye(len(x)) + self.jdrift(x) * self.dt

    def meas(self, x):
        return self.H @ x + self.G @ np.tanh(self.K @ x), self.R * (1 + self.eR * np.tanh(x[0] / self.u) ** 2)

    def jmeas(self, x):
        return self.H + self.G @ np.diag(1 - np.tanh(self.K @ x) ** 2) @ self.K


def jmodel(a):
    import jax.numpy as jnp
    drift = lambda x: a['A'] @ x + a['B'] @ jnp.tanh(a['C'] @ x)
    disp = lambda x: a['L'] * (1 + a['eL'] * jnp.tanh(x[0] / a['u']))

    def trans(x, dt):
        b = disp(x)
        return x + drift(x) * dt, b @ b.T * dt + 1e-3 * a['u'] ** 2 * jnp.eye(x.shape[0])

    meas = lambda x: (a['H'] @ x + a['G'] @ jnp.tanh(a['K'] @ x), a['R'] * (1 + a['eR'] * jnp.tanh(x[0] / a['u']) ** 2))
    return drift, disp, trans, meas


def sigma(b, d):
    """Unit sigma points and weights by an independent construction."""
    if b['sgp'] == 'cubature':
        e = np.eye(d) * math.sqrt(d)
        return np.concatenate([e, -e]), np.ones(2 * d) / (2 * d)
    x, w = np.polynomial.hermite_e.hermegauss(b['gh'])
    w = w / w.sum()
    return np.array(list(itertools.product(x, repeat=d))), np.array([np.prod(c) for c in itertools.product(w, repeat=d)])


def rk4(f, m, v, dt):
    k1 = f(m, v)
    k2 = f(m + dt * k1[0] / 2, v + dt * k1[1] / 2)
    k3 = f(m + dt * k2[0] / 2, v + dt * k2[1] / 2)
    k4 = f(m + dt * k3[0], v + dt * k3[1])
    return [u + dt / 6 * (a + 2 * b + 2 * c + d) for u, a, b, c, d in zip((m, v), k1, k2, k3, k4)]


def chol(v):
    return np.linalg.cholesky((v + v.T) / 2)


def ok(v):
    if not np.all(np.isfinite(v)) or np.min(np.linalg.eigvalsh((v + v.T) / 2)) < 1e-7 or np.max(np.abs(v)) > 1e4:
        raise Skip('covariance left the domain')


class Ref:
    def __init__(self, b, a):
        self.b, self.k, self.M = b, b['kind'], NP(a)
        self.d = b['dx']
        if self.k in ('sgp', 'cd_sgp'):
            self.xi, self.w = sigma(b, self.d)

    # -- prediction / update
    def cd_ekf_ode(self, m, v):
        J, D = self.M.jdrift(m), self.M.disp(m)
        return self.M.drift(m), J @ v + v @ J.T + D @ D.T

    def cd_sgp_ode(self, m, v):
        X = m + self.xi @ chol(v).T
        f = np.array([self.M.drift(x) for x in X])
        c = ((X - m) * self.w[:, None]).T @ f
        return self.w @ f, c + c.T + self.M.L @ self.M.L.T

    def predict(self, m, v):
        """mean, cov, cross-covariance cov(x_k-1, x_k)"""
        M = self.M
        if self.k == 'kf':
            return M.F @ m, M.F @ v @ M.F.T + M.Q, v @ M.F.T
        if self.k == 'ekf':
            J = M.jtrans(m)
            mp, Q = M.trans(m)
            return mp, J @ v @ J.T + Q, v @ J.T
        if self.k == 'cd_ekf':
            return *rk4(self.cd_ekf_ode, m, v, M.dt), None
        if self.k == 'cd_sgp':
            return *rk4(self.cd_sgp_ode, m, v, M.dt), None
        X = m + self.xi @ chol(v).T
        f, Q = zip(*[M.trans(x) for x in X])
        f = np.array(f)
        mp = self.w @ f
        c = f - mp
        return mp, (c * self.w[:, None]).T @ c + np.tensordot(self.w, np.array(Q), 1), \
            ((X - m) * self.w[:, None]).T @ c

    def update(self, m, v, y):
        M = self.M
        if self.k == 'kf':
            H, h, R = M.H, M.H @ m, M.R
        elif self.k in ('ekf', 'cd_ekf'):
            h, R = M.meas(m)
            H = M.jmeas(m)
        if self.k in ('sgp', 'cd_sgp'):
            X = m + self.xi @ chol(v).T
            g, R = zip(*[M.meas(x) for x in X])
            g, R = np.array(g), np.array(R)
            h = self.w @ g
            c = g - h
            S = (c * self.w[:, None]).T @ c + np.tensordot(self.w, R, 1)
            P = ((X - m) * self.w[:, None]).T @ c
        else:
            S, P = H @ v @ H.T + R, v @ H.T
        K = np.linalg.solve(S, P.T).T
        r = y - h
        nell = .5 * (r @ np.linalg.solve(S, r) + np.linalg.slogdet(2 * math.pi * S)[1])
        return m + K @ r, v - K @ S @ K.T, nell

    def filter(self, ys):
        m, v, n = self.M.m0, self.M.V, 0.
        out = []
        for y in ys:
            out.append(self.step(m, v, y))
            m, v, dn = out[-1]
            n += dn
            out[-1] = (m, v, n)
        return out

    def step(self, m, v, y):
        M = self.M
        try:
            mp, vp, _ = self.predict(m, v)
            ok(vp / M.u ** 2)
            m, v, n = self.update(mp, vp, y)
            ok(v / M.u ** 2)
        except np.linalg.LinAlgError:
            raise Skip('covariance left the domain')
        if not np.all(np.isfinite(m)) or np.max(np.abs(m)) > 1e3 * M.u:
            raise Skip('mean left the domain')
        return m, v, n

    # -- smoothing: one backward step
    def back(self, mf, vf, ms, vs):
        M = self.M
        try:
            if self.k in ('kf', 'ekf', 'sgp'):
                mp, vp, C = self.predict(mf, vf)
                ok(vp / M.u ** 2)
                G = np.linalg.solve(vp, C.T).T
                m, v = mf + G @ (ms - mp), vf + G @ (vs - vp) @ G.T
            else:
                iv = np.linalg.inv(vf)
                if self.k == 'cd_ekf':
                    def f(m, v):
                        D = M.disp(m)
                        g = D @ D.T
                        U = M.jdrift(m) + g @ iv
                        return M.drift(m) + g @ iv @ (m - mf), U @ v + v @ U.T - g
                else:
                    g = M.L @ M.L.T

                    def f(m, v):
                        a, P = self.cd_sgp_ode(m, v)
                        return a + g @ iv @ (m - mf), P + g @ iv @ v + v @ iv @ g - 2 * g
                m, v = rk4(f, ms, vs, -M.dt)
            ok(v / M.u ** 2)
        except np.linalg.LinAlgError:
            raise Skip('covariance left the domain')
        return m, v

    def smooth(self, mfs, vfs):
        out = [(mfs[-1], vfs[-1])]
        for mf, vf in zip(mfs[-2::-1], vfs[-2::-1]):
            out.append(self.back(mf, vf, *out[-1]))
        return out[::-1]


def batch_linear(M, ys, smooth=False):
    """Exact posterior of the linear model by conditioning the joint Gaussian: independent of any recursion."""
    T, d, dy = len(ys), len(M.m0), M.H.shape[0]
    mean, cov = [], np.zeros(((T + 1) * d, (T + 1) * d))
    m, v = M.m0, M.V
    cov[:d, :d] = v
    for k in range(T):
        m = M.F @ m
        mean.append(m)
        i = slice((k + 1) * d, (k + 2) * d)
        p = slice(k * d, (k + 1) * d)
        cov[i, :(k + 1) * d] = M.F @ cov[p, :(k + 1) * d]
        cov[:(k + 1) * d, i] = cov[i, :(k + 1) * d].T
        cov[i, i] = M.F @ cov[p, p] @ M.F.T + M.Q
    cov = cov[d:, d:]
    mean = np.concatenate(mean)
    out = []
    for k in range(T):
        n = T if smooth else k + 1
        Hb = np.kron(np.eye(n), M.H)
        P = cov[:n * d, :n * d]
        S = Hb @ P @ Hb.T + np.kron(np.eye(n), M.R)
        r = np.concatenate([np.asarray(y) for y in ys[:n]]) - Hb @ mean[:n * d]
        i = slice(k * d, (k + 1) * d)
        W = cov[i, :n * d] @ Hb.T
        out.append((mean[i] + W @ np.linalg.solve(S, r), cov[i, i] - W @ np.linalg.solve(S, W.T),
                    .5 * (r @ np.linalg.solve(S, r) + np.linalg.slogdet(2 * math.pi * S)[1])))
    return out


def build(b, cache):
    if 'f' in cache:
        return cache['f']
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    k, fwd, const = b['kind'], b['fwd'], b['const']
    sg = None
    if 'sgp' in k:
        sg = SigmaPoints.cubature(b['dx']) if b['sgp'] == 'cubature' else SigmaPoints.gauss_hermite(b['dx'], b['gh'])

    def filt(a, m, v, ys):
        drift, disp, trans, meas = jmodel(a)
        if k == 'kf':
            return gfs.kf(a['F'], a['Q'], a['H'], a['R'], m, v, ys)
        if k == 'ekf':
            return gfs.ekf(trans, meas, m, v, a['dt'], ys, fwd)
        if k == 'cd_ekf':
            return gfs.cd_ekf(drift, disp, meas, m, v, a['dt'], ys, fwd)
        if k == 'sgp':
            return gfs.sgp_filter(trans, meas, sg, m, v, a['dt'], ys, const)
        return gfs.cd_sgp_filter(drift, a['L'], meas, sg, m, v, a['dt'], ys, const)

    def smooth(a, ms, vs):
        drift, disp, trans, meas = jmodel(a)
        if k == 'kf':
            return gfs.rts(a['F'], a['Q'], ms, vs)
        if k == 'ekf':
            return gfs.eks(trans, ms, vs, a['dt'])
        if k == 'cd_ekf':
            return gfs.cd_eks(drift, disp, ms, vs, a['dt'])
        if k == 'sgp':
            return gfs.sgp_smoother(trans, sg, ms, vs, a['dt'])
        return gfs.cd_sgp_smoother(drift, a['L'], sg, ms, vs, a['dt'])

    cache['f'] = jax.jit(filt)
    cache['s'] = jax.jit(smooth)
    return cache['f']


def gen_buckets(rng, tier, n, runs):
    out = []
    for i in range(n):
        k = KINDS[i % 5]
        dx, dy = rng.randint(1, 3), rng.randint(1, 3)
        gh = rng.randint(2, {1: 10, 2: 5, 3: 3}[dx])
        b = dict(kind=k, dx=dx, dy=dy, fwd=rng.chance(.5), const=rng.chance(.5), sgp=rng.choice(['cubature', 'gh', 'gh']),
                 gh=gh, T=rng.choice([5, 8, 11]), cost=1 + dx * ('sgp' in k) + ('cd' in k))
        out.append((b, runs))
    return out


def fix_model(b, a):
    """Options of the library calls restrict the model: a constant measurement covariance or dispersion."""
    a = dict(a)
    if b['const'] and 'sgp' in b['kind']:
        a['eR'] = 0.
    if b['kind'] == 'cd_sgp':
        a['eL'] = 0.
    return a


def plant(b, a, seed, n):
    g = np.random.default_rng(seed)
    M = NP(a)
    x = M.m0 + chol(M.V) @ g.standard_normal(b['dx'])
    ys = []
    for _ in range(n):
        m, Q = (M.F @ x, M.Q) if b['kind'] == 'kf' else M.trans(x)
        x = np.clip(m + chol(Q) @ g.standard_normal(len(x)), -5 * M.u, 5 * M.u)
        h, R = (M.H @ x, M.R) if b['kind'] == 'kf' else M.meas(x)
        ys.append((h + chol(R) @ g.standard_normal(len(h))).tolist())
    return ys


class Adapter:
    def __init__(self, b, t, log, cache):
        import jax.numpy as jnp
        self.b, self.t, self.log = b, t, log
        self.f = build(b, cache)
        self.cache = cache
        self.a = fix_model(b, t['model'])
        self.ja = {k: jnp.asarray(v) if isinstance(v, list) else v for k, v in self.a.items()}
        self.ref = Ref(b, self.a)
        self.ys = plant(b, self.a, t['plant'], 40)
        self.hist, self.refs = [], []

    def measurement(self, i, c, mag, last):
        y = self.ys[i % len(self.ys)]
        if c == 'none':
            return y
        if c == 'stuck':
            return y if last is None else last
        f = dict(outlier=lambda v: v + 10 * mag * self.a['w'], gain=lambda v: v * (1 + mag), sign=lambda v: -v)[c]
        return [f(v) for v in y]

    def init(self):
        return dict(m=np.array(self.a['m0']), v=np.array(self.a['V']), nell=0.)

    def process(self, s, ys):
        import jax.numpy as jnp
        m, v, n = sut(self.f, self.ja, jnp.asarray(s['m']), jnp.asarray(s['v']), jnp.asarray(ys), what=self.b['kind'] + ' filter')
        m, v, n = np.asarray(m), np.asarray(v), np.asarray(n)
        L, d = len(ys), self.b['dx']
        if m.shape != (L, d) or v.shape != (L, d, d) or n.shape != (L,):
            raise Violation('shape', f'filter returned shapes {m.shape} {v.shape} {n.shape} for {L} measurements')
        return dict(m=m[-1], v=v[-1], nell=s['nell'] + float(n[-1])), (m, v, n + s['nell'])

    def observe(self, k0, ys, o):
        self.hist[k0:k0 + len(ys)] = ys
        while len(self.refs) < k0 + len(ys):
            p = self.refs[-1] if self.refs else (self.ref.M.m0, self.ref.M.V, 0.)
            m, v, n = self.ref.step(p[0], p[1], np.array(self.hist[len(self.refs)]))
            self.refs.append((m, v, p[2] + n))
        for j in range(len(ys)):
            self.compare('filter', k0 + j, (o[0][j], o[1][j], o[2][j]), self.refs[k0 + j])
        self.log.ev('out', o[0], o[1], o[2])

    def compare(self, who, k, got, ref, ftol=1e-8):
        u = self.a['u']
        scale = lambda o: (np.asarray(o[0]) / u, np.asarray(o[1]) / u ** 2) + tuple(o[2:])
        got, ref = scale(got), scale(ref)
        tol = ftol * (1 + np.max(np.abs(ref[0])) ** 2 + np.max(np.abs(ref[1])))
        # small eigenvalues of the posterior amplify rounding in the gain
        tol /= min(1., max(np.min(np.linalg.eigvalsh(ref[1])), 1e-7) * 100)
        self.log.probe('compared')
        for what, g, r in zip(('mean', 'covariance', 'negative log-likelihood'), got, ref):
            e = np.max(np.abs(g - r))
            if what[0] == 'n':
                e = e / max(1., abs(r))
            if not e <= tol:
                raise Violation(who, f"{self.b['kind']} {who}: {what} at measurement {k} deviates by {e:.3g} "
                                     f'(tolerance {tol:.3g})', got=g, ref=r)
        v = np.asarray(got[1])
        if np.max(np.abs(v - v.T)) > 10 * tol or np.min(np.linalg.eigvalsh((v + v.T) / 2)) < -10 * tol:
            raise Violation(who, f'covariance at measurement {k} is not symmetric positive definite')
