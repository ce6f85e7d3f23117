"""Numpy references for the multidimensional moment filters (independent index bookkeeping: dicts keyed by exponent)."""
import itertools
import math

import numpy as np


def indices(d, deg):
    """All exponent tuples of total degree <= deg (any order: the comparison is by exponent)."""
    return [n for n in itertools.product(range(deg + 1), repeat=d) if sum(n) <= deg]


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def e(d, i):
    return tuple(int(j == i) for j in range(d))


def gauss_moments(m, S, deg):
    """{n: E x^n}, m (..., d), S (..., d, d), by Stein's recursion."""
    d = m.shape[-1]
    out = {(0,) * d: np.ones(m.shape[:-1])}
    for n in sorted(indices(d, deg), key=sum):
        if n in out:
            continue
        i = next(j for j in range(d) if n[j])
        p = tuple(n[j] - (j == i) for j in range(d))
        v = m[..., i] * out[p]
        for j in range(d):
            if p[j]:
                q = tuple(p[k] - (k == j) for k in range(d))
                v = v + S[..., i, j] * p[j] * out[q]
        out[n] = v
    return out


# ---------------------------------------------------------------- polynomials as {exponent: coefficient}
def padd(*ps):
    out = {}
    for p in ps:
        for k, v in p.items():
            out[k] = out.get(k, 0.) + v
    return out


def pmul(a, b):
    out = {}
    for k, v in a.items():
        for l, w in b.items():
            n = add(k, l)
            out[n] = out.get(n, 0.) + v * w
    return out


def pdiff(p, i):
    return {tuple(k[j] - (j == i) for j in range(len(k))): v * k[i] for k, v in p.items() if k[i]}


def psub(p, mean, scale):
    """p(mean + scale z) as polynomial in z."""
    d = len(mean)
    lin = [{(0,) * d: mean[i], e(d, i): scale[i]} for i in range(d)]
    out = {}
    for k, v in p.items():
        t = {(0,) * d: v}
        for i in range(d):
            for _ in range(k[i]):
                t = pmul(t, lin[i])
        out = padd(out, t)
    return out


def peval(p, X):
    out = np.zeros(X.shape[:-1])
    for k, v in p.items():
        out = out + v * np.prod(X ** np.array(k), -1)
    return out


class PolySDE:
    """drift: list of d polynomials; gamma: d x d polynomials (b b^T)."""

    def __init__(self, drift, gamma):
        self.a, self.g, self.d = drift, gamma, len(drift)

    def rescaled(self, mean, scale):
        d = self.d
        a = [{k: v / scale[i] for k, v in psub(self.a[i], mean, scale).items()} for i in range(d)]
        g = [[{k: v / scale[i] / scale[j] for k, v in psub(self.g[i][j], mean, scale).items()} for j in range(d)]
             for i in range(d)]
        return PolySDE(a, g)

    def gen(self, p):
        out = {}
        for i in range(self.d):
            di = pdiff(p, i)
            out = padd(out, pmul(self.a[i], di))
            for j in range(self.d):
                if self.g[i][j]:
                    out = padd(out, {k: .5 * v for k, v in pmul(self.g[i][j], pdiff(di, j)).items()})
        return out

    def powers(self, p, order):
        out = [p]
        for _ in range(order):
            out.append(self.gen(out[-1]))
        return out

    def expect(self, p, X, dt, order):
        return sum(dt ** r / math.factorial(r) * peval(q, X) for r, q in enumerate(self.powers(p, order)))

    def euler(self, X, dt):
        d = self.d
        S = np.stack([np.stack([peval(self.g[i][j], X) for j in range(d)], -1) for i in range(d)], -2)
        return X + dt * np.stack([peval(p, X) for p in self.a], -1), dt * S

    def mean_cov(self, X, dt, order):
        d = self.d
        one = [[peval(q, X) for q in self.powers({e(d, i): 1.}, order)] for i in range(d)]
        m = np.stack([sum(dt ** r / math.factorial(r) * one[i][r] for r in range(order + 1)) for i in range(d)], -1)
        # the covariance expansion is translation invariant: expand about each node to avoid cancellation
        S = np.zeros(X.shape[:-1] + (d, d))
        for idx in np.ndindex(X.shape[:-1]):
            x = X[idx]
            loc = self.rescaled(x, np.ones(d))
            z = np.zeros(d)
            o = [[peval(q, z) for q in loc.powers({e(d, i): 1.}, order)] for i in range(d)]
            for i in range(d):
                for j in range(i + 1):
                    t = [peval(q, z) for q in loc.powers({add(e(d, i), e(d, j)): 1.}, order)]
                    S[idx][i, j] = S[idx][j, i] = sum(
                        dt ** r / math.factorial(r) * (t[r] - sum(math.comb(r, k) * o[i][k] * o[j][r - k] for k in range(r + 1)))
                        for r in range(1, order + 1))
        return m, S


# ---------------------------------------------------------------- quadrature and filter
def quad(ms, N, d, noise=None):
    """Operator quadrature of the functional ms (dict), basis of degree < N; returns signed weights, nodes (r, d)."""
    basis = sorted(indices(d, N - 1), key=lambda n: (sum(n), n))
    if noise is not None:
        ms = {k: v * (1 + 3e-16 * noise.standard_normal()) for k, v in ms.items()}
    G = np.array([[ms[add(p, q)] for q in basis] for p in basis])
    R = np.linalg.cholesky(G)
    us, xs = [], []
    for i in range(d):
        H = np.array([[ms[add(add(p, q), e(d, i))] for q in basis] for p in basis])
        K = np.linalg.solve(R, np.linalg.solve(R, H).T)
        w, U = np.linalg.eigh((K + K.T) / 2)
        xs.append(w)
        us.append(U)
    n = len(basis)
    grid = np.array(list(itertools.product(range(n), repeat=d)))
    X = np.stack([xs[i][grid[:, i]] for i in range(d)], -1)
    W = us[0][0][grid[:, 0]] * us[-1][0][grid[:, -1]]
    for i in range(d - 1):
        W = W * (us[i].T @ us[i + 1])[grid[:, i], grid[:, i + 1]]
    return W, X, np.linalg.cond(G)


def measure_stats(X, W, deg):
    d = X.shape[-1]
    ix = indices(d, deg)
    mean = W @ X
    C = X - mean
    var = W @ C ** 2
    if not np.all(var > 0):
        raise FloatingPointError('negative variance')
    scale = np.sqrt(var)
    f = lambda Z: {n: float(W @ np.prod(Z ** np.array(n), -1)) for n in ix}
    g = lambda Z: {n: float(np.abs(W) @ np.prod(np.abs(Z) ** np.array(n), -1)) + 1e-300 for n in ix}
    return dict(mean=mean, scale=scale, rms=f(X), cms=f(C), scms=f(C / scale), ra=g(X), ca=g(C), sa=g(C / scale))


def mixture_moments(ms, vs, ws, deg):
    mean = ws @ ms
    C = ms - mean
    scale = np.sqrt(np.einsum('i,ijj->j', ws, vs) + ws @ C ** 2)
    mix = lambda m, S: {k: float(ws @ v) for k, v in gauss_moments(m, S, deg).items()}
    return dict(mean=mean, scale=scale, rms=mix(ms, vs), cms=mix(C, vs), scms=mix(C / scale, vs / np.outer(scale, scale)))


class Filter:
    """mode raw/central/scaled. cond(X, mean, scale, deg) -> {n: (r,)}; cond_mean_var(X) -> (r,d),(r,d)"""

    def __init__(self, mode, N, d, cond, cond_mv, lik, init, noise=None):
        self.mode, self.N, self.d, self.cond, self.cond_mv, self.lik, self.noise = mode, N, d, cond, cond_mv, lik, noise
        self.ms = dict(init[dict(raw='rms', central='cms', scaled='scms')[mode]])
        z, o = np.zeros(d), np.ones(d)
        self.mean = z if mode == 'raw' else init['mean']
        self.scale = init['scale'] if mode == 'scaled' else o
        self.nell = 0.
        self.cond_number = 0.

    def step(self, y):
        deg = 2 * self.N - 1
        W, X, c1 = quad(self.ms, self.N, self.d, self.noise)
        X = X * self.scale + self.mean
        if self.mode != 'raw':
            m, v = self.cond_mv(X)
            mean = W @ m
            if self.mode == 'scaled':
                s2 = W @ (v + (m - mean) ** 2)
                if not np.all(s2 > 0):
                    raise FloatingPointError('negative variance')
                self.scale = np.sqrt(s2)
            self.mean = mean
        self.ms = {n: float(W @ v) for n, v in self.cond(X, self.mean, self.scale, deg).items()}
        W, X, c2 = quad(self.ms, self.N, self.d, self.noise)
        self.cond_number = max(c1, c2)
        X = X * self.scale + self.mean
        l = self.lik(y, X)
        z = float(W @ l)
        if not z > 1e-8 * float(np.abs(W) @ l) or not np.isfinite(z) or z < 1e-200:
            raise FloatingPointError('likelihood')
        W = W * l / z
        self.nell -= math.log(z)
        st = measure_stats(X, W, deg)
        if self.mode == 'raw':
            self.ms = st['rms']
        elif self.mode == 'central':
            self.mean, self.ms = st['mean'], st['cms']
        else:
            self.mean, self.scale, self.ms = st['mean'], st['scale'], st['scms']
        st['nell'] = self.nell
        return st
