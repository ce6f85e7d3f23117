"""Independent reference models for one-dimensional moment filtering (pure numpy, no repository code).

The moment filter of order N keeps the first 2N moments of the posterior.  After an update that posterior is an
N-point discrete measure, so the whole recursion can be carried by *nodes and weights* and needs one Gauss quadrature
of a Gaussian mixture per step.  That quadrature is computed by Lanczos on a Gauss--Hermite discretisation of the
mixture, which is numerically stable: `StableRef`.

`naive_env` runs the textbook moment recursion (Hankel matrix, Cholesky, eigenvalues) in float64 with last-digit noise;
the gap between it and `StableRef` is how much a *correct* float64 implementation may deviate on this very history.
"""
import math
import numpy as np


# ----------------------------------------------------------------- truncated Taylor series (jets)
def jet_mul(a, b, n):
    return np.convolve(a, b)[:n]


def jet_tanh(x, n):
    """Taylor coefficients of tanh around x, n coefficients. y' = 1 - y^2."""
    c = np.zeros(n)
    c[0] = math.tanh(x)
    for k in range(n - 1):
        s = np.dot(c[:k + 1], c[:k + 1][::-1])
        c[k + 1] = ((1. if k == 0 else 0.) - s) / (k + 1)
    return c


def jet_poly(coefs, x, n):
    """Taylor coefficients around x of sum_i coefs[i] u^i."""
    c = np.zeros(n)
    for i, a in enumerate(coefs):
        if a == 0.:
            continue
        for j in range(min(i, n - 1) + 1):
            c[j] += a * math.comb(i, j) * x ** (i - j)
    return c


class Model1D:
    """drift(x) = p0 + p1 x + p2 tanh(x) + p3 x^3;  dispersion(x) = s0 + s1 tanh(x)."""

    def __init__(self, p, s):
        self.p, self.s = [float(v) for v in p], [float(v) for v in s]

    def drift(self, x):
        p = self.p
        return p[0] + p[1] * x + p[2] * np.tanh(x) + p[3] * x ** 3

    def disp(self, x):
        return self.s[0] + self.s[1] * np.tanh(x)

    def drift_jet(self, x, n):
        p = self.p
        return jet_poly([p[0], p[1], 0., p[3]], x, n) + p[2] * jet_tanh(x, n)

    def gamma_jet(self, x, n):
        b = self.s[1] * jet_tanh(x, n)
        b[0] += self.s[0]
        return jet_mul(b, b, n)

    def generator(self, f, aj, gj):
        """A f = a f' + 0.5 b^2 f'' on jets; two coefficients are lost."""
        n = len(f) - 2
        k = np.arange(len(f))
        d1 = (f * k)[1:]
        d2 = (d1 * np.arange(len(d1)))[1:]
        return jet_mul(aj, d1[:n], n) + 0.5 * jet_mul(gj, d2[:n], n)

    def tme_iterates(self, f_jet, x, order):
        """[phi, A phi, ..., A^order phi](x); f_jet has >= 2*order+1 coefficients."""
        n = len(f_jet)
        aj, gj = self.drift_jet(x, n), self.gamma_jet(x, n)
        out, f = [f_jet[0]], f_jet
        for _ in range(order):
            f = self.generator(f, aj, gj)
            out.append(f[0])
        return np.array(out)

    def tme_moment(self, x, dt, order, n, mean=0., scale=1.):
        """TME approximation of E[((X - mean)/scale)^n | x]."""
        nj = 2 * order + 1
        # jet of ((u-mean)/scale)^n around x
        c = np.zeros(nj)
        z = (x - mean) / scale
        for j in range(min(n, nj - 1) + 1):
            c[j] = math.comb(n, j) * z ** (n - j) / scale ** j
        it = self.tme_iterates(c, x, order)
        return sum(it[r] * dt ** r / math.factorial(r) for r in range(order + 1))

    def tme_mean_var(self, x, dt, order):
        nj = 2 * order + 1
        j1 = np.zeros(nj)
        j1[0] = x
        if nj > 1:
            j1[1] = 1.
        j2 = jet_poly([0., 0., 1.], x, nj)
        a1 = self.tme_iterates(j1, x, order)
        a2 = self.tme_iterates(j2, x, order)
        m = sum(a1[r] * dt ** r / math.factorial(r) for r in range(order + 1))
        v = 0.
        for r in range(1, order + 1):
            phi = a2[r] - sum(math.comb(r, s) * a1[s] * a1[r - s] for s in range(r + 1))
            v += phi * dt ** r / math.factorial(r)
        return m, v

    def cond_mean_var(self, xs, dt, trans):
        """trans: ('euler',) | ('tme_normal', order) | ('linear', F, c, Sigma)"""
        if trans[0] == 'euler':
            return xs + self.drift(xs) * dt, self.disp(xs) ** 2 * dt
        if trans[0] == 'linear':
            return trans[1] * xs + trans[2], np.full_like(xs, trans[3])
        mv = [self.tme_mean_var(float(x), dt, trans[1]) for x in xs]
        return np.array([a for a, _ in mv]), np.array([b for _, b in mv])


# ----------------------------------------------------------------- quadrature
_GH = {}


def gh(n):
    if n not in _GH:
        x, w = np.polynomial.hermite_e.hermegauss(n)
        _GH[n] = (x, w / w.sum())
    return _GH[n]


def lanczos_gauss(x, w, n):
    """n-point Gauss rule of the discrete measure (x, w), w > 0, by Lanczos with full re-orthogonalisation."""
    w = np.asarray(w, float)
    tot = w.sum()
    c = np.dot(x, w) / tot
    s = math.sqrt(max(np.dot((x - c) ** 2, w) / tot, 1e-300))
    t = (x - c) / s
    q = np.sqrt(w / tot)
    Q = [q / np.linalg.norm(q)]
    a, b = [], []
    for k in range(n):
        v = t * Q[-1]
        al = np.dot(Q[-1], v)
        a.append(al)
        v = v - al * Q[-1] - (b[-1] * Q[-2] if b else 0.)
        for _ in range(2):
            for u in Q:
                v = v - np.dot(u, v) * u
        be = np.linalg.norm(v)
        if k < n - 1:
            b.append(be)
            Q.append(v / be)
    ev, U = np.linalg.eigh(np.diag(a) + np.diag(b, 1) + np.diag(b, -1))
    return tot * U[0] ** 2, c + s * ev


def mixture_gauss(ms, vs, ws, n):
    """n-point Gauss rule of sum_i ws_i N(ms_i, vs_i)."""
    h, hw = gh(n + 1)
    x = (ms[:, None] + np.sqrt(vs)[:, None] * h[None]).ravel()
    w = (ws[:, None] * hw[None]).ravel()
    return lanczos_gauss(x, w, n)


def discrete_stats(x, w, num):
    """rms, mean, cms, scale, scms and absolute-moment normalisers of a discrete measure of mass 1."""
    k = np.arange(num)
    rms = (w[:, None] * x[:, None] ** k).sum(0)
    mean = np.dot(w, x)
    c = x - mean
    cms = (w[:, None] * c[:, None] ** k).sum(0)
    scale = math.sqrt(max(cms[2], 0.)) if num > 2 else math.sqrt(np.dot(w, c * c))
    scms = cms / scale ** k
    ra = (np.abs(w)[:, None] * np.abs(x)[:, None] ** k).sum(0) + 1e-300
    ca = (np.abs(w)[:, None] * np.abs(c)[:, None] ** k).sum(0) + 1e-300
    return dict(rms=rms, mean=mean, cms=cms, scale=scale, scms=scms, ra=ra, ca=ca, sa=ca / scale ** k)


class StableRef:
    """Reference moment filter of order N for Gaussian transitions."""

    def __init__(self, N, cond_mv, lik, init_mixture):
        self.N, self.cond_mv, self.lik = N, cond_mv, lik
        ms, vs, ws = init_mixture
        self.w, self.x = mixture_gauss(ms, vs, ws, N)
        self.nell = 0.

    def step(self, y):
        cm, cv = self.cond_mv(self.x)
        if not np.all(cv >= 0):
            raise FloatingPointError('nonpositive conditional variance')
        w, x = mixture_gauss(cm, cv, self.w, self.N)
        l = self.lik(y, x)
        z = np.dot(l, w)
        if not (z > 1e-250) or not np.isfinite(z):
            raise FloatingPointError('likelihood underflow')
        self.w, self.x = l * w / z, x
        self.nell -= math.log(z)
        # a posterior that collapses on fewer than N nodes has a singular Hankel matrix: outside the filter's domain
        if np.min(self.w) < 1e-9:
            raise FloatingPointError('posterior collapsed')
        out = discrete_stats(self.x, self.w, 2 * self.N)
        out['nell'] = self.nell
        out['z'] = z
        return out


# ----------------------------------------------------------------- naive float64 recursion (error envelope)
def normal_raw_moments(m, v, num):
    """(..., num) raw moments by the recursion E x^n = m E x^{n-1} + (n-1) v E x^{n-2}."""
    m, v = np.broadcast_arrays(np.asarray(m, float), np.asarray(v, float))
    out = np.ones(m.shape + (num,))
    if num > 1:
        out[..., 1] = m
    for n in range(2, num):
        out[..., n] = m * out[..., n - 1] + (n - 1) * v * out[..., n - 2]
    return out


def hankel_quad(ms, noise=None):
    n = len(ms) // 2
    if noise is not None:
        ms = ms * (1. + 2e-16 * noise.standard_normal(ms.shape))
    i = np.arange(n)
    G, H = ms[i[:, None] + i[None]], ms[i[:, None] + i[None] + 1]
    R = np.linalg.cholesky(G)
    K = np.linalg.solve(R, np.linalg.solve(R, H).T).T
    K = 0.5 * (K + K.T)
    ev, U = np.linalg.eigh(K)
    return U[0] ** 2, ev


class NaiveFilter:
    """The documented moment recursion in float64, mode in raw/central/scaled.

    cond_moments(x, num, mean, scale) -> (len(x), num): conditional moments of ((X-mean)/scale)."""

    def __init__(self, mode, cond_moments, cond_mv, lik, ms0, mean0, scale0, noise=None):
        self.mode, self.cond_moments, self.cond_mv, self.lik = mode, cond_moments, cond_mv, lik
        self.ms = np.array(ms0, float)
        self.mean = 0. if mode == 'raw' else float(mean0)
        self.scale = float(scale0) if mode == 'scaled' else 1.
        self.nell, self.noise, self.num = 0., noise, len(ms0)

    def step(self, y):
        w, t = hankel_quad(self.ms, self.noise)
        x = self.scale * t + self.mean
        if self.mode != 'raw':
            cm, cv = self.cond_mv(x)
            self.mean = np.dot(cm, w)
            if self.mode == 'scaled':
                # the scale is only a choice of units, take the predictive standard deviation
                self.scale = math.sqrt(np.dot(w, cv + (cm - self.mean) ** 2))
        self.ms = w @ self.cond_moments(x, self.num, self.mean, self.scale)
        w, t = hankel_quad(self.ms, self.noise)
        x = self.scale * t + self.mean
        l = self.lik(y, x)
        z = np.dot(l, w)
        w = l * w / z
        self.nell -= math.log(z)
        st = discrete_stats(x, w, self.num)
        if self.mode == 'raw':
            self.ms = st['rms']
        elif self.mode == 'central':
            self.mean, self.ms = st['mean'], st['cms']
        else:
            self.mean, self.scale, self.ms = st['mean'], st['scale'], st['scms']
        st['nell'] = self.nell
        return st


def gaussian_cond_moments(cond_mv):
    def f(x, num, mean, scale):
        m, v = cond_mv(x)
        return normal_raw_moments((m - mean) / scale, v / scale ** 2, num)

    return f


def tme_cond_moments(model, dt, order):
    def f(x, num, mean, scale):
        return np.array([[model.tme_moment(float(u), dt, order, n, mean, scale) for n in range(num)] for u in x])

    return f


def mixture_moments(ms, vs, ws, num):
    """rms, mean, cms, scale, scms of a Gaussian mixture."""
    rms = ws @ normal_raw_moments(ms, vs, num)
    mean = float(ws @ ms)
    cms = ws @ normal_raw_moments(ms - mean, vs, num)
    scale = math.sqrt(float(ws @ (vs + (ms - mean) ** 2)))
    return dict(rms=rms, mean=mean, cms=cms, scale=scale, scms=cms / scale ** np.arange(num))
