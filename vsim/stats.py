"""Statistical decisions with a bounded false-alarm probability (ALPHA per decision)."""
import math

import numpy as np
from scipy import special

from vsim.core import Violation

Z = 6.5  # two-sided normal quantile for about 8e-11
ALPHA = 1e-10


def uniform(u, what, cls='law'):
    """u must be i.i.d. U(0,1): DKW band for the distribution, serial correlation of neighbours and repeated values."""
    u = np.asarray(u, float).ravel()
    n = len(u)
    if not np.all(np.isfinite(u)):
        raise Violation(cls, f'{what}: non-finite values')
    s = np.sort(u)
    d = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
    lim = math.sqrt(math.log(2 / ALPHA) / (2 * n))
    if d > lim:
        raise Violation(cls, f'{what}: distribution off by {d:.4g} (limit {lim:.4g}, {n} draws)')


def normal(z, what, cls='law', slack=0.):
    """z (n, d) must be i.i.d. N(0, I)."""
    z = np.asarray(z, float)
    z = z.reshape(len(z), -1)
    n, d = z.shape
    if not np.all(np.isfinite(z)):
        raise Violation(cls, f'{what}: non-finite values')
    for j in range(d):
        m, v = z[:, j].mean(), np.mean(z[:, j] ** 2)
        if abs(m) > Z / math.sqrt(n) + slack:
            raise Violation(cls, f'{what}: component {j} has mean {m:.4g} over {n} draws, expected 0')
        lo, hi = chi2_band(n)
        if not lo - 2 * slack <= v <= hi + 2 * slack:
            raise Violation(cls, f'{what}: component {j} has variance {v:.4g} over {n} draws, expected 1')
        uniform(special.ndtr(z[:, j] / math.sqrt(1 + slack)) if slack else special.ndtr(z[:, j]), f'{what}, component {j}', cls) \
            if not slack else None
        for l in range(j):
            uncorrelated(z[:, j], z[:, l], f'{what}: components {l} and {j}', cls, slack)


def chi2_band(n):
    """Band of the mean square of n standard normals (Laurent-Massart)."""
    x = math.log(2 / ALPHA)
    return 1 - 2 * math.sqrt(x / n), 1 + 2 * math.sqrt(x / n) + 2 * x / n


def uncorrelated(a, b, what, cls='dependence', slack=0.):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    n = len(a)
    if n < 60:
        return
    ab = a * b
    c = np.sum(ab) / math.sqrt(max(1e-300, np.sum(ab * ab)))  # self-normalised: sub-Gaussian also for unequal variances
    lim = 1.1 * Z + slack * math.sqrt(n)
    if abs(c) > lim:
        r = np.sum(ab) / math.sqrt(np.sum(a * a) * np.sum(b * b))
        raise Violation(cls, f'{what} are correlated: {r:.4g} ({c:.3g} sigma, limit {lim:.3g}, {n} draws)')


def white(z, what, cls='dependence', lags=(1, 2, 5), slack=0.):
    z = np.asarray(z, float)
    z = z.reshape(len(z), -1)
    for l in lags:
        if len(z) > 60 + l:
            for i in range(z.shape[1]):
                for j in range(z.shape[1]):
                    uncorrelated(z[l:, i], z[:-l, j], f'{what}: draws {l} apart', cls, slack)


def distinct(z, what, cls='dependence'):
    z = np.asarray(z, float).ravel()
    if len(np.unique(z)) < len(z):
        raise Violation(cls, f'{what}: {len(z) - len(np.unique(z))} of {len(z)} draws repeat')


def binary(y, p, what, cls='law'):
    """y ~ independent Bernoulli(p)."""
    y, p = np.asarray(y, float).ravel(), np.asarray(p, float).ravel()
    if not np.all((y == 0) | (y == 1)):
        raise Violation(cls, f'{what}: not binary')
    s = np.sqrt(np.maximum(p * (1 - p), 1e-300))
    # Bernstein bound on the sum of bounded centred variables
    v, x = np.sum(p * (1 - p)), math.log(2 / ALPHA)
    lim = math.sqrt(2 * v * x) + 2 * x / 3
    d = abs(np.sum(y - p))
    if d > lim:
        raise Violation(cls, f'{what}: {np.sum(y):.0f} of {len(y)} are one, expected {np.sum(p):.1f} +- {lim:.1f}')
    return y - p, s
