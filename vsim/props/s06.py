"""S06: the grid filter refines the stated prediction / update recursion under faulty histories, batching, crash and restart."""
import math

import numpy as np

from vsim.core import Skip, Violation, sut
from vsim.stream import Service, gen_stream

RULE = ('one run = one seeded model, grid and faulty measurement history filtered in schedule-decided batches with crashes and '
        'checkpoint faults, and once uninterrupted; non-trivial = a fault fired and the history stayed in the domain; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['mfs.classical_filters_smoothers.brute_force', 'tme'], stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; histories on which a 1e-12 perturbation of the initial density moves the reference by more than 1e-7 '
               '(unstable finite differences, underflowing likelihood) are skipped and counted']
SHRINK_LISTS = ['ops', 'msgs']
LENS = [1, 3]
METHODS = ['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'chapman-tme-3', 'kolmogorov']


def buckets(rng, tier):
    out = []
    for i in range(40 if tier == 'quick' else 400):
        m = METHODS[i % 5]
        out.append((dict(method=m, steps=1 + (i // 5) % 4, n=rng.choice([21, 40, 61, 90]), uneven=m != 'kolmogorov' and rng.chance(.3),
                         meas=rng.choice(['normal', 'bernoulli', 'pair']), flat=rng.chance(.3), T=rng.choice([4, 7, 10]), cost=2 + m.count('3')),
                    20 if tier == 'quick' else 60))
    return out


def gen(rng, b):
    t = gen_stream(rng, b['T'], LENS)
    dt = rng.choice([.02, .1, .3]) if b['method'] != 'kolmogorov' else rng.choice([.01, .03])
    t.update(model=dict(a=rng.uniform(-1., -.2), b=rng.uniform(-1., 1.), c=rng.uniform(-.3, .3), s=rng.uniform(.5, 1.),
                        e=0. if b['flat'] else rng.uniform(.1, .4), r=rng.uniform(.4, 1.5), k=rng.uniform(.5, 2.)), dt=dt,
             plant=rng.getrandbits(32), m0=rng.uniform(-.5, .5), w=rng.uniform(3.5, 5.))
    return t


def funcs(xp, a, meas):
    drift = lambda x: a['a'] * x + a['b'] * xp.sin(x) + a['c']
    disp = lambda x: a['s'] * (1 + a['e'] * xp.cos(x))
    npdf = lambda v, s: xp.exp(-.5 * (v / s) ** 2) / (s * math.sqrt(2 * math.pi))
    lg = lambda x: 1 / (1 + xp.exp(-a['k'] * x))
    if meas == 'normal':
        pdf = lambda y, x: npdf(y - x, a['r'])
    elif meas == 'pair':
        pdf = lambda y, x: npdf(y[0] - x, a['r']) * npdf(y[1] - a['k'] * x, 2 * a['r'])
    else:
        pdf = lambda y, x: xp.where(y > 0, lg(x), 1 - lg(x))
    return drift, disp, pdf


def tme_ref(a, xs, h, order):
    """Taylor moment expansion written out with the generator A phi = f phi' + s^2 phi'' / 2."""
    import jax
    import jax.numpy as jnp
    f, s, _ = funcs(jnp, a, 'normal')

    def A(phi):
        d1 = jax.grad(phi)
        d2 = jax.grad(d1)
        return lambda x: f(x) * d1(x) + .5 * s(x) ** 2 * d2(x)

    ident, sq = [lambda x: x], [lambda x: x * x]
    for _ in range(order):
        ident.append(A(ident[-1]))
        sq.append(A(sq[-1]))

    def mv(x):
        p = [g(x) for g in ident]
        q = [g(x) for g in sq]
        m = sum(h ** r / math.factorial(r) * p[r] for r in range(order + 1))
        v = sum(h ** r / math.factorial(r) * (q[r] - sum(math.comb(r, i) * p[i] * p[r - i] for i in range(r + 1))) for r in range(1, order + 1))
        return m, v
    m, v = jax.vmap(mv)(jnp.asarray(xs))
    return np.asarray(m), np.sqrt(np.asarray(v))


def trapz(v, xs):
    return np.sum((v[..., 1:] + v[..., :-1]) * np.diff(xs), -1) / 2


class Ref:
    def __init__(self, t, xs, cache):
        b = t['bucket']
        self.a, self.xs, self.steps = t['model'], xs, b['steps']
        drift, disp, self.pdf = funcs(np, self.a, b['meas'])
        h = t['dt'] / b['steps']
        n = len(xs)
        if b['method'] == 'kolmogorov':
            dx = xs[1] - xs[0]
            D = np.zeros((n, n))
            for i in range(1, n - 1):
                D[i, i - 1], D[i, i + 1] = -.5 / dx, .5 / dx
            D[0, 0], D[0, 1], D[-1, -2], D[-1, -1] = -1 / dx, 1 / dx, -1 / dx, 1 / dx
            a = self.a
            s, s1, s2 = disp(xs), -a['s'] * a['e'] * np.sin(xs), -a['s'] * a['e'] * np.cos(xs)
            g, g1, g2 = s ** 2, 2 * s * s1, 2 * (s1 ** 2 + s * s2)
            f1 = a['a'] + a['b'] * np.cos(xs)
            L = -np.diag(f1) - np.diag(drift(xs)) @ D + .5 * (np.diag(g2) + 2 * np.diag(g1) @ D + np.diag(g) @ D @ D)
            self.K = np.eye(n) + h * L
        else:
            if b['method'] == 'chapman-euler':
                m, sc = xs + drift(xs) * h, disp(xs) * math.sqrt(h)
            else:
                m, sc = tme_ref(self.a, xs, h, int(b['method'][-1]))
            if not np.all(np.isfinite(sc)) or np.min(sc) < 1e-4:
                raise Skip('conditional variance of the expansion is not positive on the grid')
            wts = np.zeros(n)
            wts[1:] += np.diff(xs) / 2
            wts[:-1] += np.diff(xs) / 2
            z = (xs[:, None] - m[None]) / sc[None]
            self.K = np.exp(-.5 * z ** 2) / (sc[None] * math.sqrt(2 * math.pi)) * wts[None]

    def step(self, p, y):
        for _ in range(self.steps):
            p = self.K @ p
        p = self.pdf(y, self.xs) * p
        return p / trapz(p, self.xs)


class Adapter:
    def __init__(self, t, log, cache):
        import jax
        import jax.numpy as jnp
        from mfs.classical_filters_smoothers.brute_force import brute_force_filter
        b = t['bucket']
        self.b, self.t, self.log = b, t, log
        if 'f' not in cache:
            def f(a, ps, xs, ys, dt):
                return brute_force_filter(*funcs(jnp, a, b['meas']), ps, xs, ys, dt, integration_steps=b['steps'], pred_method=b['method'])
            cache['f'] = jax.jit(f)
        self.f = cache['f']
        xs = np.linspace(-t['w'], t['w'], b['n'])
        if b['uneven']:
            xs = xs + .3 * (xs[1] - xs[0]) * np.sin(7 * xs)
        self.xs = xs
        self.ref = Ref(t, xs, cache)
        p = np.exp(-.5 * (xs - t['m0']) ** 2)
        self.p0 = p / trapz(p, xs)
        g = np.random.default_rng(t['plant'])
        drift, disp, _ = funcs(np, t['model'], b['meas'])
        x, self.ys = t['m0'], []
        for _ in range(40):
            for _ in range(10):
                x = np.clip(x + drift(x) * t['dt'] / 10 + disp(x) * math.sqrt(t['dt'] / 10) * g.standard_normal(), -3, 3)
            r, k = t['model']['r'], t['model']['k']
            if b['meas'] == 'normal':
                self.ys.append(x + r * g.standard_normal())
            elif b['meas'] == 'pair':
                self.ys.append([x + r * g.standard_normal(), k * x + 2 * r * g.standard_normal()])
            else:
                self.ys.append(float(g.random() < 1 / (1 + math.exp(-k * x))))
        self.refs, self.pert, self.hist = [], [], []

    def measurement(self, i, c, mag, last):
        y = self.ys[i % len(self.ys)]
        if c == 'none':
            return y
        if c == 'stuck':
            return y if last is None else last
        if self.b['meas'] == 'bernoulli':
            return 1. - y
        f = dict(outlier=lambda v: v + 3 * mag, gain=lambda v: v * (1 + mag), sign=lambda v: -v)[c]
        return [f(v) for v in y] if isinstance(y, list) else f(y)

    def init(self):
        return self.p0

    def process(self, s, ys):
        import jax.numpy as jnp
        o = np.asarray(sut(self.f, self.t['model'], jnp.asarray(s), jnp.asarray(self.xs), jnp.asarray(ys), self.t['dt'], what='brute_force_filter'))
        if o.shape != (len(ys), len(self.xs)):
            raise Violation('shape', f'grid filter returned shape {o.shape} for {len(ys)} measurements on {len(self.xs)} points')
        return o[-1], o

    def observe(self, k0, ys, o):
        self.hist[k0:k0 + len(ys)] = ys
        while len(self.refs) < k0 + len(ys):
            k = len(self.refs)
            p, q = (self.refs[-1], self.pert[-1]) if k else (self.p0, self.p0 * (1 + 1e-12 * np.cos(3 * np.arange(len(self.p0)))))
            y = self.hist[k]
            with np.errstate(all='ignore'):
                p, q = self.ref.step(p, np.asarray(y)), self.ref.step(q, np.asarray(y))
            sc = np.max(np.abs(p))
            if not np.all(np.isfinite(p)) or not sc < 1e3 or not np.max(np.abs(p - q)) < 1e-8 * sc:
                raise Skip('reference density left the domain')
            if self.b['method'] == 'kolmogorov' and (np.min(p) < -.2 * sc or trapz(np.abs(p), self.xs) > 3):
                raise Skip('finite differences are unstable')
            self.refs.append(p)
            self.pert.append(q)
        for j in range(len(ys)):
            r, g = self.refs[k0 + j], o[j]
            sc = np.max(np.abs(r))
            env = np.max(np.abs(r - self.pert[k0 + j]))
            e = np.max(np.abs(g - r))
            self.log.probe('compared')
            if not abs(trapz(g, self.xs) - 1) < 1e-9:
                raise Violation('normalisation', f'density at measurement {k0 + j} integrates to {trapz(g, self.xs):.10g}')
            if self.b['method'] != 'kolmogorov' and np.min(g) < -1e-12 * sc:
                raise Violation('negative', f'density at measurement {k0 + j} is negative')
            if not e <= 1e-8 * sc + 1e3 * env:
                raise Violation('density', f"{self.b['method']}: density at measurement {k0 + j} deviates by {e:.3g} of {sc:.3g}")
        self.log.ev('out', o)


def execute(t, log, cache):
    ad = Adapter(t, log, cache)
    hist = Service(t, log, LENS, ad).run()
    _, o = ad.process(ad.init(), hist)
    ad.observe(0, hist, o)
