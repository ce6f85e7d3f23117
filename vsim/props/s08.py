"""S08: posterior information matrices refine the information recursion, in one pass or resumed after crashes."""
import numpy as np

from vsim.core import Skip, Violation, sut
from vsim.stream import Service, gen_stream

RULE = ('one run = one seeded model and bundle of trajectories fed in schedule-decided batches with crashes and checkpoint '
        'faults, and once uninterrupted; non-trivial = a fault fired and the recursion stayed well conditioned; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['mfs.utils.posterior_cramer_rao'], stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; recursions whose smallest eigenvalue of J + D11 falls below 1e-4 are skipped and counted']
SHRINK_LISTS = ['ops', 'msgs']
LENS = [1, 3]


def buckets(rng, tier):
    out = []
    for i in range(96 if tier == 'quick' else 320):
        out.append((dict(dx=1 + i % 3, dy=rng.randint(1, 3), N=rng.choice([1, 2, 7, 30]), linear=(i // 3) % 3 == 0, T=rng.choice([4, 7, 10]), cost=1),
                    40 if tier == 'quick' else 150))
    return out


def gen(rng, b):
    t = gen_stream(rng, b['T'], LENS)
    t.update(par=rng.getrandbits(32), plant=rng.getrandbits(32))
    return t


def model(b, seed):
    g = np.random.default_rng(seed)
    dx, dy = b['dx'], b['dy']
    pd = lambda n, s: (lambda M: s * (M @ M.T / n + np.eye(n)))(g.standard_normal((n, n)))
    lin = b['linear']
    return dict(A=.4 * g.standard_normal((dx, dx)) + .4 * np.eye(dx), al=0. if lin else g.uniform(.1, .5), Qi=np.linalg.inv(pd(dx, g.uniform(.2, 1.))),
                H=g.standard_normal((dy, dx)), be=0. if lin else g.uniform(.1, .5), Ri=np.linalg.inv(pd(dy, g.uniform(.3, 1.))), J0=pd(dx, g.uniform(.5, 3.)),
                ep=0. if lin else g.uniform(0, .3))


class Adapter:
    def __init__(self, t, log, cache):
        import jax
        import jax.numpy as jnp
        from mfs.utils import posterior_cramer_rao
        b = t['bucket']
        self.b, self.t, self.log = b, t, log
        if 'f' not in cache:
            def f(a, xs, ys, j0):
                def lt(xt, xs_):
                    r = xt + a['ep'] * jnp.sin(xt) - a['A'] @ xs_ - a['al'] * jnp.sin(xs_)
                    return -.5 * r @ a['Qi'] @ r

                def ll(y, x):
                    u = a['H'] @ x
                    r = y - u - a['be'] * jnp.sin(u)
                    return -.5 * r @ a['Ri'] @ r
                return posterior_cramer_rao(xs, ys, j0, lt, ll)
            cache['f'] = jax.jit(f)
        self.f = cache['f']
        self.a = model(b, t['par'])
        g = np.random.default_rng(t['plant'])
        N, dx, dy, a = b['N'], b['dx'], b['dy'], self.a
        self.x0 = g.standard_normal((N, dx))
        Lq, Lr = np.linalg.cholesky(np.linalg.inv(a['Qi'])), np.linalg.cholesky(np.linalg.inv(a['Ri']))
        x, self.data = self.x0, []
        for _ in range(40):
            x = np.clip(x @ a['A'].T + a['al'] * np.sin(x) + g.standard_normal((N, dx)) @ Lq.T, -4, 4)
            u = x @ a['H'].T
            self.data.append((x, u + a['be'] * np.sin(u) + g.standard_normal((N, dy)) @ Lr.T))
        self.hist, self.refs = [], []

    def measurement(self, i, c, mag, last):
        x, y = self.data[i % len(self.data)]
        if c == 'none':
            return x, y
        if c == 'stuck':
            return (x, y) if last is None else (x, last[1])
        return x, dict(outlier=lambda v: v + 3 * mag, gain=lambda v: v * (1 + mag), sign=lambda v: -v)[c](y)

    def init(self):
        return self.a['J0'], self.x0

    def process(self, s, ms):
        import jax.numpy as jnp
        xs = np.stack([s[1]] + [m[0] for m in ms])
        ys = np.stack([m[1] for m in ms])
        o = np.asarray(sut(self.f, {k: jnp.asarray(v) for k, v in self.a.items()}, jnp.asarray(xs), jnp.asarray(ys), jnp.asarray(s[0]),
                           what='posterior_cramer_rao'))
        if o.shape != (len(ms), self.b['dx'], self.b['dx']):
            raise Violation('shape', f'posterior_cramer_rao returned shape {o.shape}')
        return (o[-1], xs[-1]), o

    def step(self, J, xs, xt, y):
        a, N = self.a, len(xs)
        D11 = D12 = D22 = 0.
        for i in range(N):
            r = xt[i] + a['ep'] * np.sin(xt[i]) - a['A'] @ xs[i] - a['al'] * np.sin(xs[i])
            q = a['Qi'] @ r
            Js = a['A'] + np.diag(a['al'] * np.cos(xs[i]))
            Jt = np.eye(len(r)) + np.diag(a['ep'] * np.cos(xt[i]))
            D11 = D11 + (Js.T @ a['Qi'] @ Js + np.diag(a['al'] * np.sin(xs[i]) * q)) / N
            D12 = D12 - Js.T @ a['Qi'] @ Jt / N
            D22 = D22 + (Jt.T @ a['Qi'] @ Jt - np.diag(a['ep'] * np.sin(xt[i]) * q)) / N
            u = a['H'] @ xt[i]
            rr = a['Ri'] @ (y[i] - u - a['be'] * np.sin(u))
            Jh = np.diag(1 + a['be'] * np.cos(u)) @ a['H']
            D22 = D22 + (Jh.T @ a['Ri'] @ Jh + a['H'].T @ np.diag(a['be'] * np.sin(u) * rr) @ a['H']) / N
        M = J + D11
        s = np.linalg.svd(M, compute_uv=False)
        if s[-1] < 1e-4 * max(1., s[0]):
            raise Skip('information matrix close to singular')
        return D22 - D12.T @ np.linalg.solve(M, D12)

    def observe(self, k0, ms, o):
        self.hist[k0:k0 + len(ms)] = ms
        while len(self.refs) < k0 + len(ms):
            k = len(self.refs)
            xs = self.hist[k - 1][0] if k else self.x0
            J = self.refs[-1] if k else self.a['J0']
            self.refs.append(self.step(J, xs, *self.hist[k]))
        for j in range(len(ms)):
            r, g = self.refs[k0 + j], o[j]
            sc = 1 + np.max(np.abs(r))
            e = np.max(np.abs(g - r))
            self.log.probe('compared')
            if not e <= 1e-7 * sc:
                raise Violation('information', f'information matrix at time {k0 + j} deviates by {e:.3g} of {sc:.3g}', got=g, ref=r)
            if np.max(np.abs(g - g.T)) > 1e-8 * sc:
                raise Violation('symmetry', f'information matrix at time {k0 + j} is not symmetric')
        self.log.ev('out', o)


def execute(t, log, cache):
    ad = Adapter(t, log, cache)
    hist = Service(t, log, LENS, ad).run()
    _, o = ad.process(ad.init(), hist)
    ad.observe(0, hist, o)
    if t['bucket']['linear']:
        a = ad.a
        P, Q, R = np.linalg.inv(a['J0']), np.linalg.inv(a['Qi']), np.linalg.inv(a['Ri'])
        for k in range(len(hist)):
            P = a['A'] @ P @ a['A'].T + Q
            P = P - P @ a['H'].T @ np.linalg.solve(a['H'] @ P @ a['H'].T + R, a['H'] @ P)
            e = np.max(np.abs(np.linalg.inv(P) - o[k])) / (1 + np.max(np.abs(o[k])))
            if not e < 1e-6:
                raise Violation('bound', f'linear model: information at time {k} is not the inverse Kalman covariance (off by {e:.3g})')
