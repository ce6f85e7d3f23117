"""P06: what a job stores under a method's name is that method's output on the run's data."""
import math
import re

import numpy as np

from vsim import models, pipe
from vsim.core import Violation

RULE = ('one run = real jobs of one experiment with the real filters, in a seeded order, killed and repeated at I/O events, with left-over results '
        'and diverging simulations; stored arrays compared with the named method applied to the captured data; non-trivial = a fault '
        'fired; distinct by event-log hash')
COMPONENTS = dict(real=['job programs of dardel/benes_bernoulli, convergence, parameter_estimation, prey_predator', 'the filters and models of mfs'],
                  stub=['optimiser (probes the objective, returns a point)', 'disk and process faults'])
ASSUMPTIONS = ['the reference wires the library\'s own filters as the method\'s name says; defects inside the filters are the subject of S01..S08, R01..R03',
               'particle filters: stored statistics are compared with the captured particles, the model they use with captured probes']
SHRINK_LISTS = ['jobs', 'stale']
GROUPS = ['ghf', 'mf', 'brute', 'bpf', 'cmf', 'cpf', 'pgauss', 'pmf', 'ppf', 'prey_gauss', 'prey_mf', 'prey_pf', 'errs', 'prey_cr']


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    opts = dict(mf=[dict(mode=m, nrm=n) for m in ('raw', 'central', 'scaled') for n in (False, True)], cmf=[dict(mode=m) for m in ('raw', 'central')],
                pgauss=[dict(eu=e) for e in ([], ['--euler'])], pmf=[dict(eu=e) for e in ([], ['--euler'])],
                ppf=[dict(eu=e, cr=c) for e in ([], ['--euler']) for c in ([], ['--cr'])], prey_gauss=[dict(tr=x) for x in ('euler', 'tme_1', 'tme_2')],
                prey_mf=[dict(tr=x, mode=m) for x, m in (('euler', 'central'), ('tme_2', 'central'), ('tme_normal_2', 'central'), ('tme_normal_1', 'raw'), ('tme_1', 'raw'))],
                prey_pf=[dict(tr=x) for x in ('euler', 'tme_1', 'tme_2')], brute=[dict(meth=x) for x in ('chapman-tme-3', 'chapman-euler')])
    cost = dict(prey_cr=50, brute=25, bpf=20, prey_pf=15, ppf=10, errs=5)
    for i in range(1 if q else 4):
        for g in GROUPS:
            n = {'errs': 12, 'prey_cr': 1, 'ghf': 3, 'cpf': 2}.get(g, 1)
            for o in opts.get(g, [{}]):
                out.append((dict(group=g, i=i, cost=cost.get(g, 8), **o), n * (1 if q else 4)))
    return out


def gen(rng, b):
    g = b['group']
    if g == 'errs':
        from vsim.props import p02
        bb = dict(prog=rng.choice(['errs', 'errs', 'errs', 'brute', 'pf', 'mf', 'conv']), mode=rng.choice(['raw', 'central', 'scaled']))
        t = p02.gen(rng, bb)
        t.update(faults=[], ops=[{}] if rng.chance(.5) else [], stale=rng.chance(.6))
        return dict(p02=t, p02b=bb)
    k = rng.randrange(0, 300)
    M = rng.choice([1, 2, 3])
    eu, tr = b.get('eu'), b.get('tr')
    J = {'ghf': lambda: ['dardel/benes_bernoulli/ghf.py', f'--maxmc={M}', f'--gh={rng.choice([3, 5])}'] + ([f'--tme={rng.choice([2, 3])}'] if rng.chance(.5) else []),
         'mf': lambda: ['dardel/benes_bernoulli/mf.py', f'--maxmc={M}', f'--N={rng.choice([2, 3])}', '--mode=' + b['mode'],
                        f'--tme={rng.choice([2, 3])}'] + (['--normal'] if b['nrm'] else []),
         'brute': lambda: ['dardel/benes_bernoulli/brute_force.py', f'--k={k}', f'--ngrids={rng.choice([15, 30])}', f'--nintegrations={rng.choice([2, 5])}',
                           f'--rule={rng.choice([3, 6])}', '--method=' + (rng.choice(['chapman-tme-3', 'chapman-tme-2']) if b['meth'] == 'chapman-tme-3' else b['meth'])],
         'bpf': lambda: ['dardel/benes_bernoulli/pf.py', f'--k={k}', f'--nparticles={rng.choice([40, 60])}', f'--m={rng.choice([2, 5])}', f'--b={rng.choice([2, 5])}'],
         'cmf': lambda: ['dardel/convergence/convergence_mf.py', f'--N={rng.choice([2, 3, 4])}', '--mode=' + b['mode'], f'--maxmc={M}'],
         'cpf': lambda: ['dardel/convergence/convergence_pf.py', f'--nparticles={rng.choice([40, 60])}', f'--k={k}'],
         'pgauss': lambda: ['dardel/parameter_estimation/ghf_ekf.py', f'--k={k}', f'--gh={rng.choice([3, 5])}', f'--p1={rng.choice([1., 3.])}', f'--p2={rng.choice([1., 3.])}'] + eu,
         'pmf': lambda: ['dardel/parameter_estimation/mf.py', f'--k={k}', f'--N={rng.choice([2, 3])}', f'--p1={rng.choice([1., 3.])}', f'--p2={rng.choice([1., 3.])}'] + eu,
         'ppf': lambda: ['dardel/parameter_estimation/pf.py', f'--k={k}', '--nparticles=50', f'--p1={rng.choice([1., 3.])}', f'--p2={rng.choice([1., 3.])}'] + eu
         + b['cr'],
         'prey_gauss': lambda: ['dardel/prey_predator/ghf_ekf.py', '--gh=3', f'--trans={tr}', f'--maxmc={min(M, 2)}'],
         'prey_mf': lambda: ['dardel/prey_predator/mf.py', f'--N={rng.choice([2, 2, 3])}', f'--trans={tr}',
                             '--mode=' + b['mode'], f'--st_mc={k}', f'--ed_mc={k + rng.randrange(2)}'],
         'prey_pf': lambda: ['dardel/prey_predator/pf.py', '--nparticles=50', f'--trans={tr}', f'--st_mc={k}', f'--ed_mc={k + rng.randrange(2)}'],
         'prey_cr': lambda: ['dardel/prey_predator/cramer_rao.py', f'--maxmc={rng.choice([2, 3])}']}[g]
    jobs = [J() for _ in range(2 if g == 'cpf' else 1)]
    return dict(jobs=jobs, kill=[rng.choice([None, 0, 1, 1, 2]) for _ in jobs], stale=[rng.chance(.5) for _ in jobs],
                nan_mask=rng.choice([0, 0, 1]) if g.startswith('prey') and g != 'prey_cr' else 0, keys=rng.getrandbits(31), entropy=rng.getrandbits(32),
                par=[[rng.normal(.5, 1.), rng.normal(.5, 1.)] for _ in range(3)], ret=[rng.normal(1., 1.), rng.normal(1., 1.)], ok=rng.chance(.6))


# ------------------------------------------------------------------ capturing
class Tap:
    """wrappers around the real filters which record the measurements they get (and particles and probes of particle filters)"""

    def __init__(self):
        self.calls = []

    def rec(self, name):
        def f(**kw):
            self.calls.append((name, {k: np.asarray(v) for k, v in kw.items()}))
        return f

    def wrap(self, orig):
        import jax

        def f(*a, **k):
            b = pipe.kw(orig, a, k)
            extra = {}
            if 'nsamples' in b:
                extra = self.probe(b, orig.__name__)
            out = orig(*a, **k)
            if 'nsamples' in b:
                extra['samples'] = out[0] if isinstance(out, tuple) else out
                if isinstance(out, tuple):
                    extra['nell'] = out[1]
            jax.debug.callback(self.rec(orig.__name__), ys=b['ys'], **extra)
            return out
        return f

    @staticmethod
    def probe(b, name):
        """statistics of the proposal and values of the likelihood at probe points"""
        import jax
        import jax.numpy as jnp
        n = int(b['nsamples'])
        x0 = b['init_sampler'](jax.random.PRNGKey(5), n)
        d = 1 if x0.ndim == 1 else x0.shape[1]
        out = dict(conti=np.asarray(bool(b.get('conti_resampling', False))), n=np.asarray(n))
        prop = b.get('transition_sampler') or b.get('proposal_sampler')
        keys = jax.random.split(jax.random.PRNGKey(11), 200)
        ms, vs, ls = [], [], []
        for p in PROBES:
            x = jnp.broadcast_to(jnp.asarray(p if d == 2 else p[:1]), (n, d)).reshape(x0.shape)
            pr = (lambda key, x=x: prop(x, key)) if name == 'bootstrap_filter' else (lambda key, x=x: prop(x, YPROBE, key))
            z = jnp.reshape(jax.vmap(pr)(keys), (200 * n, d))
            ms.append(jnp.mean(z, axis=0))
            vs.append(jnp.cov(z.T).reshape(d, d))
            y = [jnp.ravel(b['measurement_cond_pdf'](yy, x))[0] for yy in (0, 1)]
            ls.append(jnp.stack(y))
        init = jax.vmap(lambda key: b['init_sampler'](key, n))(keys)
        init = jnp.reshape(init, (200 * n, d))
        out.update(pm=jnp.stack(ms), pv=jnp.stack(vs), like=jnp.stack(ls), im=jnp.mean(init, axis=0), iv=jnp.cov(init.T).reshape(d, d))
        return out


PROBES = [(.7, 1.1), (-1.3, .8), (1.6, .5)]
PROBES2 = [(.7, 1.1), (1.3, .8), (1.6, .5)]
YPROBE = .4


def near(a, b, what, cls='method', rtol=1e-6, atol=1e-8, env=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(cls, f'{what}: shape {a.shape}, {b.shape} expected')
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        i = np.unravel_index(np.argmax(np.abs(np.nan_to_num(a - b, nan=1e300))), a.shape)
        raise Violation(cls, f'{what}: {a[i]:.8g} stored, {b[i]:.8g} expected (index {tuple(int(x) for x in i)})')


def upto(ref, pert, *stored):
    """length of the history on which the reference is insensitive to rounding"""
    T = len(ref)
    ok = np.array([np.allclose(ref[i], pert[i], rtol=1e-8, atol=1e-9) for i in range(T)])
    return T if ok.all() else int(np.argmin(ok))


# ------------------------------------------------------------------ references
class Refs:
    def __init__(self, cache):
        self.c = cache

    def jit(self, key, make):
        import jax
        if key not in self.c:
            self.c[key] = jax.jit(make())
        return self.c[key]

    def benes_mf(self, a):
        import jax.numpy as jnp
        from mfs.one_dim import filtering as F, moments as mo, ss_models as ssm
        N, mode, tme, nrm = int(a['N']), a.get('mode', 'central'), int(a.get('tme', 3)), 'normal' in a
        m = ssm.benes_bernoulli(N)
        dt, T, ts, ic, drift, disp, logi, pmf, _ = m

        def make():
            r, c, s, mean, mv = mo.sde_cond_moments_tme_normal(drift, disp, dt, tme, N) if nrm else mo.sde_cond_moments_tme(drift, disp, dt, tme)

            def f(ys, e):
                if mode == 'raw':
                    return F.moment_filter_rms(r, pmf, ic.rms * (1 + e), ys)
                if mode == 'central':
                    return F.moment_filter_cms(c, mean, pmf, ic.cms, ic.mean + e, ys)
                return F.moment_filter_scms(s, mv, pmf, ic.scms, ic.mean + e, jnp.sqrt(ic.variance), ys)
            return f
        return self.jit(('bmf', N, mode, tme, nrm), make)

    def benes_ghf(self, a):
        import jax.numpy as jnp
        import tme.base_jax as tme
        from mfs.classical_filters_smoothers import gfs
        from mfs.classical_filters_smoothers.quadratures import SigmaPoints
        from mfs.one_dim import ss_models as ssm
        o, gh = int(a.get('tme', 3)), int(a.get('gh', 11))
        dt, T, ts, ic, drift, disp, logi, pmf, _ = ssm.benes_bernoulli(2)

        def make():
            sg = SigmaPoints.gauss_hermite(d=1, order=gh)

            def mc(x):
                p = logi(x)
                return jnp.reshape(p, (1,)), jnp.reshape(p * (1 - p), (1, 1))
            return lambda ys, e: gfs.sgp_filter(lambda x, h: tme.mean_and_cov(jnp.atleast_1d(x), h, drift, disp, order=o), mc, sg,
                                                jnp.reshape(ic.mean, (1,)) + e, jnp.reshape(ic.variance, (1, 1)), dt, ys[:, None], const_measurement_cov=False)
        return self.jit(('bghf', o, gh), make)

    def benes_brute(self, a):
        from mfs.classical_filters_smoothers import brute_force as bf
        from mfs.one_dim import ss_models as ssm
        dt, T, ts, ic, drift, disp, logi, pmf, _ = ssm.benes_bernoulli(7)
        meth, n = a.get('method', 'chapman-tme-3'), int(a.get('nintegrations', 100))
        return self.jit(('brute', meth, n, a.get('ngrids')), lambda: lambda xs, ys: bf.brute_force_filter(drift, disp, pmf, ic.pdf(xs), xs, ys, dt,
                                                                                                         integration_steps=n, pred_method=meth))

    def ou_mf(self, a):
        import jax
        import jax.numpy as jnp
        from mfs.one_dim import filtering as F, moments as mo
        N, mode = int(a['N']), a['mode']
        A, Q, R, P0 = ou()
        n = 2 * N

        def make():
            def cr(x, ks, mean=0.):
                tab = jax.vmap(lambda xx: jnp.stack([mo.raw_moment_of_normal(A * xx - mean, Q, p) for p in range(n)]))(x)
                return tab[:, ks]
            pdf = lambda y, x: jnp.exp(-.5 * (y - x) ** 2 / R) / math.sqrt(2 * math.pi * R)
            r0 = np.array([0. if p % 2 else P0 ** (p // 2) * float(np.prod(np.arange(p - 1, 0, -2))) for p in range(n)])

            def f(ys, e):
                if mode == 'raw':
                    r, _ = F.moment_filter_rms(lambda x, k: cr(x, k), pdf, jnp.asarray(r0) * (1 + e), ys)
                    return jnp.stack([r[:, 1], r[:, 2] - r[:, 1] ** 2], 1)
                c, m, _ = F.moment_filter_cms(lambda x, k, mean: cr(x, k, mean), lambda x: A * x, pdf, jnp.asarray(r0), 0. + e, ys)
                return jnp.stack([m, c[:, 2]], 1)
            return f
        return self.jit(('oumf', N, mode), make)

    def well(self, a, kind):
        """negative log-likelihood of parameters p (already positive)"""
        import jax.numpy as jnp
        import tme.base_jax as tme
        from mfs.classical_filters_smoothers import gfs
        from mfs.classical_filters_smoothers.quadratures import SigmaPoints
        from mfs.one_dim import filtering as F, moments as mo, ss_models as ssm
        N, eu, gh = int(a.get('N', 2)), 'euler' in a, int(a.get('gh', 11))
        dt, T, ts, ic, drift, disp, emis, pmf, _ = ssm.well_poisson(3., N)

        def make():
            def f(p, ys):
                dr = lambda x: drift(x, p[0])
                if kind == 'mf':
                    c = mo.sde_cond_moments_euler(dr, disp, dt, N) if eu else mo.sde_cond_moments_tme_normal(dr, disp, dt, 2, N)
                    return F.moment_filter_cms(c[1], c[3], lambda y, x: pmf(y, x, p[1]), ic.cms, ic.mean, ys)[2]

                def mcov(x):
                    lam = jnp.reshape(emis(x, p[1]), ())
                    return lam[None], lam[None, None]

                def trans(x, h):
                    if eu:
                        return jnp.reshape(x + dr(x) * h, (1,)), jnp.reshape(disp(x) ** 2 * h, (1, 1))
                    return tme.mean_and_cov(jnp.atleast_1d(x), h, dr, disp, order=2)
                m0, v0 = jnp.reshape(ic.mean, (1,)), jnp.reshape(ic.variance, (1, 1))
                if kind == 'ghf':
                    return gfs.sgp_filter(trans, mcov, SigmaPoints.gauss_hermite(d=1, order=gh), m0, v0, dt, ys[:, None], const_measurement_cov=False)[2][-1]
                return gfs.ekf(trans, mcov, m0, v0, dt, ys[:, None])[2][-1]
            return f
        return self.jit(('well', kind, N, eu, gh), make)

    def prey_gauss(self, a, kind):
        import jax.numpy as jnp
        import tme.base_jax as tme
        from mfs.classical_filters_smoothers import gfs
        from mfs.classical_filters_smoothers.quadratures import SigmaPoints
        from mfs.multi_dims import ss_models as ssm
        dt, T, ts, ic, drift, disp, emis, pmf, _ = ssm.prey_predator(((0, 0), (0, 1), (1, 0)))
        tr, gh = a['trans'], int(a.get('gh', 11))

        def make():
            def trans(x, h):
                if tr == 'euler':
                    return x + drift(x) * h, disp(x) @ disp(x).T * h
                return tme.mean_and_cov(x, h, drift, disp, order=int(tr.split('_')[-1]))

            def mcov(x):
                p = emis(x[0])
                return p[None], (p * (1 - p))[None, None]
            if kind == 'ghf':
                sg = SigmaPoints.gauss_hermite(d=2, order=gh)
                return lambda ys, e: gfs.sgp_filter(trans, mcov, sg, ic.mean + e, ic.cov, dt, ys[:, None], const_measurement_cov=False)[0]
            return lambda ys, e: gfs.ekf(trans, mcov, ic.mean + e, ic.cov, dt, ys[:, None])[0]
        return self.jit(('prey', kind, tr, gh), make)

    def prey_mf(self, a):
        import jax.numpy as jnp
        from mfs.multi_dims import filtering as F, moments as mo, ss_models as ssm
        from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as gl, gram_and_hankel_indices_graded_lexico as gh
        N, tr, mode = int(a['N']), a['trans'], a.get('mode', 'central')
        mi, inds = gl(2, 2 * N - 1, 0), gh(N, 2)
        dt, T, ts, ic, drift, disp, emis, pmf, _ = ssm.prey_predator(mi)

        def make():
            if tr == 'euler':
                c, ix = mo.sde_cond_moments_euler_maruyama(drift, disp, dt, mi), 'index'
            elif tr.startswith('tme_normal'):
                c, ix = mo.sde_cond_moments_tme_normal(drift, disp, dt, int(tr.split('_')[-1]), mi), 'index'
            else:
                c, ix = mo.sde_cond_moments_tme(drift, disp, dt, int(tr.split('_')[-1])), 'multi-index'
            pos = [tuple(int(v) for v in r) for r in np.asarray(mi)]

            def f(ys, e):
                if mode == 'raw':
                    r, _ = F.moment_filter_nd_rms((c[0], ix), pmf, ys, (jnp.asarray(mi), inds), ic.rms * (1 + e))
                    return jnp.stack([r[:, pos.index((1, 0))], r[:, pos.index((0, 1))]], 1)
                return F.moment_filter_nd_cms((c[1], ix), c[3], pmf, ys, (jnp.asarray(mi), inds), ic.cms, ic.mean + e)[1]
            return f
        return self.jit(('preymf', N, tr, mode), make)


def ou():
    ell, sig, dt = 1., .5, .1
    return math.exp(-dt / ell), sig ** 2 * (1 - math.exp(-2 * dt / ell)), 1., sig ** 2


def ou_kf(ys):
    A, Q, R, P = ou()
    m, out = 0., []
    for y in ys:
        m, P = A * m, A * A * P + Q
        k = P / (P + R)
        m, P = m + k * (y - m), P - k * P
        out.append((m, P))
    return np.array(out)


def ou_errs(mf, vf, kf):
    return dict(errs_means=np.abs(mf - kf[:, 0]), errs_variances=np.abs(vf - kf[:, 1]),
                errs_kls=.5 * (vf / kf[:, 1] - 1 + (kf[:, 0] - mf) ** 2 / kf[:, 1] + np.log(kf[:, 1]) - np.log(vf)))


def model_probe(c, mean, cov, like, nm, im, iv):
    """captured proposal statistics against the model's transition: z-tests with false-alarm probability below 1e-12 each"""
    n = 200 * int(c['n'])
    for i in range(len(PROBES)):
        m, P = np.atleast_1d(mean[i]), np.atleast_2d(cov[i])
        d = len(m)
        sd = np.sqrt(np.diag(P))
        if np.any(np.abs(c['pm'][i] - m) > 7.5 * sd / np.sqrt(n) + 1e-12):
            raise Violation('method', f'{nm}: the particles at {PROBES[i][:d]} move to {c["pm"][i]} on average, the transition\'s mean is {m}')
        se = np.sqrt((np.outer(sd, sd) ** 2 + P ** 2) / n)
        if np.any(np.abs(c['pv'][i] - P) > 8 * se + 1e-14):
            raise Violation('method', f'{nm}: the particles at {PROBES[i][:d]} spread with covariance {c["pv"][i].tolist()}, the transition\'s is {P.tolist()}')
        near(c['like'][i], like[i], f'{nm}: likelihood of the measurements 0 and 1 at {PROBES[i][:d]}', rtol=1e-7)
    if np.any(np.abs(c['im'] - im) > 8 * np.sqrt(np.diag(np.atleast_2d(iv)) / n)):
        raise Violation('method', f'{nm}: initial particles have mean {c["im"]}, the initial condition {im}')
    s = np.sqrt(np.diag(np.atleast_2d(iv)))
    if np.any(np.abs(c['iv'] - iv) > 12 * np.outer(s, s) * np.sqrt(2 / n) * 1.5):
        raise Violation('method', f'{nm}: initial particles have covariance {c["iv"].tolist()}, the initial condition {np.asarray(iv).tolist()}')


def args_of(job):
    return dict(re.fullmatch(r'--(\w+)(?:=(.*))?', x).groups() for x in job[1:])


def execute(t, log, cache):
    b = t['bucket']
    if b['group'] == 'errs':
        from vsim.props import p02
        tt = dict(t['p02'], bucket=t['p02b'])
        log.fault('job.repeat') if tt['ops'] else None
        p02.execute(tt, log, cache)
        return
    import jax
    import jax.numpy as jnp
    import jaxopt
    from functools import partial
    import mfs.classical_filters_smoothers, mfs.one_dim.filtering as f1, mfs.multi_dims.filtering as f2, mfs.one_dim.ss_models  # noqa: E401,F401
    import mfs.multi_dims.ss_models, mfs.classical_filters_smoothers.brute_force as bf, mfs.utils as mu, mfs.one_dim.moments  # noqa: E401,F401
    import mfs.multi_dims.moments  # noqa: F401
    from mfs.classical_filters_smoothers import gfs, smc
    tap = Tap()
    real = [f1.moment_filter_rms, f1.moment_filter_cms, f1.moment_filter_scms, f2.moment_filter_nd_rms, f2.moment_filter_nd_cms, gfs.sgp_filter, gfs.ekf,
            smc.bootstrap_filter, smc.particle_filter, bf.brute_force_filter]
    repl = {f: tap.wrap(f) for f in real}
    sims = []
    fac = models.factories(t['nan_mask'])
    refs = Refs(cache)
    keys = np.asarray(jax.random.split(jax.random.PRNGKey(t['keys']), 400))

    def recording(fn):
        def f(*a, **k):
            r = list(fn(*a, **k))
            s = r[-1]

            def sim(*sa, **sk):
                o = s(*sa, **sk)
                jax.debug.callback(lambda *v: sims.append(tuple(np.asarray(x) for x in v)), *(o if isinstance(o, tuple) else (o,)))
                return o
            r[-1] = sim
            return tuple(r)
        return f
    repl.update({o: recording(f) for o, f in fac.items()})
    global PROBES
    old = PROBES
    if b['group'].startswith('prey'):
        PROBES = PROBES2
    try:
        with pipe.Disk(keys) as disk:
            for job, kill, stale in zip(t['jobs'], t['kill'], t['stale']):
                M = pipe.Machine(disk, log, t['entropy'])
                if stale:
                    for f in disk.files():
                        with open(disk.path(f), 'wb') as h:
                            h.write(b'left over from an earlier campaign')
                    log.fault('disk.stale_results')
                tap.calls.clear()
                sims.clear()
                opt = Optim(t, tap)
                with pipe.patched(repl), pipe.attrs((jaxopt, 'ScipyMinimize', partial(models.Solver, opt.sink))):
                    if kill is not None:
                        M.job(*job, plan={kill: ['kill', 0]}).run()
                    jax.effects_barrier()
                    tap.calls.clear()
                    sims.clear()
                    opt.seen.clear()
                    j = M.job(*job)
                    st = j.run()
                    jax.effects_barrier()
                if st != 0:
                    raise Violation('exception', f"{' '.join(job)} failed without a fault: {st} {j.err}")
                with pipe.patched(fac):
                    judge(t, b['group'], job, disk, tap, sims, opt, refs, log, keys)
                log.probe('jobs_judged')
    finally:
        PROBES = old
    log.simtime = float(log.n)


class Optim:
    """stand-in optimiser: evaluates the objective at the probe parameters"""

    def __init__(self, t, tap):
        self.t, self.tap, self.seen = t, tap, []

    def sink(self, fun, init, args, kwargs, ret):
        import jax
        import jax.numpy as jnp
        vals, caps = [], []
        for p in self.t['par']:
            n = len(self.tap.calls)
            vals.append(float(fun(jnp.asarray(p), *args, **kwargs)))
            jax.effects_barrier()
            caps.append(self.tap.calls[n:])
        self.seen.append(dict(ys=np.asarray(args[0] if args else list(kwargs.values())[0]), vals=vals, caps=caps, nth=len(self.seen)))
        r = np.asarray(self.t['ret']) + .25 * len(self.seen)
        return ret(r, self.t['ok'] ^ (len(self.seen) == 2))


def need(disk, rel, nm):
    d = disk.load(rel)
    if d is None:
        raise Violation('result', f'{nm} ended successfully but results/{rel} is missing or unreadable')
    return d


def ys_of(tap, name, nm, k):
    cs = [c for n, c in tap.calls if n == name]
    if len(cs) <= k:
        raise Violation('method', f'{nm}: run {k} never called {name} (called: {sorted({n for n, _ in tap.calls})})')
    return cs[k]


def softplus(p):
    return np.log1p(np.exp(np.asarray(p)))


E = 1e-12


def judge(t, g, job, disk, tap, sims, opt, refs, log, keys):
    import jax.numpy as jnp
    import tme.base_jax as tme
    a, nm = args_of(job), job[0]
    if g == 'ghf':
        d = need(disk, f"benes_bernoulli_ghf/gh_{a.get('gh', 11)}_tme_{a.get('tme', 3)}.npz", nm)
        f = refs.benes_ghf(a)
        for k in range(int(a['maxmc'])):
            ys = ys_of(tap, 'sgp_filter', nm, k)['ys'][:, 0]
            r, p = f(jnp.asarray(ys), 0.), f(jnp.asarray(ys), E)
            T = upto(np.asarray(r[0]), np.asarray(p[0]))
            near(d['ghf_mfs'][k][:T], np.asarray(r[0])[:T, 0], f'{nm}: mean of run {k}')
            near(d['ghf_vfs'][k][:T], np.asarray(r[1])[:T, 0, 0], f'{nm}: variance of run {k}')
    elif g == 'mf':
        mode = a.get('mode', 'central')
        f = refs.benes_mf(a)
        name = dict(raw='moment_filter_rms', central='moment_filter_cms', scaled='moment_filter_scms')[mode]
        for k in range(int(a['maxmc'])):
            d = need(disk, f"benes_bernoulli_mf/{mode}{'_normal' if 'normal' in a else ''}_N_{a['N']}_mc_{k}.npz", nm)
            ys = jnp.asarray(ys_of(tap, name, nm, k)['ys'])
            r, p = [np.asarray(x) for x in f(ys, 0.)], [np.asarray(x) for x in f(ys, E)]
            fields = dict(raw=['rmss', 'nell'], central=['cmss', 'means', 'nell'], scaled=['scmss', 'means', 'scales', 'nell'])[mode]
            T = min(upto(x, y) for x, y in zip(r[:-1], p[:-1]))
            log.probe('steps', T)
            for n, x in zip(fields, r):
                if n not in d:
                    raise Violation('result', f'{nm}: {n} is not stored')
                if n == 'nell':
                    if T == len(ys):
                        near(d[n], x, f'{nm}: nell of run {k}')
                else:
                    near(d[n][:T], x[:T], f'{nm}: {n} of run {k}')
    elif g == 'brute':
        d = need(disk, f"benes_bernoulli_brute_force/mc_{a['k']}.npz", nm)
        ys = ys_of(tap, 'brute_force_filter', nm, 0)['ys']
        near(d['ys'] * 1., ys * 1., f'{nm}: measurements')
        if sims:
            near(d['xs'], sims[-1][-1], f'{nm}: trajectory')
        f = refs.benes_brute(a)
        near(d['true_pdfs'], f(jnp.asarray(d['spatial_grids']), jnp.asarray(ys)), f'{nm}: densities')
        r = refs.benes_mf(dict(N=7, mode='central', tme=3, normal=None))(jnp.asarray(ys), 0.)
        m, s = np.asarray(r[1]), np.sqrt(np.asarray(r[0])[:, 2])
        if np.all(np.isfinite(m)) and np.all(np.isfinite(s)):
            x, rule = d['spatial_grids'], int(a.get('rule', 6))
            if x[0] > np.min(m - rule * s) + 1e-3 or x[-1] < np.max(m + rule * s) - 1e-3 or len(x) != int(a['ngrids']):
                raise Violation('method', f'{nm}: the grid [{x[0]:.4g}, {x[-1]:.4g}] of {len(x)} points does not hold {rule} standard deviations at all times')
    elif g in ('bpf', 'cpf', 'prey_pf'):
        pf(t, g, job, a, nm, disk, tap, sims, log)
    elif g == 'cmf':
        d = need(disk, f"convergence/mf_{a['mode']}_N_{a['N']}.npz", nm)
        name = dict(raw='moment_filter_rms', central='moment_filter_cms')[a['mode']]
        f = refs.ou_mf(a)
        for k in range(int(a['maxmc'])):
            ys = ys_of(tap, name, nm, k)['ys']
            r, p = np.asarray(f(jnp.asarray(ys), 0.)), np.asarray(f(jnp.asarray(ys), E))
            T = upto(r, p)
            kf = ou_kf(ys)
            for n, x in ou_errs(r[:, 0], r[:, 1], kf).items():
                near(d[n][k][:T], x[:T], f'{nm}: {n} of run {k}', rtol=1e-5, atol=1e-7)
    elif g in ('pgauss', 'pmf', 'ppf'):
        param(t, g, job, a, nm, disk, opt, refs, log)
    elif g == 'prey_gauss':
        for k in range(int(a['maxmc'])):
            d = need(disk, f"prey_predator_ghf_ekf/{a['trans']}_mc_{k}.npz", nm)
            for kind, fn in (('ghf', 'sgp_filter'), ('ekf', 'ekf')):
                ys = ys_of(tap, fn, nm, k)['ys'][:, 0]
                prey_errs(refs.prey_gauss(a, kind), ys, sims, d, f'errs_{kind}', f'{nm}: run {k}', log)
    elif g == 'prey_mf':
        mode = a.get('mode', 'central')
        for i, k in enumerate(range(int(a['st_mc']), int(a['ed_mc']) + 1)):
            d = need(disk, f"prey_predator_mf/{mode}_{a['trans']}_N_{a['N']}_mc_{k}.npz", nm)
            ys = ys_of(tap, 'moment_filter_nd_rms' if mode == 'raw' else 'moment_filter_nd_cms', nm, i)['ys']
            prey_errs(refs.prey_mf(a), ys, sims, d, 'errs', f'{nm}: run {k}', log)
    elif g == 'prey_cr':
        cramer(t, a, nm, disk, refs, keys)


def truth(sims, ys, what):
    """the simulated trajectory that came with these measurements"""
    for s in sims:
        if len(s) == 3 and s[2].shape == ys.shape and np.array_equal(s[2] * 1., ys * 1.):
            if np.all(np.isfinite(s[1])):
                return s[1]
    raise Violation('truth', f'{what}: the measurements are not those of a finite simulated trajectory')


def prey_errs(f, ys, sims, d, field, what, log):
    import jax.numpy as jnp
    xs = truth(sims, ys, what)
    r, p = np.asarray(f(jnp.asarray(ys), 0.)), np.asarray(f(jnp.asarray(ys), E))
    T = upto(r, p)
    log.probe('steps', T)
    if field not in d:
        raise Violation('result', f'{what}: {field} is not stored')
    if d[field].shape != xs.shape:
        raise Violation('method', f'{what}: {field} has shape {d[field].shape}')
    near(d[field][:T], np.abs(xs - r)[:T], f'{what}: {field}')


def pf(t, g, job, a, nm, disk, tap, sims, log):
    import jax
    import jax.numpy as jnp
    import tme.base_jax as tme
    n = int(a['nparticles'])
    if g == 'bpf':
        from mfs.one_dim import ss_models as ssm
        dt, T, ts, ic, drift, disp, logi, pmf, _ = ssm.benes_bernoulli(2)
        d = need(disk, f"benes_bernoulli_pf/b_{a['b']}_m_{a['m']}_mc_{a['k']}.npz", nm)
        c = ys_of(tap, 'bootstrap_filter', nm, 0)
        x = c['samples']
        near(d['pf_filtering_means'], x.mean(1), f'{nm}: means')
        zs = np.linspace(-int(a['b']), int(a['b']), int(a['m']))
        near(d['pf_filtering_cfs'], np.exp(1j * zs[None, :, None] * x[:, None, :]).mean(-1), f'{nm}: characteristic functions')
        tr = [tme.mean_and_cov(jnp.asarray(p[:1]), dt, drift, disp, order=int(a.get('tme', 3))) for p in PROBES]
        model_probe(c, [np.asarray(m) for m, _ in tr], [np.asarray(v) for _, v in tr], [[float(pmf(y, p[0])) for y in (0, 1)] for p in PROBES], nm,
                    float(ic.mean), float(ic.variance))
        if int(c['n']) != n or x.shape[1] != n:
            raise Violation('method', f'{nm}: {x.shape[1]} particles instead of {n}')
        if bool(c['conti']):
            raise Violation('method', f'{nm}: continuous resampling was used')
    elif g == 'cpf':
        d = need(disk, f"convergence/pf_{n}_mc_{a['k']}.npz", nm)
        c = ys_of(tap, 'particle_filter', nm, 0)
        x = c['samples'][..., 0]
        kf = ou_kf(c['ys'])
        for f, v in ou_errs(x.mean(1), x.var(1), kf).items():
            near(d[f], v, f'{nm}: {f}', rtol=1e-6, atol=1e-8)
        A, Q, R, P0 = ou()
        K = Q / (Q + R)
        lk = lambda y, p: math.exp(-.5 * (y - p) ** 2 / R) / math.sqrt(2 * math.pi * R)
        model_probe(c, [[A * p[0] + K * (YPROBE - A * p[0])] for p in PROBES], [[[Q - K * Q]] for p in PROBES], [[lk(y, p[0]) for y in (0, 1)] for p in PROBES], nm, 0., P0)
        if x.shape[1] != n:
            raise Violation('method', f'{nm}: {x.shape[1]} particles instead of {n}')
    else:
        from mfs.multi_dims import ss_models as ssm
        dt, T, ts, ic, drift, disp, emis, pmf, _ = ssm.prey_predator(((0, 0), (0, 1), (1, 0)))
        for i, k in enumerate(range(int(a['st_mc']), int(a['ed_mc']) + 1)):
            d = need(disk, f"prey_predator_pf/{a['trans']}_mc_{k}.npz", nm)
            c = ys_of(tap, 'bootstrap_filter', nm, i)
            xs = truth(sims, c['ys'], f'{nm}: run {k}')
            near(d['errs'], np.abs(xs - c['samples'].mean(1)), f'{nm}: errors of run {k}')
            tr = []
            for p in PROBES:
                p = jnp.asarray(p)
                tr.append((p + drift(p) * dt, disp(p) @ disp(p).T * dt) if a['trans'] == 'euler' else
                          tme.mean_and_cov(p, dt, drift, disp, order=int(a['trans'].split('_')[-1])))
            model_probe(c, [np.asarray(m) for m, _ in tr], [np.asarray(v) for _, v in tr], [[float(pmf(y, jnp.asarray(p))) for y in (0, 1)] for p in PROBES], nm,
                        np.asarray(ic.mean), np.asarray(ic.cov))
            if c['samples'].shape[1] != n or bool(c['conti']):
                raise Violation('method', f"{nm}: {c['samples'].shape[1]} particles (continuous resampling: {bool(c['conti'])}) instead of {n}")


def param(t, g, job, a, nm, disk, opt, refs, log):
    import jax.numpy as jnp
    import tme.base_jax as tme
    eu = 'euler' in a
    k = a['k']
    if g == 'pgauss':
        want = [('ghf', f"parameter_estimation_ghf_ekf/gh_{a['gh']}{'_euler' if eu else ''}_mc_{k}.npz"),
                ('ekf', f"parameter_estimation_ghf_ekf/ekf{'_euler' if eu else ''}_mc_{k}.npz")]
    elif g == 'pmf':
        want = [('mf', f"parameter_estimation_mf/N_{a['N']}{'_euler' if eu else ''}_mc_{k}.npz")]
    else:
        want = [('pf', f"parameter_estimation_pf{'_cr' if 'cr' in a else ''}/{'euler_' if eu else ''}mc_{k}.npz")]
    for kind, rel in want:
        d = need(disk, rel, nm)
        # which optimisation does the stored result come from
        src = [i for i in range(len(opt.seen)) if d['opt_params'].shape == (2,)
               and np.allclose(d['opt_params'], softplus(np.asarray(t['ret']) + .25 * (i + 1)), rtol=1e-9)]
        if not src:
            raise Violation('method', f'{nm}: the parameters in results/{rel} are not those of an optimisation ({len(opt.seen)} were run)')
        o = opt.seen[src[0]]
        if bool(d['success']) != (t['ok'] ^ (src[0] + 1 == 2)):
            raise Violation('method', f'{nm}: the success flag in results/{rel} is not that of the optimisation')
        ys = jnp.asarray(o['ys'])
        for p, v, cap in zip(t['par'], o['vals'], o['caps']):
            q = softplus(p)
            if kind != 'pf':
                f = refs.well(a, kind)
                r, e = float(f(jnp.asarray(q), ys)), float(f(jnp.asarray(q) * (1 + 1e-11), ys))
                if not np.isfinite(r) or abs(r - e) > 1e-7 * (1 + abs(r)):
                    log.probe('insensitive_skipped')
                    continue
                near(v, r, f'{nm}: objective behind results/{rel} at parameters {[round(float(x), 3) for x in q]}', rtol=1e-6, atol=1e-6)
                log.probe('objective_checked')
                continue
            cs = [c for n, c in cap if n == 'bootstrap_filter']
            if not cs:
                raise Violation('method', f'{nm}: the objective does not run the bootstrap filter')
            c = cs[-1]
            near(v, c['nell'], f'{nm}: objective against the filter\'s negative log-likelihood')
            near(c['ys'] * 1., np.asarray(ys) * 1., f'{nm}: measurements')
            if bool(c['conti']) != ('cr' in a):
                raise Violation('method', f"{nm}: continuous resampling is {'on' if c['conti'] else 'off'} for results/{rel}")
            from mfs.one_dim import ss_models as ssm
            dt, T, ts, ic, drift, disp, emis, pmf, _ = ssm.well_poisson(3., 2)
            tr = []
            for x in PROBES:
                x = jnp.asarray(x[:1])
                dr = lambda z: drift(z, q[0])
                tr.append((x + dr(x) * dt, jnp.reshape(jnp.asarray(disp(x) ** 2 * dt), (1, 1))) if eu else tme.mean_and_cov(x, dt, dr, disp, order=2))
            model_probe(c, [np.asarray(m) for m, _ in tr], [np.asarray(s) for _, s in tr], [[float(pmf(y, x[0], q[1])) for y in (0, 1)] for x in PROBES], nm,
                        float(ic.mean), float(ic.variance))
            log.probe('objective_checked')


def cramer(t, a, nm, disk, refs, keys):
    import jax
    import jax.numpy as jnp
    import tme.base_jax as tme
    import mfs.utils as mu
    from mfs.multi_dims import ss_models as ssm
    dt, T, ts, ic, drift, disp, emis, pmf, sim = ssm.prey_predator(((0, 0), (0, 1), (1, 0)))
    d = need(disk, 'prey_predator_cramer_rao/crlbs.npz', nm)['crlbs']
    x0, xs, ys = jax.vmap(sim)(jnp.asarray(keys[:int(a['maxmc'])]))

    def lt(x, z):
        m, P = tme.mean_and_cov(z, dt, drift, disp, order=2)
        return jax.scipy.stats.multivariate_normal.logpdf(x, m, P)

    def ll(y, x):
        p = emis(x[0])
        return jnp.where(y, jnp.log(p), jnp.log1p(-p))
    j0 = -jnp.mean(jax.vmap(jax.hessian(ic.logpdf))(x0), 0)
    tr = jnp.concatenate([x0[None], jnp.swapaxes(xs, 0, 1)], 0)
    js = np.asarray(mu.posterior_cramer_rao(tr, ys.T, j0, lt, ll))
    r = np.linalg.inv(js)
    ok = np.array([np.all(np.isfinite(j)) and np.linalg.cond(j) < 1e6 for j in js])
    near(d[ok], r[ok], f'{nm}: bounds', rtol=1e-5, atol=1e-9)
