"""R02: particle filters observed step by step through their callbacks, with scheduled (also adversarial) resamplers."""
import math

import numpy as np

from vsim.core import Skip, Violation, sut
from vsim.props import r01

RULE = ('one run = one seeded model, faulty measurement history, key and resampler schedule through one particle filter with all '
        'callbacks recorded; non-trivial = a measurement fault or an adversarial resampling decision fired; distinct by event-log hash')
COMPONENTS = dict(real=['mfs.classical_filters_smoothers.smc', 'mfs.classical_filters_smoothers.resampling'],
                  stub=['samplers, densities (recorded models)', 'resampler decisions in adversarial runs'])
ASSUMPTIONS = ['executed with jit disabled so that callbacks see values; repeatability is also checked with jit on']
SHRINK_LISTS = ['msgs']
FAULTLESS_OK = True


def buckets(rng, tier):
    out = []
    for rep in range(2 if tier == 'quick' else 20):
        for f in ('bootstrap', 'conti', 'general'):
            for rs in (['systematic', 'stratified', 'multinomial', 'adversary'] if f != 'conti' else ['none', 'none']):
                out.append((dict(filter=f, rs=rs, dim=rng.choice([0, 1, 2]) if f != 'conti' else 0, cost=1), 24 if tier == 'quick' else 80))
    return out


def gen(rng, b):
    T = rng.choice([1, 2, 2, 3, 4, 6]) if b.get('rid') != 1 else rng.choice([20, 35, 70])
    p = rng.choice([0., .2, .5])
    return dict(T=T, n=rng.choice([1, 2, 3, 5, 8, 20]), key=rng.getrandbits(31), a=rng.uniform(.5, 1.1), c=rng.uniform(-.5, .5),
                s=rng.uniform(.3, 1.), r=rng.uniform(.5, 1.5), unit=rng.choice([1., 1., 1., 1e-4, .01, 1e3, 1e6]), plant=rng.getrandbits(32), adv=rng.getrandbits(32),
                style=rng.choice(['direct', 'split']), jit=rng.chance(.08),
                msgs=[rng.choice(['none', 'none', 'outlier', 'stuck', 'drop', 'dup']) if rng.chance(p) else 'none' for _ in range(T)])


def measurements(t, log):
    g = np.random.default_rng(t['plant'])
    x, ys = 0., []
    for i in range(t['T'] * 3):
        x = t['a'] * x + t['c'] + t['s'] * g.standard_normal()
        y = x + t['r'] * g.standard_normal()
        c = t['msgs'][i] if i < len(t['msgs']) else 'none'
        if c != 'none':
            log.fault('sensor.' + c if c in ('outlier', 'stuck') else 'net.' + c)
        if c == 'drop':
            continue
        if c == 'outlier':
            y += 6.
        if c == 'stuck' and ys:
            y = ys[-1]
        ys.append(y)
        if c == 'dup':
            ys.append(y)
    return np.array(ys[:t['T']]) * t['unit']


def execute(t, log, cache):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling, smc
    b = t['bucket']
    T, n = t['T'], t['n']
    shape = (n,) if b['dim'] == 0 else (n, b['dim'])
    ys = measurements(t, log)
    rec = []
    adv = np.random.default_rng(t['adv'])
    traced = []

    def note(kind, **kw):
        if any(isinstance(v, jax.core.Tracer) for v in kw.values()):
            traced.append(kind)
        else:
            rec.append((kind, {k: np.asarray(v) for k, v in kw.items()}))

    def noise(key, sh):
        if t['style'] == 'split':
            key, _ = jax.random.split(key)
        return t['unit'] * jax.random.normal(key, sh)

    def init(key, k):
        x = noise(key, (k,) + shape[1:])
        note('init', key=key, out=x)
        return x

    u = t['unit']
    a, c, s, r = t['a'], t['c'] * u, t['s'], t['r'] * u

    def transition(x, key):
        out = a * x + c + s * noise(key, x.shape)
        note('move', x=x, key=key, out=out)
        return out

    red = (lambda v: v) if b['dim'] == 0 else (lambda v: v.sum(-1))
    npdf = lambda v, sd: jnp.exp(-.5 * (v / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
    first = (lambda x: x) if b['dim'] == 0 else (lambda x: x[..., 0])

    def lik(y, x):
        out = npdf(y - first(x), r)
        note('lik', y=y, x=x, out=out)
        return out

    shift = lambda y: c + .1 * u * jnp.tanh(y / u)

    def prop(x, y, key):
        out = a * x + shift(y) + 1.2 * s * noise(key, x.shape)
        note('move', x=x, y=y, key=key, out=out)
        return out

    prod = (lambda v: v) if b['dim'] == 0 else (lambda v: jnp.prod(v, -1))
    prop_pdf = lambda xn, x, y: prod(npdf(xn - a * x - shift(y), 1.2 * s * u))
    trans_pdf = lambda xn, x: prod(npdf(xn - a * x - c, s * u))

    def resample(w, key):
        if b['rs'] == 'adversary':
            idx = jnp.asarray(adv.integers(0, n, n)) if not isinstance(w, jax.core.Tracer) else jnp.arange(n)[::-1]
            log.fault('resampler.adversary')
        else:
            idx = getattr(resampling, b['rs'])(w, key)
        note('resample', w=w, key=key, out=idx)
        return idx

    key = jax.random.PRNGKey(t['key'])

    def run(key):
        if b['filter'] == 'general':
            return smc.particle_filter(prop, prop_pdf, trans_pdf, lik, jnp.asarray(ys), init, key, n, resample), None
        return smc.bootstrap_filter(transition, lik, jnp.asarray(ys), init, key, n, resample, b['filter'] == 'conti')

    uniform = jax.random.uniform

    def recorded_uniform(key, *args, **kw):  # continuous resampling has no callback: its key is seen here
        note('uniform', key=key)
        return uniform(key, *args, **kw)

    if b['filter'] == 'conti':
        jax.random.uniform = recorded_uniform
    try:
        with jax.disable_jit():
            out, nell = sut(run, key, what='particle filter')
    finally:
        jax.random.uniform = uniform
    out = np.asarray(out)
    if out.shape != (T,) + shape:
        raise Violation('shape', f'particle filter returned samples of shape {out.shape}, expected {(T,) + shape}')
    log.ev('out', out, float(nell) if nell is not None else 0.)
    log.probe('traced' if traced else 'concrete')
    if not traced:
        check_steps(b, t, ys, rec, out, nell, n, T, (a, c, s * u, r, u), log)
    if t['jit']:
        f = jax.jit(run)
        o1, o2 = [np.asarray(sut(f, key, what='particle filter (jit)')[0]) for _ in range(2)]
        o3 = np.asarray(f(jax.random.PRNGKey(t['key'] + 1))[0])
        log.ev('jit')
        if not np.array_equal(o1, o2):
            raise Violation('repeat', 'the same key gives different particles')
        if np.array_equal(o1, o3):
            raise Violation('repeat', 'different keys give the same particles')


def check_steps(b, t, ys, rec, out, nell, n, T, par, log):
    import jax
    a, c, s, r, u = par
    inits = [e for k, e in rec if k == 'init']
    moves = [e for k, e in rec if k == 'move']
    res = [e for k, e in rec if k == 'resample']
    if len(inits) != 1 or inits[0]['out'].shape[0] != n:
        raise Violation('steps', f'initial sampler called {len(inits)} times')
    if len(moves) != T or (len(res) != T and b['filter'] != 'conti'):
        raise Violation('steps', f'{T} measurements but {len(moves)} proposals and {len(res)} resamplings')
    prev = inits[0]['out']
    first = (lambda x: x) if b['dim'] == 0 else (lambda x: x[..., 0])
    npdf = lambda v, sd: np.exp(-.5 * (v / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
    prod = (lambda v: v) if b['dim'] == 0 else (lambda v: np.prod(v, -1))
    total = 0.
    for k in range(T):
        m = moves[k]
        if m['x'].shape != prev.shape or not np.array_equal(m['x'], prev):
            raise Violation('chain', f'step {k}: the proposal did not start from the previously reported particles')
        if 'y' in m and float(m['y']) != ys[k]:
            raise Violation('chain', f'step {k}: the proposal saw the wrong measurement')
        new = m['out']
        w = npdf(ys[k] - first(new), r)
        total -= math.log(np.mean(w)) if np.mean(w) > 0 else math.inf
        if b['filter'] == 'general':
            sh = c + .1 * u * np.tanh(ys[k] / u)
            w = w * prod(npdf(new - a * prev - c, s)) / prod(npdf(new - a * prev - sh, 1.2 * s))
        W = w / w.sum()
        if b['filter'] == 'conti':
            r01.check_continuous(new, W, out[k], n)
        else:
            g = res[k]
            if g['w'].shape != (n,) or not np.allclose(g['w'], W, rtol=1e-9, atol=1e-12):
                raise Violation('weights', f'step {k}: the resampler did not get the normalised importance weights')
            if not np.array_equal(out[k], new[g['out']]):
                raise Violation('chain', f'step {k}: reported particles are not the resampled rows of the proposal')
        prev = out[k]
        log.probe('steps')
    if nell is not None and not abs(float(nell) - total) <= 1e-8 * max(1., abs(total)):
        raise Violation('likelihood', f'negative log-likelihood {float(nell):.10g}, average weights give {total:.10g}')
    # randomness: all consumers get different keys, none derived from another consumer's key
    users = [('initialisation', inits[0]['key'])] + [(f'proposal {k}', m['key']) for k, m in enumerate(moves)] + \
            [(f'resampling {k}', g['key']) for k, g in enumerate(res)] + \
            [(f'continuous resampling {k}', g['key']) for k, g in enumerate(e for kk, e in rec if kk == 'uniform')]
    tup = lambda v: tuple(int(i) for i in np.asarray(v).ravel())
    seen = {}
    for name, key in users:
        if tup(key) in seen:
            raise Violation('keys', f'{name} and {seen[tup(key)]} use the same key')
        seen[tup(key)] = name
    nums = sorted({2, 3, T, T + 1})
    level = jax.numpy.asarray(np.stack([k for _, k in users]))
    names = [n for n, _ in users]
    for depth in range(2):
        kids, owner = [], []
        for num in nums if depth == 0 else nums[:2]:
            c = np.asarray(jax.vmap(lambda q: jax.random.split(q, num))(level))
            kids.append(c.reshape((-1,) + c.shape[2:]))
            owner += [n for n in names for _ in range(num)]
        level = np.concatenate(kids)
        for name, child in zip(owner, level):
            if tup(child) in seen:
                raise Violation('keys', f'the key of {seen[tup(child)]} is derived from the key of {name}')
        names, level = owner, jax.numpy.asarray(level)
    log.probe('keys', len(users))
