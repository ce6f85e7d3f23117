"""S04: smoothers refine the reference backward recursion, in one pass or resumed after crashes at any point."""
import pickle

import numpy as np

from vsim import gaussian as G
from vsim.core import Violation, sut
from vsim.stream import Disk, Service, gen_stream

RULE = ('one run = one seeded model and faulty measurement history, filtered, then smoothed backwards in chunks with '
        'crashes and checkpoint faults and once uninterrupted; non-trivial = a fault fired in either phase and the history '
        'stayed in the domain; distinct by event-log hash')
COMPONENTS = dict(real=['mfs.classical_filters_smoothers.gfs smoothers and filters', 'mfs.classical_filters_smoothers.quadratures'],
                  stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; histories whose reference covariance leaves [1e-7, 1e4] are skipped and counted']
SHRINK_LISTS = ['back', 'ops', 'msgs']
LENS = [1, 3]
CHUNKS = [1, 2, 4]


def buckets(rng, tier):
    return G.gen_buckets(rng, tier, 120 if tier == 'quick' else 1200, 24 if tier == 'quick' else 80)


def gen(rng, b):
    t = gen_stream(rng, b['T'], LENS)
    t.update(model=G.gen_model(rng, b['dx'], b['dy'], b['kind']), plant=rng.getrandbits(32))
    p = rng.choice([.1, .3, .5])
    t['back'] = [['crash'] if rng.chance(p) else ['ckpt', rng.choice(['none', 'none', 'torn', 'lost', 'bitflip', 'enospc'])]
                 if rng.chance(.4) else ['chunk', rng.choice(CHUNKS)] for _ in range(rng.randint(2, 3 * b['T']))]
    return t


def run_smoother(ad, ms, vs):
    import jax.numpy as jnp
    o = sut(ad.cache['s'], ad.ja, jnp.asarray(ms), jnp.asarray(vs), what=ad.b['kind'] + ' smoother')
    o = [np.asarray(v) for v in o]
    if o[0].shape != ms.shape or o[1].shape != vs.shape:
        raise Violation('shape', f'smoother returned shapes {o[0].shape} {o[1].shape} for {ms.shape} {vs.shape}')
    return o


def execute(t, log, cache):
    b = t['bucket']
    ad = G.Adapter(b, t, log, cache)
    hist = Service(t, log, LENS, ad).run()
    _, (mf, vf, _) = ad.process(ad.init(), hist)
    ad.observe(0, hist, (mf, vf, np.array([r[2] for r in ad.refs])))
    T = len(hist)
    ref = ad.ref.smooth(list(mf), list(vf))
    # resumed in chunks: state = index of the last smoothed posterior and its mean and covariance
    disk = Disk(log)
    fresh = (T - 1, mf[-1], vf[-1])
    state = fresh
    log.ev('smooth')

    def chunk(n):
        nonlocal state
        k, m, v = state
        n = max(c for c in CHUNKS if c <= max(1, min(n, k)))
        lo = k - n
        o = run_smoother(ad, np.concatenate([mf[lo:k], m[None]]), np.concatenate([vf[lo:k], v[None]]))
        for j in range(n + 1):
            ad.compare('smoother', lo + j, (o[0][j], o[1][j]), ref[lo + j])
        state = (lo, o[0][0], o[1][0])
        log.ev('back', lo, o[0][0])

    for op in t['back']:
        if state[0] == 0:
            break
        if op[0] == 'crash':
            log.fault('crash.backward', state[0])
            disk.crash()
            state = disk.recover() or fresh
        elif op[0] == 'ckpt':
            disk.write(pickle.dumps(state), op[1])
        else:
            chunk(op[1])
    while state[0] > 0:
        chunk(4)
    o = run_smoother(ad, mf, vf)
    for k in range(T):
        ad.compare('smoother', k, (o[0][k], o[1][k]), ref[k])
    if b['kind'] == 'kf':
        exact = G.batch_linear(ad.ref.M, hist, smooth=True)
        for k in range(T):
            ad.compare('smoother', k, (o[0][k], o[1][k]), exact[k], 1e-7)
    log.ev('out', o[0], o[1])
