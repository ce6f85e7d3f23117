"""S03: Kalman, extended and sigma-point filters refine the textbook recursion on every delivered history."""
import numpy as np

from vsim import gaussian as G
from vsim.core import Violation
from vsim.stream import Service, gen_stream

RULE = ('one run = one seeded model, measurement history, batch schedule and fault sequence through one Gaussian filter; '
        'non-trivial = at least one fault fired and the history stayed in the domain; distinct by event-log hash')
COMPONENTS = dict(real=['mfs.classical_filters_smoothers.gfs filters', 'mfs.classical_filters_smoothers.quadratures'],
                  stub=['plant, sensor, network, checkpoint disk, crash/restart (simulated)'])
ASSUMPTIONS = ['float64; histories whose reference covariance leaves [1e-7, 1e4] are skipped and counted']
SHRINK_LISTS = ['ops', 'msgs']
LENS = [1, 3]


def buckets(rng, tier):
    return G.gen_buckets(rng, tier, 160 if tier == 'quick' else 1500, 30 if tier == 'quick' else 80)


def gen(rng, b):
    t = gen_stream(rng, b['T'], LENS)
    t.update(model=G.gen_model(rng, b['dx'], b['dy'], b['kind']), plant=rng.getrandbits(32))
    return t


def execute(t, log, cache):
    b = t['bucket']
    ad = G.Adapter(b, t, log, cache)
    hist = Service(t, log, LENS, ad).run()
    _, o = ad.process(ad.init(), hist)
    ad.observe(0, hist, o)
    if b['kind'] == 'kf':
        exact = G.batch_linear(ad.ref.M, hist)
        for k in range(len(hist)):
            ad.compare('filter', k, (o[0][k], o[1][k], o[2][k]), exact[k], 1e-7)
