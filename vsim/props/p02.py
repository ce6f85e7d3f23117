"""P02: post-processing packs every run exactly once and in order, or fails."""
import numpy as np

from vsim import models, pipe
from vsim.core import Violation

RULE = ('one run = raw results of a campaign on the simulated disk (some missing, torn, bit-flipped, empty, of a different campaign '
        'length) and a sequence of real post-processing programs with disk errors and kills; non-trivial = a fault fired; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['dardel/benes_bernoulli/post_processing_{brute_force,mf,pf}.py', 'dardel/benes_bernoulli/compute_errs.py',
                        'dardel/convergence/convergence_pf_post_processing.py', 'mfs characteristic functions'],
                  stub=['raw results (seeded arrays with a different pattern per run)', 'disk and process faults (simulated)'])
ASSUMPTIONS = ['a torn file is a strict prefix or an archive with flipped bits; flips that the archive format does not protect are not made']
SHRINK_LISTS = ['ops', 'faults']
PROGS = ['brute', 'pf', 'mf', 'conv', 'errs']


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(2 if q else 10):
        for p in PROGS:
            out.append((dict(prog=p, i=i, mode=['raw', 'central', 'scaled'][(i + rng.randrange(3)) % 3], cost=3 if p in ('mf', 'errs', 'brute') else 1),
                        (24 if p in ('mf', 'errs') else 40) * (1 if q else 6)))
    return out


def gen(rng, b):
    M = rng.choice([1, 2, 3, 5, 8, 12, 23])
    have = M + rng.choice([0, 0, 0, 3])
    faults = []
    if rng.chance(.5):
        for _ in range(rng.choice([1, 1, 2])):
            faults.append([rng.randrange(M), rng.choice(['missing', 'torn', 'empty', 'flip', 'swap_field'])])
    ops = []
    for _ in range(rng.randint(1, 2)):
        u = rng.random()
        at = rng.choice([0, 1, M, M + 1, M + 2, M + 3, M + 6, rng.randrange(1, M + 12)])
        ops.append({} if u < .55 else {str(at): ['kill' if u < .7 else 'enospc' if u < .85 else 'eio', 0]})
    return dict(M=M, have=have, faults=faults, ops=ops, par=rng.getrandbits(32), entropy=rng.getrandbits(32), m=rng.choice([2, 3, 5]), b=rng.choice([2, 5, 1]),
                N=rng.choice([2, 3]), normal=rng.chance(.5), np_=rng.choice([10, 1000]), T=rng.choice([100, 100, 7]), stale=rng.chance(.3))


def cf_of_moments(rms, zs):
    """characteristic function of the quadrature: sum_i w_i exp(i z x_i), from raw moments via the Hankel eigenproblem (numpy)"""
    n = len(rms) // 2
    H = np.array([[rms[i + j] for j in range(n)] for i in range(n)])
    H1 = np.array([[rms[i + j + 1] for j in range(n)] for i in range(n)])
    L = np.linalg.cholesky(H)
    A = np.linalg.solve(L, np.linalg.solve(L, H1).T)
    x, V = np.linalg.eigh((A + A.T) / 2)
    w = (V[0] * L[0, 0]) ** 2
    return np.sum(w[None, :] * np.exp(1j * zs[:, None] * x[None, :]), axis=1)


def raw_of(nodes, w, order):
    return np.array([np.sum(w * nodes ** p) for p in range(order)])


def make(t, b, T):
    """Raw results: {relative file: arrays}, plus what the packed file has to contain for run k: expect[k]"""
    g = np.random.default_rng(t['par'])
    files, exp = {}, []
    zs = np.linspace(-t['b'], t['b'], t['m'])
    tn = '_normal' if t['normal'] else ''
    for k in range(t['have']):
        if b['prog'] == 'conv':
            d = {n: g.standard_normal(t['T']) for n in ('errs_means', 'errs_variances', 'errs_kls')}
            files[f"convergence/pf_{t['np_']}_mc_{k}.npz"] = d
            exp.append(d)
            continue
        e = {}
        if b['prog'] in ('brute', 'errs'):
            x = np.linspace(-3 + g.random(), 3 + g.random(), 9)
            p = g.random((T, 9)) + .1
            p /= np.trapz(p, x, axis=1)[:, None]
            xs = g.standard_normal(T)
            d = dict(spatial_grids=x, true_pdfs=p, x0=xs[0], xs=xs, ys=g.random(T) < .5)
            e['true_trajs'] = xs
            e['true_filtering_means'] = np.trapz(x * p, x, axis=1)
            e['true_filtering_cfs'] = np.trapz(np.exp(1j * zs[None, :, None] * x) * p[:, None, :], x, axis=2)
            files[f'benes_bernoulli_brute_force/mc_{k}.npz'] = d
        if b['prog'] in ('pf', 'errs'):
            d = dict(pf_filtering_means=g.standard_normal(T), pf_filtering_cfs=g.standard_normal((T, t['m'])) + 1j * g.standard_normal((T, t['m'])))
            files[f"benes_bernoulli_pf/b_{t['b']}_m_{t['m']}_mc_{k}.npz"] = d
            e.update(d)
        if b['prog'] == 'errs':
            e['ghf_mfs'], e['ghf_vfs'] = g.standard_normal(T), g.random(T) + .1
        if b['prog'] in ('mf', 'errs'):
            N = t['N']
            nodes = np.sort(g.standard_normal((T, N + 2)), axis=1) + np.arange(N + 2) * .7
            w = g.random((T, N + 2)) + .2
            w /= w.sum(1)[:, None]
            mean = np.sum(w * nodes, axis=1)
            sc = np.sqrt(np.sum(w * (nodes - mean[:, None]) ** 2, axis=1))
            e['mf_filtering_means'] = mean
            raw = np.array([raw_of(nodes[i], w[i], 2 * N) for i in range(T)])
            e['mf_filtering_cfs'] = np.array([cf_of_moments(r, zs) for r in raw])
            if b['mode'] == 'raw':
                d = dict(rmss=raw)
            elif b['mode'] == 'central':
                d = dict(cmss=np.array([raw_of(nodes[i] - mean[i], w[i], 2 * N) for i in range(T)]), means=mean)
            else:
                d = dict(scmss=np.array([raw_of((nodes[i] - mean[i]) / sc[i], w[i], 2 * N) for i in range(T)]), means=mean, scales=sc)
            d['nell'] = np.asarray(g.random())
            files[f"benes_bernoulli_mf/{b['mode']}{tn}_N_{N}_mc_{k}.npz"] = d
        exp.append(e)
    return files, exp, zs


def program(t, b):
    a = [f"--b={t['b']}", f"--m={t['m']}", f"--maxmc={t['M']}"]
    tn = '_normal' if t['normal'] else ''
    if b['prog'] == 'conv':
        return (['dardel/convergence/convergence_pf_post_processing.py', f"--nparticles={t['np_']}", f"--T={t['T']}", f"--maxmc={t['M']}"],
                f"convergence/pf_{t['np_']}.npz", f"convergence/pf_{t['np_']}_mc_%d.npz")
    if b['prog'] == 'brute':
        return ['dardel/benes_bernoulli/post_processing_brute_force.py'] + a, f"benes_bernoulli_brute_force/b_{t['b']}_m_{t['m']}.npz", 'benes_bernoulli_brute_force/mc_%d.npz'
    if b['prog'] == 'pf':
        return ['dardel/benes_bernoulli/post_processing_pf.py'] + a, f"benes_bernoulli_pf/b_{t['b']}_m_{t['m']}.npz", f"benes_bernoulli_pf/b_{t['b']}_m_{t['m']}_mc_%d.npz"
    mf = [f"--N={t['N']}", f"--mode={b['mode']}"] + (['--normal'] if t['normal'] else [])
    raw = f"benes_bernoulli_mf/{b['mode']}{tn}_N_{t['N']}_mc_%d.npz"
    if b['prog'] == 'mf':
        return ['dardel/benes_bernoulli/post_processing_mf.py'] + a + mf, f"benes_bernoulli_mf/b_{t['b']}_m_{t['m']}_{b['mode']}{tn}_{t['N']}.npz", raw
    return ['dardel/benes_bernoulli/compute_errs.py'] + a + mf, f"benes_bernoulli_errs/errs_b_{t['b']}_m_{t['m']}_{b['mode']}{tn}_N_{t['N']}.npz", raw


def expected(t, b, exp, zs):
    M = t['M']
    st = {k: np.stack([e[k] for e in exp[:M]]) for k in exp[0]}
    if b['prog'] == 'errs':
        return errs_ref(st, zs)
    keep = dict(conv=['errs_means', 'errs_variances', 'errs_kls'], brute=['true_trajs', 'true_filtering_means', 'true_filtering_cfs'],
                pf=['pf_filtering_means', 'pf_filtering_cfs'], mf=['mf_filtering_means', 'mf_filtering_cfs'])[b['prog']]
    return {k: st[k] for k in keep}


def errs_ref(st, zs):
    ghf_cfs = np.exp(1j * zs * st['ghf_mfs'][..., None] - .5 * zs ** 2 * st['ghf_vfs'][..., None])
    mean = dict(mf=st['mf_filtering_means'], ghf=st['ghf_mfs'], pf=st['pf_filtering_means'])
    cfs = dict(mf=st['mf_filtering_cfs'], ghf=ghf_cfs, pf=st['pf_filtering_cfs'])
    out = dict(true_trajs_vs_true_means_abs=np.abs(st['true_trajs'] - st['true_filtering_means']))
    for n in mean:
        out[f'true_trajs_vs_{n}_means_abs'] = np.abs(st['true_trajs'] - mean[n])
        out[f'true_means_vs_{n}_means_abs'] = np.abs(st['true_filtering_means'] - mean[n])
        d = np.abs(st['true_filtering_cfs'] - cfs[n])
        w = np.zeros(len(zs))
        w[:-1] += np.diff(zs) / 2
        w[1:] += np.diff(zs) / 2
        out[f'true_cfs_vs_{n}_l1'] = d @ w
        out[f'true_cfs_vs_{n}_l2'] = np.sqrt(d ** 2 @ w)
        out[f'true_cfs_vs_{n}_sup'] = d.max(-1)
    return out


def compare(got, want, nm, cls='packed'):
    for k, v in want.items():
        if k not in got:
            raise Violation(cls, f'{nm}: the packed file lacks {k}')
        g = got[k]
        if g.shape != v.shape:
            raise Violation(cls, f'{nm}: {k} has shape {g.shape}, {v.shape} expected')
        for i in range(len(v)):
            if not np.allclose(g[i], v[i], rtol=1e-6, atol=1e-7):
                raise Violation(cls, f'{nm}: row {i} of {k} is not the result of run {i}')


def damage(disk, rel, kind, log):
    p = disk.path(rel)
    with open(p, 'rb') as f:
        raw = f.read()
    log.fault('raw.' + kind, rel)
    import os
    if kind == 'missing':
        os.unlink(p)
        return
    if kind == 'swap_field':  # a field is missing in the archive
        with np.load(p) as z:
            d = {k: z[k] for k in z.files}
        d = {('old_' + k): v for k, v in d.items()}
        np.savez_compressed(p, **d)
        return
    if kind == 'torn':
        raw = raw[:len(raw) * 2 // 3]
    elif kind == 'empty':
        raw = b''
    else:  # inside the compressed data of every member (protected by CRC): flip a byte in each
        import zipfile
        out = bytearray(raw)
        with zipfile.ZipFile(p) as z:
            for i in z.infolist():
                o = i.header_offset + 30 + len(i.filename.encode())
                extra = int.from_bytes(raw[i.header_offset + 28:i.header_offset + 30], 'little')
                out[o + extra + i.compress_size // 2] ^= 0x41
        raw = bytes(out)
    with open(p, 'wb') as f:
        f.write(raw)


def execute(t, log, cache):
    import mfs.one_dim.ss_models as ssm
    import mfs.one_dim.moments  # noqa: F401
    b = t['bucket']
    fac = models.factories()
    T = ssm.benes_bernoulli(2)[1]
    files, exp, zs = make(t, b, T)
    argv, packed, rawpat = program(t, b)
    with pipe.Disk() as disk, pipe.patched(fac):
        for rel, d in files.items():
            np.savez_compressed(disk.path(rel), **d)
        if b['prog'] == 'errs':  # the inputs besides the moment filter's are packed files
            M = t['M']
            st = {k: np.stack([e[k] for e in exp[:M]]) for k in exp[0]}
            np.savez_compressed(disk.path(f"benes_bernoulli_brute_force/b_{t['b']}_m_{t['m']}.npz"), **{k: v for k, v in st.items() if k.startswith('true')})
            np.savez_compressed(disk.path(f"benes_bernoulli_pf/b_{t['b']}_m_{t['m']}.npz"), **{k: v for k, v in st.items() if k.startswith('pf')})
            np.savez_compressed(disk.path('benes_bernoulli_ghf/gh_11_tme_3.npz'), ghf_mfs=st['ghf_mfs'], ghf_vfs=st['ghf_vfs'])
        want = expected(t, b, exp, zs)
        if t['stale']:
            np.savez_compressed(disk.path(packed), **{k: v[:1] * 0 for k, v in want.items()})
            log.fault('disk.stale_results')
        hurt = set()
        for k, kind in t['faults']:
            if (k, ) not in hurt and disk.load(rawpat % k) is not None:
                damage(disk, rawpat % k, kind, log)
                hurt.add((k,))
        M = pipe.Machine(disk, log, t['entropy'])
        before = snapshot(disk, packed)
        for n, plan in enumerate(list(t['ops']) + [{}]):
            job = M.job(*argv, plan=plan)
            st = job.run()
            nm = argv[0]
            if snapshot(disk, packed) != before:
                raise Violation('raw', f'{nm} changed or removed raw results')
            if st == 0 and hurt:
                got = disk.load(packed)
                raise Violation('packed', f'{nm} ended successfully although the results of runs {sorted(k for k, in hurt)} are damaged'
                                + (f", and stored rows {[v.shape[0] for v in got.values()]}" if got else ''))
            if st == 0:
                got = disk.load(packed)
                if got is None:
                    raise Violation('packed', f'{nm} ended successfully but results/{packed} is missing or unreadable')
                compare(got, want, nm)
                log.probe('packed')
                log.ev('packed', *[got[k] for k in sorted(want)])
            elif not plan and not hurt:
                raise Violation('exception', f"{' '.join(argv)} failed without a fault: {st} {job.err}")
            else:
                log.probe('refused')
        if hurt:
            # repair: the damaged jobs are run again
            for (k,) in hurt:
                np.savez_compressed(disk.path(rawpat % k), **files[rawpat % k])
            job = M.job(*argv)
            if job.run() != 0:
                raise Violation('progress', f'{argv[0]} fails although all results are there again: {job.status} {job.err}')
            compare(disk.load(packed) or {}, want, argv[0])
        log.simtime = float(log.n)


def snapshot(disk, packed):
    out = {}
    for f in disk.files():
        if f != packed and '_mc_' in f or '/mc_' in f:
            with open(disk.path(f), 'rb') as h:
                out[f] = pipe.fingerprint(np.frombuffer(h.read(), np.uint8))
    return out
