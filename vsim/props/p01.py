"""P01: whatever the job schedule, the k-th run of every method of an experiment uses the same data, different runs different data."""
import re

import numpy as np

from vsim import models, pipe
from vsim.core import Violation

RULE = ('one run = one experiment campaign: real job programs executed in a seeded order with repetitions, preemption at I/O events, '
        'kills, disk errors and left-over files of an earlier campaign; non-trivial = a fault fired; distinct by event-log hash')
COMPONENTS = dict(real=['dardel/benes_bernoulli/{brute_force,ghf,mf,pf}.py', 'dardel/convergence/convergence_{mf,pf}.py',
                        'dardel/parameter_estimation/*.py', 'dardel/prey_predator/*.py', 'dardel/generate_rng_key.py',
                        'model simulators of mfs'],
                  stub=['filters and optimiser (return values that encode the measurements they were given)',
                        'disk faults, process kills and scheduling (simulated)'])
ASSUMPTIONS = ['jobs are separate processes that share only the disk; preemption happens at I/O events']
SHRINK_LISTS = ['ops', 'jobs', 'stale']
EXPS = ['benes', 'convergence', 'parameter', 'prey']


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(2 if q else 8):
        for e in EXPS:
            out.append((dict(exp=e, i=i, cost=5 if e == 'prey' else 2), (6 if e == 'prey' else 12) * (1 if q else 6)))
    return out


def gen_plan(rng, njobs):
    u = rng.random()
    at = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    if u < .35:
        return {}
    if u < .6:
        return {str(at): ['kill', 0]}
    if u < .7:
        return {str(rng.randint(0, 6)): ['eio', 0]}
    if u < .8:
        return {str(at): ['enospc', 0]}
    return {str(at): ['preempt', rng.randrange(njobs)]}


def gen(rng, b):
    e, jobs = b['exp'], []
    M = rng.choice([1, 2, 3, 5])
    big = [rng.randrange(M, 400) for _ in range(rng.randint(0, 2))]
    ks = list(range(M)) + big
    if e == 'benes':
        for k in ks:
            jobs.append(['dardel/benes_bernoulli/brute_force.py', '--ngrids=7', f'--k={k}', f'--maxmc={M}'])
            jobs.append(['dardel/benes_bernoulli/pf.py', '--m=3', f'--b={rng.choice([2, 5])}', '--nparticles=6', f'--k={k}', f'--maxmc={M}'])
        jobs.append(['dardel/benes_bernoulli/ghf.py', f'--maxmc={M}'] + (['--gh=5'] if rng.chance(.3) else []))
        for _ in range(2):
            jobs.append(['dardel/benes_bernoulli/mf.py', f'--N={rng.randint(2, 4)}', '--mode=' + rng.choice(['raw', 'central', 'scaled']),
                         f'--maxmc={M}'] + (['--normal'] if rng.chance(.5) else []))
    elif e == 'convergence':
        for m in ('raw', 'central'):
            jobs.append(['dardel/convergence/convergence_mf.py', f'--N={rng.randint(2, 4)}', f'--mode={m}', f'--maxmc={M}'])
        ks = list(range(M))
        for k in ks:
            jobs.append(['dardel/convergence/convergence_pf.py', f'--nparticles={rng.choice([4, 6])}', f'--k={k}', f'--maxmc={M}'])
    elif e == 'parameter':
        ks = ks[:2] + big
        eu = ['--euler'] if rng.chance(.4) else []
        p = [f'--p1={rng.choice([1., 3.])}', f'--p2={rng.choice([1., 3.])}']
        for k in ks:
            jobs.append(['dardel/parameter_estimation/ghf_ekf.py', f'--k={k}', '--gh=3'] + p + eu)
            jobs.append(['dardel/parameter_estimation/mf.py', f'--k={k}', f'--N={rng.randint(2, 3)}'] + p + eu)
            jobs.append(['dardel/parameter_estimation/pf.py', f'--k={k}', '--nparticles=6'] + p + eu + (['--cr'] if rng.chance(.5) else []))
    else:
        st = rng.choice([0, 0, rng.randrange(1, 300)])
        ed = st + rng.randint(0, 2)
        ks = list(range(st, ed + 1))
        r = [f'--st_mc={st}', f'--ed_mc={ed}']
        if st == 0:
            jobs.append(['dardel/prey_predator/ghf_ekf.py', '--gh=2', '--trans=' + rng.choice(['euler', 'tme_1']), f'--maxmc={ed + 1}'])
            jobs.append(['dardel/prey_predator/cramer_rao.py', f'--maxmc={ed + 1}'])
        jobs.append(['dardel/prey_predator/mf.py', '--N=2', '--trans=' + rng.choice(['euler', 'tme_1', 'tme_normal_1']), '--mode=central'] + r)
        jobs.append(['dardel/prey_predator/mf.py', '--N=3', '--trans=' + rng.choice(['euler', 'tme_1', 'tme_normal_1']), '--mode=raw'] + r)
        jobs.append(['dardel/prey_predator/pf.py', '--nparticles=6', '--trans=' + rng.choice(['euler', 'tme_1'])] + r)
    ops = [['run', rng.randrange(len(jobs)), gen_plan(rng, len(jobs))] for _ in range(rng.randint(len(jobs) // 2, 2 * len(jobs)))]
    return dict(jobs=jobs, ks=ks, M=M, ops=ops, stale=[rng.randrange(len(jobs)) for _ in range(rng.choice([0, 0, 2]))],
                nan_mask=rng.choice([0, 0, 1, 3]) if e == 'prey' else 0, keys=rng.getrandbits(31), entropy=rng.getrandbits(32),
                genkeys=rng.chance(.1))


def decode(disk, exp, job):
    """{run index: {what: array}} of the data this job's stored results reveal."""
    a = dict(re.fullmatch(r'--(\w+)(?:=(.*))?', x).groups() for x in job[1:])
    nm, out = job[0], {}
    need = lambda rel: must(disk, rel, nm)
    k = int(a['k']) if 'k' in a else None
    if nm.endswith('brute_force.py'):
        d = need(f'benes_bernoulli_brute_force/mc_{k}.npz')
        out[k] = dict(ys=d['ys'] * 1., xs=d['xs'], x0=d['x0'])
    elif nm.endswith('benes_bernoulli/pf.py'):
        out[k] = dict(ys=need(f"benes_bernoulli_pf/b_{a['b']}_m_{a['m']}_mc_{k}.npz")['pf_filtering_means'])
    elif nm.endswith('benes_bernoulli/ghf.py'):
        d = need(f"benes_bernoulli_ghf/gh_{a.get('gh', 11)}_tme_3.npz")['ghf_mfs']
        if len(d) != int(a['maxmc']):
            raise Violation('runs', f"{nm} stored {len(d)} runs, {a['maxmc']} were asked for")
        out = {i: dict(ys=r) for i, r in enumerate(d)}
    elif nm.endswith('benes_bernoulli/mf.py'):
        for i in range(int(a['maxmc'])):
            d = need(f"benes_bernoulli_mf/{a['mode']}{'_normal' if 'normal' in a else ''}_N_{a['N']}_mc_{i}.npz")
            out[i] = dict(ys=d['rmss'][:, 1] if a['mode'] == 'raw' else d['means'])
    elif nm.endswith('convergence_mf.py'):
        d = need(f"convergence/mf_{a['mode']}_N_{a['N']}.npz")
        if len(d['errs_means']) != int(a['maxmc']):
            raise Violation('runs', f"{nm} stored {len(d['errs_means'])} runs, {a['maxmc']} were asked for")
        out = {i: dict(err=r) for i, r in enumerate(d['errs_means'])}
    elif nm.endswith('convergence_pf.py'):
        out[k] = dict(err=need(f"convergence/pf_{a['nparticles']}_mc_{k}.npz")['errs_means'])
    elif nm.endswith('parameter_estimation/ghf_ekf.py'):
        e = '_euler' if 'euler' in a else ''
        g = need(f"parameter_estimation_ghf_ekf/gh_{a['gh']}{e}_mc_{k}.npz")['opt_params']
        x = need(f"parameter_estimation_ghf_ekf/ekf{e}_mc_{k}.npz")['opt_params']
        close('P01', nm, k, 'GHF and EKF data', g, x)
        out[k] = dict(par=g)
    elif nm.endswith('parameter_estimation/mf.py'):
        out[k] = dict(par=need(f"parameter_estimation_mf/N_{a['N']}{'_euler' if 'euler' in a else ''}_mc_{k}.npz")['opt_params'])
    elif nm.endswith('parameter_estimation/pf.py'):
        out[k] = dict(par=need(f"parameter_estimation_pf{'_cr' if 'cr' in a else ''}/{'euler_' if 'euler' in a else ''}mc_{k}.npz")['opt_params'])
    elif nm.endswith('prey_predator/ghf_ekf.py'):
        for i in range(int(a['maxmc'])):
            d = need(f"prey_predator_ghf_ekf/{a['trans']}_mc_{i}.npz")
            close('P01', nm, i, 'GHF and EKF data', d['errs_ghf'], d['errs_ekf'])
            out[i] = dict(errs=d['errs_ghf'])
    elif nm.endswith('prey_predator/mf.py'):
        for i in range(int(a['st_mc']), int(a['ed_mc']) + 1):
            out[i] = dict(errs=need(f"prey_predator_mf/{a['mode']}_{a['trans']}_N_{a['N']}_mc_{i}.npz")['errs'])
    elif nm.endswith('prey_predator/pf.py'):
        for i in range(int(a['st_mc']), int(a['ed_mc']) + 1):
            out[i] = dict(errs=need(f"prey_predator_pf/{a['trans']}_mc_{i}.npz")['errs'])
    elif nm.endswith('cramer_rao.py'):
        d = need('prey_predator_cramer_rao/crlbs.npz')['crlbs']
        out['mean'] = dict(errs=1. / np.stack([np.diag(v) for v in d]) - 1.)
    return out


def must(disk, rel, nm):
    d = disk.load(rel)
    if d is None:
        raise Violation('result', f'{nm} ended successfully but results/{rel} is missing or unreadable')
    return d


def close(prop, nm, k, what, a, b):
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True):
        raise Violation('data', f'{nm} run {k}: {what} differ')


def solver_sink(fun, init, args, kwargs, ret):
    import jax.numpy as jnp
    ys = np.asarray(args[0] if args else list(kwargs.values())[0], float).ravel()
    v = float(fun(jnp.array([.3, -.2]), *args, **kwargs))
    r = float(np.dot(ys, models.weights(len(ys), 2)))
    if not abs(v - r) <= 1e-9 * (1 + abs(r)):
        raise Violation('objective', f'the objective does not filter the measurements it is given ({v} instead of {r})')
    return ret(np.array([np.dot(ys, models.weights(len(ys), j)) for j in (0, 1)]) * .5 + 1., bool(ys.sum() % 2))


def check_keys(M, disk, log):
    got = []
    for _ in range(2):
        j = M.job('dardel/generate_rng_key.py')
        if j.run() != 0:
            raise Violation('exception', f'generate_rng_key.py failed: {j.status} {j.err}')
        got.append(np.load(disk.dardel + '/rng_keys.npy'))
    if got[0].shape != got[1].shape or not np.array_equal(*got):
        raise Violation('keys', 'generate_rng_key.py gives other keys when it is run again')
    if got[0].ndim != 2 or len(got[0]) < 10000 or len(np.unique(got[0], axis=0)) != len(got[0]):
        raise Violation('keys', f'generate_rng_key.py: {len(got[0])} keys, {len(np.unique(got[0], axis=0))} of them distinct')
    log.probe('key_files_checked')


def execute(t, log, cache):
    import jax
    import jaxopt
    import mfs.classical_filters_smoothers  # noqa: F401  (the package re-exports are patched, too)
    from functools import partial
    b = t['bucket']
    keys = np.asarray(jax.random.split(jax.random.PRNGKey(t['keys'] if b['exp'] != 'prey' else 999 + b['i']), 400))
    import mfs.one_dim.filtering, mfs.multi_dims.filtering, mfs.one_dim.ss_models, mfs.multi_dims.ss_models  # noqa: E401,F401
    import mfs.classical_filters_smoothers.brute_force, mfs.utils  # noqa: E401,F401
    repl = models.stubs()
    repl.update(models.factories(t['nan_mask']))
    with pipe.Disk(keys) as disk, pipe.patched(repl), \
            pipe.attrs((jaxopt, 'ScipyMinimize', partial(models.Solver, solver_sink))):
        M = pipe.Machine(disk, log, t['entropy'])
        jobs = t['jobs']
        done, depth = {}, [0]

        def run(j, plan):
            if j >= len(jobs):
                return
            job = M.job(*jobs[j], plan=plan)
            st = job.run()
            if st == 0:
                done[j] = True
                return
            done.pop(j, None)  # a repetition may have torn what an earlier attempt had stored
            if not plan and not (job.full or depth[0]):
                raise Violation('exception', f"{' '.join(jobs[j])} failed without a fault: {st} {job.err}")

        def preempt(j):
            if depth[0] < 2:
                depth[0] += 1
                try:
                    run(j, {})
                finally:
                    depth[0] -= 1
        M.preempt = preempt
        if t['genkeys']:
            check_keys(M, disk, log)
            np.save(disk.dardel + '/rng_keys.npy', keys)
        # left-overs of an earlier campaign with other keys
        for j in t['stale']:
            if j < len(jobs):
                np.save(disk.dardel + '/rng_keys.npy', keys[::-1])
                run(j, {})
                np.save(disk.dardel + '/rng_keys.npy', keys)
                log.fault('disk.stale_results')
        done.clear()
        for _, j, plan in t['ops']:
            run(j, plan)
        for j in range(len(jobs)):
            if j not in done:
                run(j, {})
                if j not in done:
                    raise Violation('progress', f"{' '.join(jobs[j])} does not succeed although faults stopped")
        ref = {}
        for j in range(len(jobs)):
            if jobs[j][0].endswith('cramer_rao.py') and t['nan_mask']:
                continue
            for k, sig in decode(disk, b['exp'], jobs[j]).items():
                for what, v in sig.items():
                    log.ev('data', str(k), what, v)
                    if k == 'mean':
                        ref['mean'] = v
                        continue
                    if not np.all(np.isfinite(v)):
                        raise Violation('data', f'{jobs[j][0]} run {k}: {what} is not finite')
                    if (k, what) in ref:
                        o, ov = ref[k, what]
                        log.probe('compared')
                        if ov.shape != v.shape or not np.allclose(ov, v, rtol=1e-9, atol=1e-9):
                            raise Violation('data', f'run {k}: {jobs[o][0]} and {jobs[j][0]} used different data ({what})',
                                            a=' '.join(jobs[o]), b=' '.join(jobs[j]))
                    else:
                        ref[k, what] = (j, v)
        if 'mean' in ref:
            e = np.mean([ref[k, 'errs'][1][:50] for k in t['ks']], axis=0)
            if not np.allclose(e, ref['mean'], rtol=1e-6, atol=1e-6):
                raise Violation('data', 'cramer_rao.py used other trajectories than the filters')
        for (k, what), (j, v) in ref.items() if 'mean' not in ref else []:
            for (k2, w2), (j2, v2) in ref.items():
                if k2 != k and w2 == what and what != 'x0' and v.shape == v2.shape and np.allclose(v, v2, rtol=1e-9, atol=1e-12):
                    raise Violation('distinct', f'runs {k} and {k2} used the same data ({what}; {jobs[j][0]})')
        log.simtime = float(log.n)
