"""P03: the drivers delete raw results only when they are packed, and wait for every job they start."""
import os
import re

import numpy as np

from vsim import models, pipe, shell
from vsim.core import Rng, Skip, Violation
from vsim.props import p02

RULE = ('one run = one or more real driver scripts under bash on a simulated cluster: seeded order of job start, job completion, waits and '
        'removals, preempted post-processing, crashed and killed jobs, torn results, full disk, killed driver, then a run without faults; '
        'non-trivial = a fault fired; distinct by event-log hash')
COMPONENTS = dict(real=['dardel/run_*.sh under bash (run counts edited as the README tells users)', 'dardel post-processing programs'],
                  stub=['filtering jobs (write a result of the right form after a torn one)', 'Slurm, scheduler, rm, disk and process faults'])
ASSUMPTIONS = ['Slurm kills what is left of a driver when its script ends', 'between two commands a script has no effect another process sees']
SHRINK_LISTS = ['sched', 'jobf', 'ppf', 'drivers']
PACK = ['run_benes_bernoulli_brute_force.sh', 'run_benes_bernoulli_ghf_pf.sh', 'run_convergence_pf.sh']


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(2 if q else 10):
        for d in PACK:
            out.append((dict(kind=d, i=i, cost=3), 14 if q else 60))
        out.append((dict(kind='mixed', i=i, cost=4), 8 if q else 40))
    out.append((dict(kind='all', i=0, cost=9), 2 if q else 20))
    return out


def scripts():
    from vsim.core import REPO
    return sorted(f for f in os.listdir(os.path.join(REPO, 'dardel')) if f.startswith('run_') and f.endswith('.sh') and f != 'run_all.sh')


def gen(rng, b):
    if b['kind'] == 'all':
        ds = ['run_all.sh']
    elif b['kind'] == 'mixed':
        ds = rng.sample(scripts(), min(rng.choice([1, 2, 3]), len(scripts())))
    else:
        ds = [b['kind']]
    P, S = rng.choice([(1, 1), (2, 2), (3, 1), (1, 3), (2, 1), (3, 2)])
    n = P * S * 4 + 6
    u = rng.random()
    t = dict(drivers=ds, P=P, S=S, sched=[rng.randrange(1 << 16) for _ in range(64)], array=[0, rng.randrange(1, 100)], N=rng.choice([6, 7]),
             jobf=[[rng.randrange(2 * P * S), rng.choice(['fail', 'torn', 'exit'])] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
             ppf=[[rng.randrange(3), rng.choice([0, 1, P * S - 1, P * S, P * S + 1, P * S + 3, rng.randrange(0, P * S + 8)]),
                   rng.choice(['kill', 'enospc', 'eio'])] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
             kill=rng.randrange(1, 2 * n) if u < .4 else None, full=[rng.randrange(2 * n), rng.randrange(1, n)] if u > .8 else None,
             preempt=[[rng.randrange(3), rng.randrange(0, P * S + 4), rng.randint(1, 4)] for _ in range(rng.choice([0, 1, 2]))],
             par=rng.getrandbits(32), entropy=rng.getrandbits(32))
    return t


def args_of(argv):
    return dict((m.group(1), m.group(2)) for m in (re.fullmatch(r'--(\w+)(?:=(.*))?', x) for x in argv) if m)


def outputs(argv):
    """result files of a job, by the naming of the real programs: {relative file: (p02 program, b, m, k) or None}"""
    p, a = '/'.join(argv[0].split('/')[-2:]), args_of(argv)
    k = a.get('k')
    eu = '_euler' if 'euler' in a else ''
    tn = '_normal' if 'normal' in a else ''
    R = range(int(a.get('st_mc', 0)), int(a.get('ed_mc', 0)) + 1)
    M = range(int(a.get('maxmc') or 1))
    if p == 'benes_bernoulli/brute_force.py':
        return {f'benes_bernoulli_brute_force/mc_{k}.npz': ('brute', 2, 5, int(k))}
    if p == 'benes_bernoulli/pf.py':
        return {f"benes_bernoulli_pf/b_{a['b']}_m_{a['m']}_mc_{k}.npz": ('pf', a['b'], a['m'], int(k))}
    if p == 'convergence/convergence_pf.py':
        return {f"convergence/pf_{a['nparticles']}_mc_{k}.npz": ('conv', a['nparticles'], 0, int(k))}
    fs = {'benes_bernoulli/ghf.py': lambda: [f"benes_bernoulli_ghf/gh_{a['gh']}_tme_{a['tme']}.npz"],
          'benes_bernoulli/mf.py': lambda: [f"benes_bernoulli_mf/{a['mode']}{tn}_N_{a['N']}_mc_{i}.npz" for i in M],
          'benes_bernoulli/compute_errs.py': lambda: [f"benes_bernoulli_errs/errs_b_{a['b']}_m_{a['m']}_{a['mode']}{tn}_N_{a['N']}.npz"],
          'convergence/convergence_mf.py': lambda: [f"convergence/mf_{a['mode']}_N_{a['N']}.npz"],
          'parameter_estimation/ghf_ekf.py': lambda: [f'parameter_estimation_ghf_ekf/gh_11{eu}_mc_{k}.npz', f'parameter_estimation_ghf_ekf/ekf{eu}_mc_{k}.npz'],
          'parameter_estimation/mf.py': lambda: [f"parameter_estimation_mf/N_{a['N']}{eu}_mc_{k}.npz"],
          'parameter_estimation/pf.py': lambda: [f"parameter_estimation_pf{'_cr' if 'cr' in a else ''}/mc_{k}.npz"],
          'prey_predator/ghf_ekf.py': lambda: [f"prey_predator_ghf_ekf/{a['trans']}_mc_{i}.npz" for i in M],
          'prey_predator/mf.py': lambda: [f"prey_predator_mf/{a['mode']}_{a['trans']}_N_{a['N']}_mc_{i}.npz" for i in R],
          'prey_predator/pf.py': lambda: [f"prey_predator_pf/{a['trans']}_mc_{i}.npz" for i in R],
          'prey_predator/cramer_rao.py': lambda: ['prey_predator_cramer_rao/crlbs.npz'],
          'time_profile/mf.py': lambda: [f"times/mf_{a['mode']}_N_{a['N']}.npz"],
          'time_profile/ghf.py': lambda: [f"times/ghf_{a['gh']}.npz"],
          'time_profile/pf.py': lambda: [f"times/pf_{a['nparticles']}.npz"]}
    return {f: None for f in fs[p]()} if p in fs else {}


def pack_of(argv):
    """(program, packed file, raw pattern, b, m, maxmc) of a post-processing command, or None"""
    p, a = argv[0].split('/')[-1], args_of(argv)
    M = int(a.get('maxmc', 1000))
    if p == 'post_processing_brute_force.py':
        return 'brute', f"benes_bernoulli_brute_force/b_{a['b']}_m_{a['m']}.npz", 'benes_bernoulli_brute_force/mc_%d.npz', a['b'], a['m'], M
    if p == 'post_processing_pf.py':
        return 'pf', f"benes_bernoulli_pf/b_{a['b']}_m_{a['m']}.npz", f"benes_bernoulli_pf/b_{a['b']}_m_{a['m']}_mc_%d.npz", a['b'], a['m'], M
    if p == 'convergence_pf_post_processing.py':
        return 'conv', f"convergence/pf_{a['nparticles']}.npz", f"convergence/pf_{a['nparticles']}_mc_%d.npz", a['nparticles'], 0, M
    return None


class Data:
    """contents of raw results and what a packed row has to be"""

    def __init__(self, t, T, n):
        self.t, self.T, self.n, self.memo = t, T, n, {}

    def get(self, prog, b, m):
        key = (prog, str(b), str(m))
        if key not in self.memo:
            tt = dict(par=self.t['par'], have=self.n, M=self.n, b=int(b) if prog != 'conv' else 2, m=int(m), normal=False, N=2, np_=b, T=100)
            files, exp, zs = p02.make(tt, dict(prog=prog, mode='raw'), self.T)
            self.memo[key] = (files, p02.expected(tt, dict(prog=prog, mode='raw'), exp, zs))
        return self.memo[key]


class Cluster:
    def __init__(self, t, log, disk, data, clean, dry=False):
        self.t, self.log, self.disk, self.data, self.clean, self.dry = t, log, disk, data, clean, dry
        self.ctl = shell.Ctl(disk, log) if not hasattr(disk, 'ctl') else disk.ctl
        disk.ctl = self.ctl
        self.ctl.procs.clear()
        self.n, self.si = 0, 0
        self.nj, self.npp = 0, 0
        self.started, self.running = {}, set()
        self.pps, self.completed, self.unfinished, self.ended = [], {}, [], set()
        self.needed = None
        self.jobst = []
        self.depth = 0

    def choose(self, n):
        if self.dry or not self.t['sched']:
            return 0
        v = self.t['sched'][self.si % len(self.t['sched'])]
        self.si += 1
        return v % n

    def launch(self, name, task=None, extra=()):
        tag = name if task is None else f'{name}#{task}'
        src = os.path.join(self.disk.dardel, name)
        self.ctl.start(tag, src, extra, {} if task is None else dict(SLURM_ARRAY_TASK_ID=str(task)))

    def submit(self, name, args=()):
        with open(os.path.join(self.disk.dardel, name)) as f:
            arr = re.search(r'(?m)^#SBATCH\s+(?:-a|--array)[ =](\d+)-(\d+)', f.read())
        if arr:
            lo, hi = int(arr.group(1)), int(arr.group(2))
            for k in sorted({lo + (i % (hi - lo + 1)) for i in self.t['array']}):
                self.launch(name, k, args)
        else:
            self.launch(name, None, args)

    def run(self, names):
        for nm in names:
            self.submit(nm, [str(self.t['N'])] if nm.endswith('_gpu.sh') else [])
        try:
            while self.step(set()):
                pass
        finally:
            for t in list(self.ctl.procs):
                self.ctl.kill(t)

    def full(self):
        f = self.t['full']
        return not self.clean and f is not None and f[0] <= self.n < f[0] + f[1]

    def step(self, busy):
        """serve one request; False if nothing is left to do"""
        pend = self.ctl.quiesce()
        # a driver whose script has ended: Slurm kills the rest
        for tag in sorted(self.ctl.procs):
            if tag not in self.ended and self.ctl.finished(tag):
                left = [v[3] for q, v in pend if v[1] == tag]
                self.ended.add(tag)
                self.log.ev('driver.end', tag, len(left))
                if left:
                    self.unfinished += [(tag, ' '.join(a)) for a in left]
                    self.ctl.kill(tag)
                    return True
        opts = []
        for q, (c, tag, cwd, argv) in pend:
            if q in busy or q in self.running:
                continue
            if argv[0] == 'wait':
                ps = [int(x) for x in argv[2:]]
                fin = [self.ctl.gone(x) for x in ps]
                if ps and not (all(fin) if argv[1] == 'all' else any(fin)):
                    continue
            opts.append((q, tag, cwd, argv))
        if not opts:
            return False
        self.n += 1
        if not self.clean and self.t['kill'] == self.n:
            tag = opts[self.choose(len(opts))][1]
            if not any(self.ctl.pending[q][1] == tag for q in self.running):
                self.log.fault('driver.kill', tag)
                self.ctl.kill(tag)
                self.ended.add(tag)
                self.invariant('the driver was killed')
                return True
        self.serve(*opts[self.choose(len(opts))])
        return True

    def serve(self, q, tag, cwd, argv):
        kind, a = argv[0], argv[1:]
        ctl, log = self.ctl, self.log
        if kind == 'wait':
            log.ev('wait', tag)
            ctl.reply(q, 0)
        elif kind == 'sleep':
            log.ev('sleep', tag)
            ctl.reply(q, 0)
        elif kind == 'sbatch':
            a = [x for x in a if not x.startswith('-')]
            nm = a[0].split('/')[-1]
            log.ev('sbatch', nm)
            self.submit(nm, a[1:])
            ctl.reply(q, 0)
        elif kind == 'rm':
            st, out = shell.rm(self.disk, cwd, a)
            log.ev('rm', tag, *sorted(out)[:8], len(out))
            self.invariant(f"{tag}: rm {' '.join(a)[:200]}", q)
            ctl.reply(q, st)
        elif kind == 'python':
            i = next((j for j, x in enumerate(a) if x.endswith('.py')), None)
            if i is None or a[i].split('/')[-1] == 'setup.py':
                ctl.reply(q, 0)
                return
            a = a[i:]
            if pack_of(a) and not self.dry:
                self.pp(q, tag, cwd, a)
            else:
                self.job(q, tag, a)

    def job(self, q, tag, a):
        pk = pack_of(a)
        if pk:  # dry run: learn which packs a driver makes
            self.pps.append(a)
            self.ctl.reply(q, 0)
            return
        outs = outputs(a)
        self.log.ev('job.start' if q not in self.started else 'job.end', ' '.join(a))
        if q not in self.started:
            i, self.nj = self.nj, self.nj + 1
            f = None if self.clean else next((k for j, k in self.t['jobf'] if j == i), None)
            if self.full():
                f = 'enospc'
            if f == 'fail':
                self.log.fault('job.fail')
                self.ctl.reply(q, 1)
                return
            self.started[q] = (a, f)
            for rel in outs:
                self.completed.pop(rel, None)
                self.write(rel, self.content(rel, outs[rel])[:60])
            if self.dry:
                self.finish(q, a, outs)
            return
        f = self.started[q][1]
        if f in ('torn', 'enospc', 'exit'):
            self.log.fault({'torn': 'job.kill', 'enospc': 'disk.enospc', 'exit': 'job.error'}[f])
            if f == 'exit':  # an error after some results
                for rel in list(outs)[:len(outs) // 2]:
                    self.write(rel, self.content(rel, outs[rel]))
            self.started.pop(q)
            self.ctl.reply(q, 137 if f == 'torn' else 1)
            return
        self.finish(q, a, outs)

    def finish(self, q, a, outs):
        for rel in outs:
            c = self.content(rel, outs[rel])
            self.write(rel, c)
            self.completed[rel] = c
        self.started.pop(q, None)
        self.jobst.append(a)
        self.ctl.reply(q, 0)

    def content(self, rel, what):
        if what is None:
            return ('result ' * 12 + rel).encode()
        prog, b, m, k = what
        files = self.data.get(prog, b, m)[0]
        key = ('bytes', rel)
        if key not in self.data.memo:
            import io
            f = io.BytesIO()
            np.savez_compressed(f, **files[rel])
            self.data.memo[key] = f.getvalue()
        return self.data.memo[key]

    def write(self, rel, c):
        p = self.disk.path(rel)
        if not os.path.isdir(os.path.dirname(p)):
            raise Violation('folder', f'no driver made the folder of {rel}')
        with open(p, 'wb') as f:
            f.write(c)

    def pp(self, q, tag, cwd, a):
        i, self.npp = self.npp, self.npp + 1
        plan = {}
        if not self.clean:
            for j, at, kind in self.t['ppf']:
                if j == i:
                    plan[at] = [kind, 0]
        for j, at, n in self.t['preempt']:
            if j == i and at not in plan:
                plan[at] = ['preempt', n]
        if self.full():
            plan.update({e: ['enospc', 0] for e in range(400) if e not in plan})
        M = pipe.Machine(self.disk, self.log, self.t['entropy'])

        def preempt(n):
            if self.depth >= 2:
                return
            self.depth += 1
            try:
                with pipe.host():
                    for _ in range(n):
                        self.step({q})
            finally:
                self.depth -= 1
        M.preempt = preempt
        self.running.add(q)
        try:
            job = M.job(os.path.join('dardel', '/'.join(a[0].split('/')[-2:])), *a[1:], plan=plan, cwd=self.disk.dardel)
            st = job.run()
        finally:
            self.running.discard(q)
        self.log.ev('pp.end', ' '.join(a), str(st))
        self.jobst.append(a) if st == 0 else None
        self.ppst = getattr(self, 'ppst', {})
        self.ppst[' '.join(a)] = (st, job.err)
        self.invariant(f"post-processing ({' '.join(a)}) ended with {st}", q)
        if q in self.ctl.pending:
            self.ctl.reply(q, 0 if st == 0 else 137 if st == 'killed' else 1)

    def packed(self, a):
        """rows of the pack that are the right ones"""
        prog, rel, pat, b, m, M = pack_of(a)
        got = self.disk.load(rel)
        want = self.data.get(prog, b, m)[1]
        if got is None:
            return set()
        ok = None
        for n, w in want.items():
            g = got.get(n)
            if g is None or g.ndim != w.ndim or g.shape[1:] != w.shape[1:]:
                return set()
            rows = {k for k in range(min(len(g), len(w))) if np.allclose(g[k], w[k], rtol=1e-6, atol=1e-7)}
            ok = rows if ok is None else ok & rows
        return ok

    def invariant(self, when, q=None):
        if self.needed is None:
            return
        lost = []
        for rel, c in self.completed.items():
            try:
                with open(self.disk.path(rel), 'rb') as f:
                    if f.read() == c:
                        continue
            except OSError:
                pass
            lost.append(rel)
        if not lost:
            return
        rows = {}
        for rel in lost:
            packs = []
            for a in self.needed:
                prog, prel, pat, b, m, M = pack_of(a)
                mm = re.fullmatch(re.escape(pat).replace('%d', r'(\d+)'), rel)
                if mm:
                    packs.append((a, int(mm.group(1))))
            for a, k in packs:
                key = ' '.join(a)
                if key not in rows:
                    rows[key] = self.packed(a)
            miss = [pack_of(a)[1] for a, k in packs if k not in rows[' '.join(a)]]
            if miss or not packs:
                raise Violation('lost', f"after {when}: results/{rel} is gone or damaged although it is not in "
                                        + (', '.join('results/' + x for x in miss) if miss else 'any packed file'))
            self.log.probe('removed_when_packed')


def prepare(t, disk):
    from vsim.core import REPO
    vals = dict(PARALLEL_MAX=t['P'], SEQUENTIAL_MAX=t['S'], SEQUENTIAL_RUNS=2, MAXMC=t['P'] * t['S'])
    small = True
    for f in os.listdir(os.path.join(REPO, 'dardel')):
        if f.endswith('.sh'):
            with open(os.path.join(REPO, 'dardel', f)) as h:
                s, ok = shell.scaled(h.read(), vals)
            if f in PACK and not (ok['PARALLEL_MAX'] and ok['SEQUENTIAL_MAX']):
                small = False
            with open(os.path.join(disk.dardel, f), 'w') as h:
                h.write(s)
    return small


def execute(t, log, cache):
    import shutil
    import mfs.one_dim.ss_models as ssm
    import mfs.one_dim.moments  # noqa: F401
    fac = models.factories()
    with pipe.patched(fac):
        T = ssm.benes_bernoulli(2)[1]

        def disk_():
            d = pipe.Disk()
            shutil.rmtree(d.path(''))
            os.makedirs(d.path(''))
            os.chmod(d.root, 0o755)
            return d
        names = [d for d in t['drivers']]
        with disk_() as disk:
            small = prepare(t, disk)
            if not small:
                cache['full'] = cache.get('full', 0) + 1
                if cache['full'] > 2:
                    raise Skip('driver cannot be scaled down')
        n = t['P'] * t['S'] if small else 10000
        data = Data(t, T, n)
        # dry run: which packs do these drivers make
        key = ('dry', tuple(names), t['P'], t['S'])
        if key not in cache:
            with disk_() as disk:
                prepare(t, disk)
                quiet = type(log)()
                c = Cluster(t, quiet, disk, data, clean=True, dry=True)
                try:
                    c.run(names)
                finally:
                    c.ctl.close()
                cache[key] = c.pps
        needed = cache[key]
        with disk_() as disk:
            prepare(t, disk)
            c = Cluster(t, log, disk, data, clean=False)
            try:
                c.needed = needed
                c.run(names)
                c.invariant('the drivers ended')
                faulty = bool(log.faults)
                completed = c.completed
                log.ev('rerun')
                c = Cluster(t, log, disk, data, clean=True)
                c.needed, c.completed = needed, completed
                c.run(names)
                c.invariant('the drivers ended')
            finally:
                disk.ctl.close()
            if c.unfinished:
                raise Violation('wait', f'driver {c.unfinished[0][0]} ended before {len(c.unfinished)} of its jobs had completed, e.g. {c.unfinished[0][1]}')
            for a in needed:
                st = c.ppst.get(' '.join(a)) if hasattr(c, 'ppst') else None
                if st is None or st[0] != 0:
                    raise Violation('progress', f"without faults, {' '.join(a)} " + ('was not run' if st is None else f'failed: {st[0]} {st[1]}'))
                have = c.packed(a)
                if have != set(range(n)):
                    raise Violation('progress', f"without faults, results/{pack_of(a)[1]} lacks runs {sorted(set(range(n)) - have)[:5]}")
            log.probe('packs', len(needed))
            log.probe('faulty_runs', int(faulty))
        log.simtime = float(log.n)
