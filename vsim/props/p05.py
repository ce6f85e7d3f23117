"""P05: every file and field a reader asks for is written by a job the drivers start, and no two jobs write the same file."""
import os
import re
import subprocess

import numpy as np

from vsim import models, pipe, shell
from vsim.core import REPO, Violation

RULE = ('one run = one experiment: the real drivers list their jobs under bash, seeded samples of these jobs (killed and repeated at seeded I/O '
        'events) run as real programs on the simulated disk, and a real reader program reads; non-trivial = a fault fired; distinct by '
        'event-log hash')
COMPONENTS = dict(real=['dardel/run_*.sh under bash with their own run counts', 'all programs of dardel/', 'reproduce_paper_plots/plot_{benes_bernoulli_errs_and_times,'
                        'convergence,parameter_estimation,prey_predator_errs}.py'],
                  stub=['filters and optimiser (instant)', 'figure output', 'disk and process faults',
                        'of a family of jobs that differ in run number and order, two are run; the others\' files follow from their names'])
ASSUMPTIONS = ['jobs that differ only in --k, --st_mc/--ed_mc, --N or the value of --maxmc store the same fields']
SHRINK_LISTS = []
EXP = dict(
    benes=dict(drivers=['run_benes_bernoulli_brute_force.sh', 'run_benes_bernoulli_mf.sh', 'run_benes_bernoulli_ghf_pf.sh',
                        'run_benes_bernoulli_compute_errs.sh', 'run_time_profile.sh'],
               readers=['plot_benes_bernoulli_errs_and_times.py', 'post_processing_brute_force.py', 'post_processing_pf.py', 'post_processing_mf.py', 'compute_errs.py']),
    convergence=dict(drivers=['run_convergence_mf.sh', 'run_convergence_pf.sh'], readers=['plot_convergence.py', 'convergence_pf_post_processing.py']),
    parameter=dict(drivers=['run_parameter_estimation_ghf_ekf.sh', 'run_parameter_estimation_mf.sh', 'run_parameter_estimation_pf.sh',
                            'run_parameter_estimation_pf_cr.sh'], readers=['plot_parameter_estimation.py']),
    prey=dict(drivers=['run_prey_predator_ghf_ekf.sh', 'run_prey_predator_mf.sh', 'run_prey_predator_mf_gpu.sh', 'run_prey_predator_pf.sh',
                       'run_prey_predator_cramer_rao.sh'], readers=['plot_prey_predator_errs.py']))
SM = 3  # run count of scaled-down jobs
# options by which a program tells its results apart: every combination of the first group, neighbours in the second
MODES = ['raw', 'central', 'scaled']
VARIANTS = {
    'benes_bernoulli/mf.py': (dict(mode=MODES, normal=[0, 1]), dict(N=[2, 3]), dict(maxmc=2)),
    'benes_bernoulli/ghf.py': (dict(), dict(gh=[3, 5, 11], tme=[1, 2, 3]), dict(maxmc=2)),
    'benes_bernoulli/pf.py': (dict(), dict(b=[1, 2, 12], m=[5, 21, 2], k=[0, 1, 12, 21]), dict()),
    'benes_bernoulli/brute_force.py': (dict(), dict(k=[0, 1, 11, 10]), dict(ngrids=7)),
    'convergence/convergence_mf.py': (dict(mode=MODES[:2]), dict(N=[2, 3]), dict(maxmc=2)),
    'convergence/convergence_pf.py': (dict(), dict(nparticles=[4, 41, 14], k=[0, 1, 11]), dict()),
    'parameter_estimation/ghf_ekf.py': (dict(euler=[0, 1]), dict(k=[0, 1, 11]), dict(gh=5)),
    'parameter_estimation/mf.py': (dict(euler=[0, 1]), dict(N=[2, 3], k=[0, 1, 11]), dict()),
    'parameter_estimation/pf.py': (dict(euler=[0, 1], cr=[0, 1]), dict(k=[0, 1, 11]), dict(nparticles=4)),
    'prey_predator/ghf_ekf.py': (dict(trans=['euler', 'tme_2', 'tme_3']), dict(), dict(maxmc=2)),
    'prey_predator/mf.py': (dict(trans=['euler', 'tme_normal_2', 'tme_normal_3'], mode=MODES[:2]), dict(N=[2, 3]), dict(st_mc=0, ed_mc=1)),
    'prey_predator/pf.py': (dict(trans=['euler', 'tme_2', 'tme_3']), dict(), dict(st_mc=0, ed_mc=1, nparticles=4)),
    'time_profile/mf.py': (dict(mode=MODES, normal=[0, 1]), dict(N=[2, 3]), dict(maxmc=2)),
    'time_profile/ghf.py': (dict(), dict(gh=[3, 5, 11]), dict(maxmc=2)),
    'time_profile/pf.py': (dict(), dict(nparticles=[4, 41]), dict(maxmc=2))}


def buckets(rng, tier):
    q = tier == 'quick'
    out = []
    for i in range(1 if q else 5):
        for e in EXP:
            for h in ((0, 1) if e == 'benes' else (0,)):
                out.append((dict(exp=e, i=2 * i + h, cost=9 if e == 'benes' else 5 if e == 'prey' else 3), (2 if e in ('benes', 'prey') else 4) * (1 if q else 3)))
        for e, rx in (('benes', r'benes_bernoulli/(?!compute_errs)|time_profile'), ('benes', 'compute_errs.*mode=(raw|scaled)'), ('benes', 'compute_errs.*mode=central'),
                      ('convergence', ''), ('parameter', ''), ('prey', '')):
            out.append((dict(exp=e, i=i, learn=rx, cost=8 if e == 'benes' else 4), 1))
        out += [(dict(exp=exp_of(v), i=i, variants=v, cost=4), 1) for v in VARIANTS]
        out += [(dict(exp=e, i=i, chain=True, cost=4), 2 if q else 6) for e in ('benes', 'convergence')]
    return out


def exp_of(prog):
    return {'time_profile': 'benes', 'benes_bernoulli': 'benes', 'prey_predator': 'prey', 'parameter_estimation': 'parameter'}.get(prog.split('/')[0], 'convergence')


def gen(rng, b):
    base = dict(pick=[rng.randrange(1 << 16) for _ in range(16)], kill=[rng.choice([None, 1, 2, 4, 7]) for _ in range(8)], keys=rng.getrandbits(31), entropy=rng.getrandbits(32))
    if 'variants' in b:
        cat, num, fixed = VARIANTS[b['variants']]
        combos = [dict()]
        for n, vs in cat.items():
            combos = [dict(c, **{n: v}) for c in combos for v in vs]
        at = {n: rng.choice(vs) for n, vs in num.items()}
        combos = [dict(c, **at) for c in combos]
        for n, vs in num.items():
            combos += [dict(rng.choice(combos[:max(1, len(combos))]), **{n: v}) for v in vs if v != at[n]]
        if 'b' in num:
            combos.append(dict(at, b=1, m=21))
            combos.append(dict(at, b=12, m=1))
        combos = [c for i, c in enumerate(combos) if c not in combos[:i]]
        return dict(base, combos=rng.sample(combos, len(combos)), fixed=fixed)
    if 'chain' in b:
        o = dict(b=rng.choice([1, 2, 3]), m=rng.choice([4, 5, 11]), mode=rng.choice(MODES), normal=rng.randrange(2), N=rng.choice([2, 3]), nparticles=rng.choice([4, 6, 14]))
        n = rng.choice(['b', 'm', 'mode', 'normal', 'N'])
        alt = dict(b=[1, 2, 3], m=[4, 5, 11], mode=MODES, normal=[0, 1], N=[2, 3])
        o2 = dict(o, **{n: rng.choice([v for v in alt[n] if v != o[n]])}, nparticles=rng.choice([v for v in [4, 6, 14] if v != o['nparticles']]))
        return dict(base, opts=[o, o2], runs=rng.choice([2, 3]), order=rng.getrandbits(32))
    rd = EXP[b['exp']]['readers']
    if 'learn' in b:
        readers = []
    elif b['exp'] == 'benes' and b['i'] % 2:
        readers = rng.sample(rd[1:], 3)
    else:
        readers = [rd[0]] + rng.sample(rd[1:], min(len(rd) - 1, 2))
    return dict(base, readers=readers, ngroups=rng.choice([1, 2, 3]))


# ------------------------------------------------------------------ what the drivers start
LIST = r'''
python() { printf '%s\t' "$@" >> "$VSIM_OUT"; printf '\n' >> "$VSIM_OUT"; }
python3() { python "$@"; }
rm() { :; }
wait() { :; }
sleep() { :; }
srun() { "$@"; }
sbatch() { :; }
'''


def commands(script, cache):
    """All python commands of a driver with its own run counts (all array tasks)."""
    key = ('cmds', script)
    if key in cache:
        return cache[key]
    path = os.path.join(REPO, 'dardel', script)
    if not os.path.exists(path):
        return []
    with open(path) as f:
        src = f.read()
    arr = re.search(r'(?m)^#SBATCH\s+(?:-a|--array)[ =](\d+)-(\d+)', src)
    flat = re.sub(r'(?m)(?<!&)&[ \t]*$', ';', src)  # run the jobs one after the other
    with pipe.Disk() as disk:
        os.makedirs(os.path.join(disk.root, 'venv/bin'))
        os.symlink(disk.root, os.path.join(disk.root, 'mfs'))
        for p in ('venv/bin/activate', '.bashrc'):
            open(os.path.join(disk.root, p), 'w').close()
        stub, out, fl = (os.path.join(disk.root, x) for x in ('stub.sh', 'out', 'flat.sh'))
        with open(stub, 'w') as f:
            f.write(LIST)
        with open(fl, 'w') as f:
            f.write(flat)
        use = fl if subprocess.run(['/bin/bash', '-n', fl], stderr=subprocess.DEVNULL).returncode == 0 else path
        open(out, 'w').close()
        bin_ = os.path.join(disk.root, 'bin')
        os.makedirs(bin_)
        import shutil
        for t in shell.TOOLS:
            if shutil.which(t):
                os.symlink(shutil.which(t), os.path.join(bin_, t))
        for task in (range(int(arr.group(1)), int(arr.group(2)) + 1) if arr else [None]):
            env = dict(PATH=bin_, HOME=disk.root, WRKDIR=disk.root, BASH_ENV=stub, VSIM_OUT=out, LC_ALL='C')
            if task is not None:
                env['SLURM_ARRAY_TASK_ID'] = str(task)
            subprocess.run(['/bin/bash', use] + (['7'] if 'gpu' in script else []), cwd=disk.dardel, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        with open(out) as f:
            cmds = [ln.rstrip('\n').rstrip('\t').split('\t') for ln in f]
    out = []
    for c in cmds:
        i = next((j for j, x in enumerate(c) if x.endswith('.py')), None)
        if i is not None and c[i] != 'setup.py':
            out.append(['dardel/' + '/'.join(c[i].split('/')[-2:])] + c[i + 1:])
    cache[key] = out
    return out


def split(argv):
    """family of a command and its variable arguments"""
    fam, var = [argv[0]], {}
    for x in argv[1:]:
        m = re.fullmatch(r'--(k|N|st_mc|ed_mc|maxmc)=(-?\d+)', x)
        if m:
            var[m.group(1)] = int(m.group(2))
        else:
            fam.append(x)
    return tuple(fam), var


def runs_of(var):
    """run numbers a command covers"""
    if 'k' in var:
        return [var['k']]
    if 'st_mc' in var and 'ed_mc' in var:
        return list(range(var['st_mc'], var['ed_mc'] + 1))
    return list(range(var['maxmc'])) if 'maxmc' in var else []


def small(fam, var):
    """the same command with few runs"""
    v = dict(var)
    if 'st_mc' in v:
        v['ed_mc'] = min(v['ed_mc'], v['st_mc'] + 1)
    elif 'k' not in v and 'maxmc' in v:
        v['maxmc'] = min(SM, v['maxmc'])
    extra = ['--ngrids=7'] if fam[0].endswith('/brute_force.py') and not any('ngrids' in x for x in fam) else []
    return list(fam) + [f'--{n}={x}' for n, x in v.items()] + extra, v


def patterns(name, k, N):
    """readings of a file name: digit runs that are the run number or the order"""
    parts = re.split(r'(\d+)', name)
    alts = [[p] if i % 2 == 0 else [p] + (['#k'] if k is not None and int(p) == k and str(k) == p else [])
            + (['#N'] if N is not None and str(N) == p else []) for i, p in enumerate(parts)]
    out = ['']
    for a in alts:
        out = [o + x for o in out for x in a]
    return [o for o in out if o.count('#k') <= 1 and o.count('#N') <= 1]


class World:
    """jobs of one experiment, their files, and what is known of them"""

    def __init__(self, t, log, disk, cache):
        self.t, self.log, self.disk, self.cache = t, log, disk, cache
        self.fams, self.order = {}, []
        for d in EXP[t['bucket']['exp']]['drivers']:
            for c in commands(d, cache):
                f, v = split(c)
                if f not in self.fams:
                    self.fams[f] = []
                    self.order.append(f)
                self.fams[f].append(v)
        if not self.order:
            raise Violation('drivers', 'the drivers start no job')
        self.known = {}  # pattern -> (family, content by (k, N))
        self.ran = set()
        self.M = pipe.Machine(disk, log, t['entropy'])
        self.np = 0
        self.depth = 0

    def pick(self, n):
        v = self.t['pick'][self.np % len(self.t['pick'])]
        self.np += 1
        return v % n

    def execute(self, argv, real=False):
        """run a real program (killed first, maybe), return its writes; real: it reads what is on the disk"""
        kill = self.t['kill'][self.pick(len(self.t['kill']))]
        load = self.real_load if real else self.load
        if kill is not None:
            with pipe.attrs((np, 'load', load), (self, 'plot', False)):
                self.M.job(*argv, plan={kill: ['kill', 0]}).run()
        j = self.M.job(*argv)
        with pipe.attrs((np, 'load', load), (self, 'plot', False)):
            st = j.run()
        if st != 0:
            raise Violation('reader' if 'missing' in j.err or st in ('KeyError', 'FileNotFoundError') else 'exception',
                            f"{' '.join(argv)} fails: {st} {j.err}")
        return sorted({w.split('results/', 1)[1] for w in j.writes if 'results/' in w})

    def learn(self, fam):
        """run two members of a family and derive the names of all its files"""
        if fam in self.ran:
            return
        self.ran.add(fam)
        vs = self.fams[fam]
        a = vs[self.pick(len(vs))]
        far = [v for v in vs if v.get('k') != a.get('k') or 'k' not in a] or vs
        far2 = [v for v in far if v.get('N') != a.get('N')] or far
        b = far2[self.pick(len(far2))]
        per = []
        for v in ([a] if a == b else [a, b]):
            argv, sv = small(fam, v)
            ws = self.execute(argv)
            if not ws:
                raise Violation('writer', f"{' '.join(argv)} stores nothing")
            pats = {}
            for w in ws:
                got = self.disk.load(w)
                if got is None:
                    raise Violation('writer', f"{' '.join(argv)}: results/{w} is not a readable archive")
                ks = runs_of(sv)
                for k in (ks or [None]):
                    for p in patterns(w, k, sv.get('N')):
                        pats.setdefault(p, {})[k if '#k' in p else None, sv.get('N') if '#N' in p else None] = (got, w)
            # a pattern with #k has to hold for every run the command covers
            n = len(runs_of(sv))
            per.append((v, {p: c for p, c in pats.items() if '#k' not in p or len(c) == n}, ws))
        common = set(per[0][1]) if len(per) == 1 else set(per[0][1]) & set(per[1][1])
        used = set()
        for p in sorted(common, key=lambda p: (-p.count('#'), p)):
            covers = {w for _, pats, _ in per for _, w in pats[p].values()}
            if covers <= used:
                continue
            used |= covers
            content = {}
            for v, pats, _ in per:
                for key, (got, w) in pats[p].items():
                    content[key] = (got, v)
            if p in self.known and self.known[p][0] != fam:
                self.clash(p, fam)
            self.known.setdefault(p, (fam, content))
        for _, _, ws in per:
            for w in ws:
                if w not in used:
                    raise Violation('names', f'{fam[0]}: the name results/{w} does not follow from the arguments of the job')
        self.unique(fam)

    def clash(self, p, fam):
        o = self.known[p][0]
        a, b = self.files(p, o), self.files(p, fam)
        both = sorted(set(a) & set(b))
        if both:
            raise Violation('overwrite', f"{' '.join(o)} and {' '.join(fam)} both write results/{both[0]}")

    def files(self, p, fam):
        out = []
        for v in self.fams[fam]:
            for k in (runs_of(v) if '#k' in p else [None]):
                out.append(p.replace('#k', str(k)).replace('#N', str(v.get('N'))))
        return out

    def unique(self, fam):
        """different jobs of a family write different files"""
        for p, (f, _) in self.known.items():
            if f == fam:
                seen = {}
                for v in self.fams[fam]:
                    for k in (runs_of(v) if '#k' in p else [None]):
                        nm = p.replace('#k', str(k)).replace('#N', str(v.get('N')))
                        if nm in seen and seen[nm] != v:
                            raise Violation('overwrite', f'{fam[0]}: jobs {seen[nm]} and {v} both write results/{nm}')
                        seen[nm] = v
                self.log.probe('names_checked', len(seen))

    def match(self, rel):
        for p, (fam, content) in self.known.items():
            rx = self.cache.setdefault(('rx', p), re.compile(re.escape(p).replace(r'\#k', r'(?P<k>\d+)').replace(r'\#N', r'(?P<N>\d+)')))
            m = rx.fullmatch(rel)
            if not m:
                continue
            d = m.groupdict()
            k, N = (None if d.get(x) is None else int(d[x]) for x in ('k', 'N'))
            cov = self.cache.get(('cov', fam, '#k' in p, '#N' in p))
            if cov is None:
                cov = {(kk, v.get('N') if '#N' in p else None): v.get('maxmc') for v in self.fams[fam] for kk in (runs_of(v) if '#k' in p else [None])}
                self.cache['cov', fam, '#k' in p, '#N' in p] = cov
            if (k, N) in cov:
                key = (k, N) if (k, N) in content else sorted(content, key=str)[(k or 0) % len(content)]
                return content[key], fam, k
        return None

    def find(self, rel):
        r = self.match(rel)
        if r is None:
            # families that mention most of the name's words first
            words = set(re.split(r'[^a-z0-9]+', rel.replace('.npz', '')))
            for f in sorted([f for f in self.order if f not in self.ran], key=lambda f: -sum(w in ' '.join(f) for w in words)):
                self.learn(f)
                r = self.match(rel)
                if r is not None:
                    break
        return r

    def load(self, file, *a, **kw):
        if not isinstance(file, (str, os.PathLike)) or 'results/' not in os.fspath(file):
            return self.real_load(file, *a, **kw)
        with pipe.host():
            rel = os.fspath(file).split('results/', 1)[1]
            absd = os.path.realpath(os.path.join(os.getcwd(), file))
        if absd != os.path.realpath(self.disk.path(rel)):
            raise FileNotFoundError(2, f'missing: {file} is not in the results folder', str(file))
        if self.depth > 4:
            raise RuntimeError('jobs that need each other')
        self.depth += 1
        try:
            with pipe.host(), pipe.attrs((np, 'load', self.real_load)):
                r = self.find(rel)
        finally:
            self.depth -= 1
        if r is None:
            raise FileNotFoundError(2, f'missing: no job writes results/{rel}', rel)
        (got, v), fam, k = r
        return Archive(rel, got, v if self.plot else None, k)

    real_load = staticmethod(np.load)
    plot = False


class Archive:
    """contents of a result file; for the plots, of full size and finite"""

    def __init__(self, rel, got, var, k):
        self.rel, self.got, self.var, self.k = rel, got, var, k
        self.files = list(got)

    def __getitem__(self, n):
        if n not in self.got:
            raise KeyError(f'missing: {n} in results/{self.rel}, which holds {self.files}')
        x = self.got[n]
        if self.var is None:
            return x
        h = sum(map(ord, self.rel)) % 97
        M = self.var.get('maxmc') if 'k' not in self.var and 'st_mc' not in self.var and '_mc_' not in self.rel else None
        if M is not None and x.ndim and x.shape[0] == min(SM, M) and M > x.shape[0]:
            x = np.resize(x, (M,) + x.shape[1:])
        if x.dtype == bool:
            return np.ones_like(x) if h % 7 else np.zeros_like(x)
        if x.size <= 10 ** 6 or x.ndim < 3:
            x = np.where(np.isfinite(x), x, 1.) + .01 * np.cos(np.arange(x.size) + h).reshape(x.shape)
        return x

    def keys(self):
        return self.files

    def __contains__(self, n):
        return n in self.got

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def quiet_plots():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    no = lambda *a, **k: None
    return [(plt, n, no) for n in ('tight_layout', 'savefig', 'show')] + [(Figure, n, no) for n in ('tight_layout', 'savefig', 'show')]


def solver_sink(fun, init, args, kwargs, ret):
    return ret(np.array([1.1, .9]) + .3 * np.asarray(init, float).ravel()[:2], True)


def argv_of(prog, opts):
    out = ['dardel/' + prog]
    for n, v in opts.items():
        if n in ('normal', 'euler', 'cr'):
            out += [f'--{n}'] if v else []
        else:
            out.append(f'--{n}={v}')
    return out


def variants(W, t, log):
    """jobs of one program that differ in an option it tells results apart by store different files"""
    seen = {}
    for c in t['combos']:
        argv = argv_of(t['bucket']['variants'], dict(c, **t['fixed']))
        ws = W.execute(argv)
        if not ws:
            raise Violation('writer', f"{' '.join(argv)} stores nothing")
        for w in ws:
            if w in seen:
                raise Violation('overwrite', f"{' '.join(seen[w])} and {' '.join(argv)} both write results/{w}")
            seen[w] = argv
            if W.disk.load(w) is None:
                raise Violation('writer', f"{' '.join(argv)}: results/{w} is not a readable archive")
    log.probe('variants', len(t['combos']))


def chain(W, t, log):
    """jobs run with the same options, then their readers with these options; two sets of options"""
    g = np.random.default_rng(t['order'])
    R, done = range(t['runs']), []
    sub = lambda o, *ns: {n: o[n] for n in ns}
    if t['bucket']['exp'] == 'convergence':
        jobs = [('convergence/convergence_pf.py', dict(sub(o, 'nparticles'), k=k)) for o in t['opts'] for k in R]
        read = [('convergence/convergence_pf_post_processing.py', dict(sub(o, 'nparticles'), maxmc=len(R))) for o in t['opts']]
    else:
        D, M = 'benes_bernoulli/', dict(maxmc=len(R))
        jobs = [(D + 'brute_force.py', dict(k=k, ngrids=7)) for k in R] + [(D + 'ghf.py', dict(gh=11, tme=3, **M))]
        for o in t['opts']:
            jobs += [(D + 'pf.py', dict(sub(o, 'b', 'm', 'nparticles'), k=k)) for k in R]
            jobs += [(D + 'mf.py', dict(sub(o, 'mode', 'normal', 'N'), **M))]
        read = []
        for n in ('post_processing_brute_force.py', 'post_processing_pf.py', 'post_processing_mf.py', 'compute_errs.py'):
            for o in t['opts']:
                a = sub(o, 'b', 'm', *(['mode', 'normal', 'N'] if n in ('post_processing_mf.py', 'compute_errs.py') else []))
                read.append((D + n, dict(a, **M)))
    uniq = lambda xs: [x for i, x in enumerate(xs) if x not in xs[:i]]
    for prog, o in [uniq(jobs)[i] for i in g.permutation(len(uniq(jobs)))] + uniq(read):
        if prog.endswith('benes_bernoulli/pf.py') and any(prog == p and dict(o, nparticles=0) == dict(q, nparticles=0) for p, q in done):
            continue  # the name does not tell particle numbers apart
        done.append((prog, o))
        W.execute(argv_of(prog, o), real=True)
    log.probe('chained', len(done))


def execute(t, log, cache):
    import jax
    import jaxopt
    from functools import partial
    import mfs.classical_filters_smoothers, mfs.one_dim.filtering, mfs.multi_dims.filtering, mfs.one_dim.ss_models  # noqa: E401,F401
    import mfs.multi_dims.ss_models, mfs.classical_filters_smoothers.brute_force, mfs.utils, mfs.one_dim.moments  # noqa: E401,F401
    import matplotlib.pyplot as plt
    repl = models.stubs(cap=6)
    repl.update(models.factories(0))
    keys = np.asarray(jax.random.split(jax.random.PRNGKey(t['keys']), 10001))
    with pipe.Disk(keys) as disk, pipe.patched(repl), \
            pipe.attrs((jaxopt, 'ScipyMinimize', partial(models.Solver, solver_sink)), *quiet_plots()):
        W = World(t, log, disk, cache)
        if 'variants' in t['bucket'] or 'chain' in t['bucket']:
            (variants if 'variants' in t['bucket'] else chain)(W, t, log)
            log.simtime = float(log.n)
            return
        # some families of jobs whatever is read
        rest = list(W.order)
        if 'learn' in t['bucket']:
            rest = [f for f in rest if re.search(t['bucket']['learn'], ' '.join(f))]
            while rest:
                W.learn(rest.pop(W.pick(len(rest))))
        for _ in range(min(t['ngroups'], len(rest))):
            W.learn(rest.pop(W.pick(len(rest))))
        for r in t['readers']:
            log.ev('reader', r)
            if r.startswith('plot_'):
                W.plot = True
                j = W.M.job('reproduce_paper_plots/' + r, cwd=disk.plots)
                with pipe.attrs((np, 'load', W.load)):
                    st = j.run()
                plt.close('all')
                W.plot = False
                if st != 0:
                    raise Violation('reader', f'{r} fails on what the jobs store: {st} {j.err}')
            else:
                fams = [f for f in W.order if f[0].endswith('/' + r)]
                if not fams and r == 'post_processing_mf.py':  # no driver runs it: its own defaults of b and m, orders of the mf driver
                    src = [f for f in W.order if f[0].endswith('benes_bernoulli/mf.py')]
                    if src:
                        f = src[W.pick(len(src))]
                        v = W.fams[f][W.pick(len(W.fams[f]))]
                        W.execute(['dardel/benes_bernoulli/' + r, '--b=2', '--m=20', f'--N={v.get("N", 2)}', f'--maxmc={SM}'] + [x for x in f[1:]])
                for f in fams:
                    if W.pick(4) == 0 or len(fams) <= 2:
                        W.learn(f)
            log.probe('readers')
        log.probe('families', len(W.ran))
        log.simtime = float(log.n)
