"""Core of the simulator: seeded choice, traces, fault accounting, worker pool, minimiser, evidence, replay.

Terminology
  bucket   one static configuration of the system under test (what has to be compiled once)
  trace    the complete, JSON-able list of decisions of one simulated run: configuration values, workload, schedule and
           faults.  It is drawn from one seed *before* the run; executing a trace is a pure function of trace and code.
  log      the sequence of events of an executed run; its hash is the determinism witness.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property is broken."""

    def __init__(self, cls, msg, **detail):
        super().__init__(f'{cls}: {msg}')
        self.cls, self.msg, self.detail = cls, msg, detail


class Skip(Exception):
    """The run left the domain of the property (e.g. hopeless conditioning). Counted, never silent."""


class Rng(random.Random):
    """Seeded from a tuple of ints/strings; independent streams for independent purposes."""

    def __init__(self, *parts):
        h = hashlib.sha256(repr(tuple(parts)).encode()).digest()
        super().__init__(int.from_bytes(h[:16], 'big'))

    def chance(self, p):
        return self.random() < p

    def normal(self, m=0., s=1.):
        return self.gauss(m, s)

    def np(self):
        import numpy as np
        return np.random.default_rng(self.getrandbits(64))


class Log:
    """Event log of a run. Nothing here draws randomness or reads a real clock."""

    def __init__(self, keep=400):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.head = []
        self.sig = hashlib.sha256()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.

    def ev(self, kind, *args):
        """An event of the schedule (enters the interleaving signature by kind)."""
        self.n += 1
        self.h.update(kind.encode())
        for a in args:
            self.h.update(_bits(a))
        self.sig.update(kind.encode() + b'|')
        if len(self.head) < self.keep:
            self.head.append([kind] + [_short(a) for a in args])

    def fault(self, kind, *args):
        self.faults[kind] += 1
        self.ev('fault:' + kind, *args)

    def probe(self, kind, n=1):
        self.probes[kind] += n


def _bits(a):
    if a is None:
        return b'-'
    if isinstance(a, bool):
        return b'T' if a else b'F'
    if isinstance(a, int):
        return str(a).encode()
    if isinstance(a, float):
        return struct.pack('<d', a)
    if isinstance(a, str):
        return a.encode()
    if isinstance(a, bytes):
        return a
    if isinstance(a, (list, tuple)):
        return b'[' + b','.join(_bits(x) for x in a) + b']'
    import numpy as np
    return np.ascontiguousarray(np.asarray(a)).tobytes()


def _short(a):
    if a is None or isinstance(a, (bool, int, str)):
        return a
    if isinstance(a, float):
        return float('%.6g' % a)
    if isinstance(a, (list, tuple)):
        return [_short(x) for x in a][:12]
    try:
        import numpy as np
        v = np.asarray(a)
        return [float('%.6g' % x) for x in v.ravel()[:6].astype(float)]
    except Exception:
        return str(a)[:40]


def sut(fn, *args, what='call', **kw):
    """Call the system under test; an exception it raises is an observation about it, not a harness error."""
    try:
        return fn(*args, **kw)
    except (Violation, Skip, KeyboardInterrupt):
        raise
    except Exception as e:
        raise Violation('exception', f'{what} raised {type(e).__name__}: {str(e)[:300]}',
                        where=traceback.format_exc().strip().splitlines()[-6:])


def setup_jax():
    import warnings
    warnings.filterwarnings('ignore')
    import jax
    jax.config.update('jax_enable_x64', True)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return jax


# ------------------------------------------------------------------------------------------ running one trace
def run_trace(mod, trace, cache):
    log = Log()
    viol, skip = None, None
    try:
        mod.execute(trace, log, cache)
    except Violation as v:
        viol = dict(cls=v.cls, msg=v.msg, detail={k: str(x)[:2000] for k, x in v.detail.items()})
        log.ev('violation', v.cls)
    except Skip as s:
        skip = str(s) or 'skip'
        log.ev('skip', skip)
    except Exception as e:
        # raised while the code under test was running: an observation about it; anything else is a harness error
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith((REPO + '/mfs/', REPO + '/dardel/')) for f in frames):
            raise
        viol = dict(cls='exception', msg=f'{type(e).__name__}: {str(e)[:300]}', detail=dict(where=str(frames[-4:])))
        log.ev('violation', 'exception')
    return dict(viol=viol, skip=skip, hash=log.h.hexdigest()[:16], sig=log.sig.hexdigest()[:16], n=log.n,
                faults=dict(log.faults), probes=dict(log.probes), simtime=log.simtime, head=log.head)


def load(prop):
    return importlib.import_module('vsim.props.' + prop.lower())


_WORK = {}


def _init_worker(prop, repo):
    global REPO
    REPO = repo
    sys.path.insert(0, VERIF)
    _WORK['prop'] = prop


def _work(job):
    """Run one bucket: all its traces. Returns a list of per-run results."""
    prop, bid, bucket, seeds, deadline = job
    try:
        mod = load(prop)
        setup_jax() if getattr(mod, 'NEEDS_JAX', True) else None
        cache = {}
        out = []
        for rid, s in enumerate(seeds):
            if time.time() > deadline:
                break
            trace = mod.gen(Rng(*s), dict(bucket, rid=rid))
            trace['bucket'] = bucket
            trace['seed'] = list(s)
            r = run_trace(mod, trace, cache)
            r['bid'], r['rid'], r['seed'] = bid, rid, list(s)
            if r['viol']:
                r['trace'] = trace
            elif rid == 0 and bid < 3:
                r['trace'] = trace
            if not r['viol'] and rid != 0:
                r.pop('head')
            out.append(r)
            if r['viol'] and not is_known(prop, r['viol']):
                break
        if getattr(mod, 'NEEDS_JAX', True):
            import jax
            jax.clear_caches()
        return bid, out, None
    except BaseException:
        return bid, [], traceback.format_exc()


# ------------------------------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e.get('status') == 'known']


def is_known(prop, viol):
    for e in known_findings():
        if e['property'] == prop and e['class'] == viol['cls'] and e.get('match', '') in viol['msg']:
            return e
    return None


# ------------------------------------------------------------------------------------------ minimisation
def shrink(mod, trace, viol, cache, budget_s=60.):
    """Greedy delta-debugging over the op list, then over scenario-specific simplifications."""
    t_end = time.time() + budget_s
    tried = 0

    def fails(t):
        nonlocal tried
        tried += 1
        r = run_trace(mod, t, cache)
        return r['viol'] is not None and r['viol']['cls'] == viol['cls']

    best = trace
    keys = getattr(mod, 'SHRINK_LISTS', ['ops'])
    changed = True
    while changed and time.time() < t_end:
        changed = False
        for key in keys:
            seq = best.get(key)
            if not isinstance(seq, list):
                continue
            chunk = max(1, len(seq) // 2)
            while chunk >= 1 and time.time() < t_end:
                i = 0
                while i < len(seq) and time.time() < t_end:
                    cand = dict(best)
                    cand[key] = seq[:i] + seq[i + chunk:]
                    if fails(cand):
                        best, seq, changed = cand, cand[key], True
                    else:
                        i += chunk
                chunk //= 2
        for cand in (mod.simplify(best) if hasattr(mod, 'simplify') else []):
            if time.time() > t_end:
                break
            if fails(cand):
                best, changed = cand, True
                break
    return best, tried


def _shrink_job(args):
    prop, trace, viol, budget = args
    mod = load(prop)
    if getattr(mod, 'NEEDS_JAX', True):
        setup_jax()
    cache = {}
    r0 = run_trace(mod, trace, cache)
    if r0['viol'] is None:
        return trace, r0, 0
    best, tried = shrink(mod, trace, viol, cache, budget)
    return best, run_trace(mod, best, {}), tried


def _replay_job(args):
    prop, trace = args
    mod = load(prop)
    if getattr(mod, 'NEEDS_JAX', True):
        setup_jax()
    return run_trace(mod, trace, {})


def in_fresh(fn, arg, prop, timeout=300):
    ctx = mp.get_context('spawn')
    with ctx.Pool(1, initializer=_init_worker, initargs=(prop, REPO)) as pool:
        return pool.apply_async(fn, (arg,)).get(timeout)


# ------------------------------------------------------------------------------------------ the check
def workers():
    return int(os.environ.get('VERIF_WORKERS', max(1, min(8, os.cpu_count() or 1))))


def all_jobs(prop, seed, tier, deadline):
    mod = load(prop)
    buckets = mod.buckets(Rng(seed, prop, 'buckets'), tier)
    jobs = []
    for bid, (bucket, nruns) in enumerate(buckets):
        jobs.append((prop, bid, bucket, [(seed, prop, bid, r) for r in range(nruns)], deadline))
    return mod, jobs


def check(prop, seed, tier):
    t0 = time.time()
    cap = float(os.environ.get('VERIF_WALL', '600' if tier == 'quick' else '36000'))
    deadline = t0 + cap
    mod, jobs = all_jobs(prop, seed, tier, deadline)
    nw = workers()
    print(f'{prop}: seed={seed} tier={tier} buckets={len(jobs)} runs={sum(len(j[3]) for j in jobs)} workers={nw}',
          flush=True)
    results, errors, hit = {}, [], None
    ctx = mp.get_context('spawn')
    # longest buckets first, so that the pool does not end on one
    order = sorted(jobs, key=lambda j: -j[2].get('cost', 1) * 1.)
    known_hits = {}
    with ctx.Pool(nw, initializer=_init_worker, initargs=(prop, REPO)) as pool:
        for bid, out, err in pool.imap_unordered(_work, order):
            if err:
                errors.append((bid, err))
                continue
            results[bid] = out
            for r in out:
                if r['viol']:
                    e = is_known(prop, r['viol'])
                    if e:
                        known_hits[e['id']] = e
                    elif hit is None or (r['bid'], r['rid']) < (hit['bid'], hit['rid']):
                        hit = r
            if hit is not None and not os.environ.get('VERIF_ALL'):
                pool.terminate()
                break
    runs = [r for b in sorted(results) for r in results[b]]
    wall_search = time.time() - t0
    if errors and hit is None:
        print(f'HARNESS-ERROR in {len(errors)} bucket(s); first (bucket {errors[0][0]}):\n{errors[0][1]}')
        write_evidence(mod, prop, seed, tier, runs, wall_search, 0, errors)
        return 3
    for e in known_findings():
        if e['property'] == prop:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    code = 0
    if hit is not None:
        code = report(mod, prop, seed, tier, hit)
    write_evidence(mod, prop, seed, tier, runs, wall_search, 1 if code == 1 else 0, errors)
    if code == 0:
        nv = sum(1 for r in runs if not r['skip'])
        print(f'{prop}: held on {nv} simulated runs ({len(runs) - nv} left the domain), {wall_search:.1f}s')
    return code


def report(mod, prop, seed, tier, hit):
    trace, viol = hit['trace'], hit['viol']
    print(f"{prop}: violation in bucket {hit['bid']} run {hit['rid']}: {viol['cls']}: {viol['msg']}", flush=True)
    best, rr, tried = trace, hit, 0
    try:
        best, rr, tried = in_fresh(_shrink_job, (prop, trace, viol, float(os.environ.get('VERIF_SHRINK', '45'))), prop)
        if rr['viol'] is None or rr['viol']['cls'] != viol['cls']:
            best = trace
    except Exception as e:
        print(f'{prop}: minimisation did not finish ({type(e).__name__}), keeping the original trace')
        best = trace
    final = in_fresh(_replay_job, (prop, best), prop)
    if final['viol'] is None:
        final = in_fresh(_replay_job, (prop, trace), prop)
        best = trace
    if final['viol'] is None:
        print(f'HARNESS-ERROR: {prop}: the violation does not replay; simulator is not deterministic here')
        return 3
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-s{seed}-b{hit['bid']}-r{hit['rid']}.json")
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=hit['seed'], violation=final['viol'], log_hash=final['hash'],
                       shrink_attempts=tried, trace=best, events=final['head']), f, indent=1)
    print(f"{prop}: {final['viol']['cls']}: {final['viol']['msg']}")
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return 1


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = rec['property']
    r = in_fresh(_replay_job, (prop, rec['trace']), prop)
    print(json.dumps(dict(violation=r['viol'], log_hash=r['hash'], same_log=r['hash'] == rec['log_hash']), indent=1))
    for e in r['head']:
        print('  ', e)
    if r['viol']:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def write_evidence(mod, prop, seed, tier, runs, wall, nviol, errors):
    faults, probes, skips = collections.Counter(), collections.Counter(), collections.Counter()
    h = hashlib.sha256()
    simtime = 0.
    nontrivial = set()
    hashes, sigs = set(), set()
    for r in runs:
        faults.update(r['faults'])
        probes.update(r['probes'])
        simtime += r['simtime']
        h.update(r['hash'].encode())
        hashes.add(r['hash'])
        sigs.add(r['sig'])
        if r['skip']:
            skips[r['skip']] += 1
        elif r['faults'] or getattr(mod, 'FAULTLESS_OK', False):
            nontrivial.add(r['hash'])
    samples = [dict(seed=r['seed'], trace=_clip(r['trace']), events=r.get('head', [])[:40]) for r in runs
               if 'trace' in r][:2]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  evaluations=len(runs), distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=samples,
                  runs_per_hour=round(len(runs) / max(wall, 1e-9) * 3600),
                  seeds=dict(master=seed, runs=len(runs), derivation='sha256(master, property, bucket, run)'),
                  simulated_time_s=round(simtime, 3), faults_injected=dict(sorted(faults.items())),
                  probes=dict(sorted(probes.items())), left_domain=dict(skips), events=sum(r['n'] for r in runs),
                  distinct_interleavings=len(sigs),
                  interleaving_measure='distinct sequences of event kinds (deliveries, polls, faults, restarts, ...)',
                  distinct_event_logs=len(hashes), event_log_digest=h.hexdigest(),
                  components=mod.COMPONENTS, workers=workers(), harness_errors=len(errors)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def _clip(o, depth=0):
    if isinstance(o, dict):
        return {k: _clip(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        return [_clip(v, depth + 1) for v in o[:24]] + (['...'] if len(o) > 24 else [])
    return o
