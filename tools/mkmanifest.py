"""Regenerates MANIFEST.json from the scenario modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ('pure function of its arguments: no schedule, clock, I/O, crash point or randomness can change the outcome, so a '
        'simulated schedule or fault has nothing to act on; used as a component (real code) inside ')
REASONS = dict(N01=PURE + 'S01, S02 and S05, which compare the filters built on it', N02=PURE + 'S02',
               N03=PURE + 'S01 (a restart that switches representation goes through the conversions)',
               N04=PURE.replace('; used as a component (real code) inside ', '') + '; nothing stateful in the repository consumes it',
               N05=PURE + 'S05 (LDL) and R03 (simulation); Bell, Hermite and Lanczos have no stateful consumer')
NOTES = dict(
    S='seeded search over histories, batch schedules, crash points and checkpoint faults; each output compared with an independent numpy reference within a rounding envelope; exploration, not exhaustive',
    R='seeded search over random-source outcomes, keys and adversarial callbacks; per-draw invariants plus statistics with bounded false-alarm probability; exploration',
    P='real pipeline programs run in-process on a simulated file system, clock and random schedule with injected failures; exploration')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'vsim/props', i.lower() + '.py')):
        cmd = f'/opt/venv/bin/python check.py run {i} '
        checks.append(dict(property=i, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique='deterministic simulation with fault injection, seeded schedule search, reference-model refinement',
                           level='exploration', level_note=NOTES[i[0]]))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import jax, numpy, scipy, tme'",
         hooks=dict(guard='none', enable='no hooks in /repo: every seam used (callbacks, keys, time interval, file and clock '
                                         'functions, shell commands) already exists', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
