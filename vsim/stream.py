"""The simulated estimation service: plant -> sensor -> lossy network -> estimator node -> checkpoint disk.

The estimator node runs the real filters of the repository.  It polls its inbox, filters whatever arrived as one batch
(so batch boundaries are decided by the schedule), checkpoints the last posterior to a simulated disk, and is crashed
and restarted; only what the disk kept survives, and unconsumed or un-checkpointed measurements are redelivered in the
same order.
"""
import heapq
import pickle
import zlib

from vsim.core import Violation

DISK_FAULTS = ['none', 'torn', 'lost', 'bitflip', 'enospc']
CORRUPT = ['none', 'outlier', 'stuck', 'gain', 'sign']


def gen_stream(rng, T, lens, modes=()):
    """Draw schedule and faults of one run. Swarm style: each run enables its own subset of fault kinds."""
    knobs = dict(drop=rng.choice([0., 0., .15, .3]), dup=rng.choice([0., 0., .15, .3]),
                 jitter=rng.choice([0., 0., .5, 3.]), corrupt=rng.choice([0., 0., .1, .3]),
                 crash=rng.choice([0., .1, .25, .4]), disk=rng.choice([0., .2, .5]),
                 burst=rng.choice([.5, 1., 3.]))
    kinds = [k for k in CORRUPT[1:] if rng.chance(.6)] or ['outlier']
    dk = [k for k in DISK_FAULTS[1:] if rng.chance(.6)] or ['torn']
    msgs = []
    for _ in range(2 * T):
        if rng.chance(knobs['drop']):
            fate = []
        else:
            fate = [round(rng.expovariate(1. / knobs['jitter']), 3) if knobs['jitter'] else 0.]
            if rng.chance(knobs['dup']):
                fate.append(round(rng.expovariate(1.), 3))
        c = rng.choice(kinds) if rng.chance(knobs['corrupt']) else 'none'
        msgs.append([fate, c, round(rng.uniform(.5, 2.), 3)])
    ops = []
    for _ in range(rng.randint(2, 3 * T)):
        u = rng.random()
        if u < knobs['crash']:
            ops.append(['crash', rng.choice(['idle', 'mid', 'mid', 'after'])])
        elif u < knobs['crash'] + .25:
            ops.append(['ckpt', rng.choice(dk) if rng.chance(knobs['disk']) else 'none'])
        elif modes and u < knobs['crash'] + .33:
            ops.append(['migrate', rng.choice(list(modes))])
        else:
            ops.append(['poll', round(rng.expovariate(1. / knobs['burst']), 3), rng.choice(list(lens))])
    return dict(T=T, msgs=msgs, ops=ops)


class Disk:
    """Append-only checkpoint generations. A crash drops what was not durable."""

    def __init__(self, log):
        self.gens, self.log = [], log

    def write(self, payload, fault):
        rec = zlib.crc32(payload).to_bytes(4, 'little') + payload
        if fault == 'enospc':
            self.log.fault('disk.enospc')
            return False
        if fault == 'torn':
            self.log.fault('disk.torn')
            rec = rec[:max(5, len(rec) * 2 // 3)]
        elif fault == 'bitflip':
            self.log.fault('disk.bitflip')
            i = 4 + len(payload) // 2
            rec = rec[:i] + bytes([rec[i] ^ 0x10]) + rec[i + 1:]
        self.gens.append([rec, fault != 'lost'])
        if fault == 'lost':
            self.log.fault('disk.lost_write')
        return True

    def crash(self):
        self.gens = [g for g in self.gens if g[1]]

    def recover(self):
        for i in range(len(self.gens) - 1, -1, -1):
            rec = self.gens[i][0]
            if len(rec) > 4 and zlib.crc32(rec[4:]).to_bytes(4, 'little') == rec[:4]:
                self.log.probe('recovered_from_generation_%d' % min(3, len(self.gens) - 1 - i))
                return pickle.loads(rec[4:])
        return None


class Service:
    """adapter: measurement(i, corrupt, mag, last) -> y ; init() -> state ; process(state, [y]) -> state, outs
    observe(first_index, [y], outs) checks the outputs for measurements first_index.. of the delivered history;
    migrate(state, mode) -> state"""

    PERIOD = 1.0

    def __init__(self, trace, log, lens, adapter):
        self.t, self.log, self.lens, self.ad = trace, log, sorted(lens), adapter
        self.now, self.seq, self.q = 0., 0, []
        self.emitted, self.last = 0, None
        self.inbox = []  # durable transport log, in delivery order
        self.disk = Disk(log)
        self.after_poll_crash = False

    def at(self, t, what):
        self.seq += 1
        heapq.heappush(self.q, (t, self.seq, what))

    def emit_until(self, t):
        """Advance the plant, the network and the simulated clock to time t."""
        T = self.t['T']
        while True:
            te = (self.emitted + 1) * self.PERIOD
            tq = self.q[0][0] if self.q else float('inf')
            if min(te, tq) > t:
                break
            if te <= tq:
                i, self.emitted, self.now = self.emitted, self.emitted + 1, te
                fate, c, mag = self.t['msgs'][i] if i < len(self.t['msgs']) else ([0.], 'none', 1.)
                y = self.ad.measurement(i, c, mag, self.last)
                self.last = y
                if c != 'none':
                    self.log.fault('sensor.' + c, i)
                if not fate:
                    self.log.fault('net.drop', i)
                for n, d in enumerate(fate):
                    if n:
                        self.log.fault('net.dup', i)
                    if d > 0:
                        self.log.fault('net.delay', i)
                    self.at(te + d, (i, y))
            else:
                self.now, _, (i, y) = heapq.heappop(self.q)
                if self.inbox and i < self.inbox[-1][0]:
                    self.log.fault('net.reorder', i)
                if len(self.inbox) < T:
                    self.inbox.append((i, y))
                    self.log.ev('deliver', i)
        self.now = max(self.now, t)

    def boot(self):
        self.disk.crash()
        rec = self.disk.recover()
        if rec is None:
            self.state, self.done = self.ad.init(), 0
        else:
            self.state, self.done = rec
        self.log.ev('boot', self.done)

    def poll(self, maxb, crash_mid=False):
        pend = len(self.inbox) - self.done
        b = max([l for l in self.lens if l <= min(pend, maxb)] or [0])
        if b == 0:
            self.log.ev('poll.empty')
            return 0
        ys = [y for _, y in self.inbox[self.done:self.done + b]]
        state, outs = self.ad.process(self.state, ys)
        if crash_mid:
            self.log.fault('crash.mid_batch', self.done)
            self.boot()
            return 0
        self.ad.observe(self.done, ys, outs)
        self.state = state
        self.log.ev('batch', self.done, b)
        self.done += b
        return b

    def run(self):
        T = self.t['T']
        self.boot()
        crash_mid = False
        for op in self.t['ops']:
            if self.done >= T:
                break
            if op[0] == 'poll':
                self.emit_until(self.now + op[1])
                self.poll(op[2], crash_mid)
                crash_mid = False
            elif op[0] == 'crash':
                if op[1] == 'mid':
                    crash_mid = True
                else:
                    self.log.fault('crash.' + op[1], self.done)
                    self.boot()
            elif op[0] == 'ckpt':
                self.log.ev('ckpt', self.done)
                self.disk.write(pickle.dumps((self.state, self.done)), op[1])
            elif op[0] == 'migrate':
                self.log.fault('migrate.' + op[1], self.done)
                self.state = self.ad.migrate(self.state, op[1])
        # faults are over: bounded progress
        steps = 0
        while self.done < T:
            steps += 1
            if steps > 50 * T + 100:
                raise Violation('progress', f'only {self.done} of {T} measurements consumed after faults stopped')
            self.emit_until(self.now + self.PERIOD)
            self.poll(self.lens[-1])
        self.log.simtime = self.now
        self.log.probe('measurements', self.done)
        return [y for _, y in self.inbox[:T]]
