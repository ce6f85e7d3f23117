"""Simulated cluster for the shell drivers: real bash executes the real scripts, every command with an effect (python, rm, wait,
sleep, sbatch) is a request to the controller, which serves one request at a time in an order the seed decides.

Nothing a script does between two requests is observable by another process, so the served order is the schedule.
"""
import os
import pwd
import select
import shutil
import signal
import socket
import subprocess
import time

from vsim import core

STUB = r'''
__vreq() {
  local __fd __r
  exec {__fd}<>/dev/tcp/127.0.0.1/$VSIM_PORT || return 127
  printf '%s\0' "$VSIM_TAG" "$BASHPID" "$PWD" "$@" $'\001END' >&$__fd
  IFS= read -r __r <&$__fd || __r=137
  exec {__fd}>&-
  return ${__r:-137}
}
python() { __vreq python "$@"; }
python3() { __vreq python "$@"; }
rm() { __vreq rm "$@"; }
sleep() { __vreq sleep "$@"; }
sbatch() { __vreq sbatch "$@"; }
srun() { "$@"; }
wait() {
  local __a __p=() __k=all
  for __a in "$@"; do
    case "$__a" in
      -n) __k=any ;;
      -*) ;;
      %*) __p+=($(jobs -p "$__a")) ;;
      *) __p+=("$__a") ;;
    esac
  done
  if [ ${#__p[@]} -eq 0 ]; then __p=($(jobs -p)); fi
  __vreq wait $__k "${__p[@]}"
  builtin wait "$@"
}
'''
TOOLS = ('bash sh mkdir ls seq cat echo find date tee basename dirname expr test touch true false cp mv nproc xargs grep wc head tail sort tr '
         'sed awk printf env uname hostname whoami ln mktemp cut').split()


class Ctl:
    def __init__(self, disk, log):
        self.disk, self.log = disk, log
        self.root = disk.root
        home = os.path.join(self.root, 'home')
        self.bin = os.path.join(self.root, 'bin')
        os.makedirs(home)
        os.makedirs(self.bin)
        for t in TOOLS:
            p = shutil.which(t)
            if p:
                os.symlink(p, os.path.join(self.bin, t))
        self.stub = os.path.join(self.root, 'stub.sh')
        with open(self.stub, 'w') as f:
            f.write(STUB)
        for t in ('python', 'python3', 'rm', 'sleep', 'sbatch'):
            p = os.path.join(self.bin, t)
            with open(p, 'w') as f:
                f.write(f'#!/bin/bash\n{t} "$@"\n')
            os.chmod(p, 0o755)
        # $WRKDIR/mfs is the simulated disk's root: the scripts cd there, activate the environment and enter ./dardel
        os.symlink(self.root, os.path.join(self.root, 'mfs'))
        os.makedirs(os.path.join(self.root, 'venv/bin'))
        for p in ('venv/bin/activate', 'home/.bashrc'):
            open(os.path.join(self.root, p), 'w').close()
        self.home = home
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(128)
        self.port = self.sock.getsockname()[1]
        self.conns, self.pending, self.procs = {}, {}, {}
        try:
            self.uid = pwd.getpwnam('nobody').pw_uid
        except KeyError:
            self.uid = 65534
        self._own()

    def _own(self):
        try:
            for d, ds, fs in os.walk(self.root):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(x, self.uid, -1, follow_symlinks=False)
        except OSError:
            self.uid = None

    def start(self, tag, script, args=(), env=None):
        """script: path of the scratch copy"""
        e = dict(PATH=self.bin, HOME=self.home, WRKDIR=self.root, BASH_ENV=self.stub, VSIM_PORT=str(self.port), VSIM_TAG=tag, LC_ALL='C')
        e.update(env or {})

        def pre():
            if self.uid is not None:
                try:
                    os.setgroups([])
                    os.setuid(self.uid)
                except OSError:
                    pass
        p = subprocess.Popen(['/bin/bash', script] + list(args), cwd=self.disk.dardel, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=pre)
        self.procs[tag] = p

    # -- processes of a driver
    def alive(self, sids):
        """{pid: (ppid, state, switches)} of live processes of these sessions"""
        out = {}
        for d in os.listdir('/proc'):
            if not d.isdigit():
                continue
            try:
                with open(f'/proc/{d}/stat') as f:
                    s = f.read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            if int(s[3]) in sids and s[0] not in 'ZX':
                out[int(d)] = (int(s[1]), s[0])
        return out

    @staticmethod
    def gone(pid):
        try:
            with open(f'/proc/{pid}/stat') as f:
                return f.read().rsplit(')', 1)[1].split()[0] in 'ZX'
        except OSError:
            return True

    def quiesce(self, timeout=60.):
        """Wait until every process of every driver is blocked in a request or gone. Returns the pending requests in a canonical order."""
        t_end = time.time() + timeout
        still = {}
        while True:
            self.pump(.0005)
            for p in self.procs.values():
                p.poll()
            live = self.alive({p.pid for p in self.procs.values()})
            busy = [q for q in live if q not in self.pending]
            if not busy:
                break
            # a shell that waits for an external command which is itself blocked in a request
            par = {live[q][0] for q in self.pending if q in live}
            for _ in range(8):
                par |= {live[q][0] for q in par if q in live}
            now = time.time()
            ok = True
            for q in busy:
                if q in par and live[q][1] == 'S':
                    sw = self._switches(q)
                    if still.get(q, (None,))[0] != sw:
                        still[q] = (sw, now)
                    ok = ok and now - still[q][1] > .04
                else:
                    still.pop(q, None)
                    ok = False
            if ok:
                break
            if now > t_end:
                raise RuntimeError(f'driver does not come to rest: {[(q, live[q]) for q in busy]}')
        for q in [q for q in self.pending if q not in live]:  # killed while waiting
            self.pending.pop(q)[0].close()
        return sorted(self.pending.items(), key=lambda i: (i[1][1], i[1][3]))

    @staticmethod
    def _switches(pid):
        try:
            with open(f'/proc/{pid}/status') as f:
                return [ln for ln in f if 'ctxt' in ln]
        except OSError:
            return None

    def pump(self, dt):
        while True:
            r, _, _ = select.select([self.sock] + list(self.conns), [], [], dt)
            if not r:
                return
            dt = 0
            for s in r:
                if s is self.sock:
                    c, _ = s.accept()
                    self.conns[c] = b''
                    continue
                try:
                    d = s.recv(65536)
                except OSError:
                    d = b''
                if not d:
                    self.conns.pop(s)
                    s.close()
                    continue
                self.conns[s] += d
                if self.conns[s].endswith(b'\0\1END\0'):
                    f = [x.decode() for x in self.conns.pop(s).split(b'\0')[:-2]]
                    # (socket, driver, cwd, argv)
                    self.pending[int(f[1])] = (s, f[0], f[2], f[3:])

    def reply(self, pid, status):
        c = self.pending.pop(pid)[0]
        try:
            c.sendall(f'{status}\n'.encode())
        except OSError:
            pass
        c.close()

    def finished(self, tag):
        return self.procs[tag].poll() is not None

    def kill(self, tag):
        """SIGKILL of everything the driver started"""
        p = self.procs[tag]
        for _ in range(200):
            live = self.alive({p.pid})
            if not live:
                break
            for q in live:
                try:
                    os.kill(q, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(.001)
        p.wait()
        for q in [q for q, v in self.pending.items() if v[1] == tag]:
            self.pending.pop(q)[0].close()

    def close(self):
        for t in list(self.procs):
            self.kill(t)
        for c in list(self.conns):
            c.close()
        self.sock.close()


def rm(disk, cwd, args):
    """rm inside the simulated disk. Returns (status, removed files)."""
    rec = force = False
    paths, opts, st, out = [], True, 0, []
    for a in args:
        if opts and a == '--':
            opts = False
        elif opts and a.startswith('--'):
            rec, force = rec or a == '--recursive', force or a == '--force'
        elif opts and a.startswith('-') and len(a) > 1:
            rec, force = rec or 'r' in a or 'R' in a, force or 'f' in a
        else:
            paths.append(a)
    for p in paths:
        q = os.path.join(cwd, p)
        if not disk.inside(q):
            st = 1
        elif not os.path.lexists(q):
            st = st if force else 1
        elif os.path.isdir(q) and not os.path.islink(q):
            if not rec:
                st = 1
                continue
            for d, _, fs in os.walk(q):
                out += [disk.rel(os.path.join(d, f)) for f in fs]
            shutil.rmtree(q)
        else:
            out.append(disk.rel(q))
            os.unlink(q)
    return st, out


def scaled(text, vals):
    """The driver with the run counts a user may edit (README) set to vals. Returns text and whether all were found."""
    import re
    ok = {}
    for n, v in vals.items():
        text, c = re.subn(rf'(?m)^([ \t]*(?:export |declare -i |readonly )?{n}=)\d+([ \t]*(?:#.*)?)$', rf'\g<1>{v}\g<2>', text)
        ok[n] = c
    return text, ok
