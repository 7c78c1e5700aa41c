"""Deterministic single-process simulation of a small machine running several Python processes.

* Each simulated process is a real thread that is parked and released one at a time; which one runs after an
  intercepted operating-system call is decided by the simulator (seeded, or an explicit list when replaying).
* File access of the simulated processes goes through `_pyio` (pure-Python io with the same buffering rules as
  the C io module) down to `os.*` calls, which are intercepted here: they are the scheduling points and the
  fault points.  The bytes live in a private scratch directory that is removed afterwards.
* Clocks, pids, temporary names, stdout/stderr, child processes and stim's detector sampler are simulated.
* A killed process executes nothing any more: every intercepted call of it raises SimKilled, whatever
  handlers the code has, and its user-space buffers are lost.

Faults are an explicit list (part of the scenario): [proc, step, kind, arg].  A fault is armed from the
process's step-th intercepted call on and fires at the first call its kind applies to.
"""
import _pyio
import builtins
import datetime
import errno
import fcntl
import hashlib
import io
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np
import stim

from . import loader

_real = {}
for _n in ("open close read write pread pwrite lseek fstat ftruncate truncate fsync fdatasync stat lstat mkdir rmdir "
           "unlink remove rename replace link symlink listdir scandir utime chmod access isatty getpid system "
           "getcwd chdir get_inheritable set_inheritable fdopen dup sendfile copy_file_range "
           "posix_fallocate readv writev").split():
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
real_open = builtins.open
_real_io_open = io.open
_real_time = {n: getattr(time, n) for n in
              ("time monotonic perf_counter process_time thread_time time_ns monotonic_ns perf_counter_ns process_time_ns "
               "thread_time_ns sleep").split()}
_real_popen = subprocess.Popen
_real_compile = stim.Circuit.compile_detector_sampler
_real_flock = fcntl.flock
_real_lockf = fcntl.lockf
_real_std = None

_real_datetime = datetime.datetime

_tls = threading.local()


class _SimDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.utcfromtimestamp(time.time())

    @classmethod
    def today(cls):
        return _real_datetime.fromtimestamp(time.time())


MASK = (1 << 64) - 1


class SimKilled(BaseException):
    """The simulated process no longer exists."""


class SimBug(Exception):
    """Something the simulator does not support: an error of the harness, not of the code."""


class StepLimit(BaseException):
    pass


def mix(*xs) -> int:
    """Stateless hash of integers/strings to 64 bits (splitmix style)."""
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            x = int.from_bytes(hashlib.blake2b(x.encode(), digest_size=8).digest(), "big")
        h = (h ^ (int(x) & MASK)) & MASK
        h = (h + 0x9E3779B97F4A7C15) & MASK
        h = ((h ^ (h >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        h = ((h ^ (h >> 27)) * 0x94D049BB133111EB) & MASK
        h ^= h >> 31
    return h


# Which intercepted calls each fault kind can hit.
MUTATING = {"open_w", "write", "close_w", "mkdir", "unlink", "rmdir", "rename", "truncate", "fsync", "link", "utime"}
READING = {"open_r", "read", "stat", "listdir", "close_r"}
ALL_CALLS = MUTATING | READING | {"stdout", "sample", "popen", "child", "flock", "start"}
FAULT_APPLIES = {
    "kill": ALL_CALLS,
    "interrupt": ALL_CALLS,
    "power": ALL_CALLS,
    "stall": ALL_CALLS,
    "clock": ALL_CALLS,
    "enospc": {"open_w", "write", "mkdir", "fsync", "close_w"},
    "edquot": {"open_w", "write", "mkdir"},
    "eio": {"write", "read", "fsync", "close_w", "close_r", "listdir"},
    "eio_read": {"read"},
    "eacces": {"open_w", "open_r", "mkdir", "listdir"},
    "emfile": {"open_w", "open_r"},
    "enoent": {"open_r"},
    "short": {"write"},          # partial write, then the next write fails with ENOSPC
    "shortok": {"write"},        # partial write, the rest is accepted later
    "full": {"write"},           # partial write, and all later writes of the process fail with ENOSPC
    "epipe": {"stdout"},
    "enomem": {"sample"},
    "child_exit": {"popen"}, "child_signal": {"popen"}, "child_trunc": {"popen"}, "child_garble": {"popen"},
    "child_noout": {"popen"}, "child_nostart": {"popen"}, "child_partial_exit": {"popen"}, "child_empty": {"popen"},
    "child_slow": {"popen"},
}
ERRNO = {"enospc": errno.ENOSPC, "edquot": errno.EDQUOT, "eio": errno.EIO, "eio_read": errno.EIO,
         "eacces": errno.EACCES, "emfile": errno.EMFILE, "enoent": errno.ENOENT}


class Proc:
    def __init__(self, sim, name, main, *, cwd, argv=()):
        self.sim = sim
        self.name = name
        self.main = main
        self.cwd = cwd
        self.argv = ["sim", *argv]
        self.steps = 0
        self.dead = False
        self.done = False
        self.exc = None
        self.value = None
        self.ident = None
        self.go = threading.Lock()
        self.go.acquire()
        self.faults = []
        self.modules = None
        self.files = None         # path -> list of vfds not needed; see sim.fds
        self.out = []             # complete stdout lines
        self.out_pending = ""
        self.err_text = ""
        self.batch = None         # current ground-truth batch (dict) if any
        self.batches = []
        self.pid = 0
        self.short_pending = False
        self.blocked_on = None
        self.user = {}
        self.thread = None

    def __repr__(self):
        return f"<{self.name}>"


class _Std:
    """sys.stdout / sys.stderr stand-in that dispatches on the running simulated process."""

    encoding = "utf-8"
    errors = "strict"
    newlines = None
    closed = False

    def __init__(self, sim, which, real):
        self.sim, self.which, self.real = sim, which, real

    def write(self, text):
        p = getattr(_tls, "proc", None)
        if p is None:
            return self.real.write(text)
        if not isinstance(text, str):
            raise TypeError("write() argument must be str")
        if self.which == "err":
            if not p.dead:
                p.err_text = (p.err_text + text)[-4000:]
            return len(text)
        if p.dead:
            raise SimKilled()
        p.out_pending += text
        # Line buffered like a terminal or, with flush=True, a pipe flushed per record.
        if "\n" in text and self.sim.stdout_line_buffered:
            self.flush()
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        p = getattr(_tls, "proc", None)
        if p is None:
            return self.real.flush()
        if self.which == "err":
            return
        if p.dead:
            raise SimKilled()
        if not p.out_pending:
            return
        f = self.sim.syscall(p, "stdout", "stdout", len(p.out_pending))
        if f is not None and f[0] == "epipe":
            p.out_pending = ""
            p.user["io_error"] = True
            p.user.setdefault("io_errors", []).append(("epipe", "stdout", "stdout"))
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        text, p.out_pending = p.out_pending, ""
        self.sim.deliver_stdout(p, text)

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readable(self):
        return False

    def writable(self):
        return True

    def seekable(self):
        return False


class _Names:
    """Deterministic replacement of tempfile's random name sequence."""

    def __init__(self):
        self.k = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        return f"s{self.k:07d}"


class Sampler:
    """Replacement of stim's compiled detector sampler: draws from the circuit's own error model with the seed."""

    def __init__(self, sim, circuit, seed=None):
        self.sim = sim
        self.circuit = circuit
        self.seed = seed        # an explicitly seeded sampler always gives the same shots
        self.used = 0

    def sample(self, shots, prepend_observables=False, append_observables=False, separate_observables=False,
               bit_packed=False, dets_out=None, obs_out=None):
        p = getattr(_tls, "proc")
        stream = None if self.seed is None else (int(self.seed), self.used)
        self.used += 1
        det, obs = self.sim.do_sample(p, self.circuit, int(shots), stream)
        if dets_out is not None or obs_out is not None:
            raise SimBug("dets_out/obs_out are not simulated")
        pack = (lambda a: np.packbits(a, axis=1, bitorder="little")) if bit_packed else (lambda a: a)
        if separate_observables:
            return pack(det), pack(obs)
        parts = ([obs] if prepend_observables else []) + [det] + ([obs] if append_observables else [])
        return pack(np.concatenate(parts, axis=1))

    def sample_bit_packed(self, shots, *, prepend_observables=False, append_observables=False):
        return self.sample(shots, prepend_observables=prepend_observables, append_observables=append_observables,
                           bit_packed=True)


class SimPopen:
    """Replacement of subprocess.Popen: runs the simulator's stub program to completion."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None,
                 extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        self.args = args
        self.text = bool(text or encoding or universal_newlines)
        p = getattr(_tls, "proc")
        self.pid = p.sim.next_pid()
        self.returncode = None
        rc, out, err = p.sim.run_child(p, args, shell, cwd)
        self._rc = rc
        conv = (lambda b: b.decode()) if self.text else (lambda b: b)
        mk = (lambda b: io.StringIO(b.decode())) if self.text else (lambda b: io.BytesIO(b))
        self._out = conv(out) if stdout == subprocess.PIPE else None
        self._err = conv(err) if stderr == subprocess.PIPE else None
        self.stdout = mk(out) if stdout == subprocess.PIPE else None
        self.stderr = mk(err) if stderr == subprocess.PIPE else None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return self._out, self._err

    def wait(self, timeout=None):
        if getattr(_tls, "proc").dead:
            raise SimKilled()
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def kill(self):
        pass

    def terminate(self):
        pass

    def send_signal(self, s):
        pass


class Sim:
    MAX_STEPS = 60000

    def __init__(self, scenario, *, decoder=None):
        self.scenario = scenario
        self.seed = int(scenario.get("seed", 0))
        self.root = None
        self.procs = []
        self.current = None
        self.main_lock = threading.Lock()
        self.main_lock.acquire()
        self.fds = {}
        self.next_vfd = 10_000_000
        self.pid_counter = 100
        self.now = 1000.0
        self.wall_offset = 1.6e9
        self.wall_rate = 1.0
        self.step = 0
        self.log = []
        self.digest = hashlib.blake2b(digest_size=16)
        self.faults_fired = {}
        self.probes = {}
        self.kind_counts = {}
        self.schedule = scenario.get("schedule")
        self.sched_mode = scenario.get("sched", {"mode": "random", "p": 0.5})
        self.picks = []
        self.sched_rng = random.Random(mix(self.seed, "sched"))
        self.stdout_line_buffered = scenario.get("stdout_line_buffered", True)
        self.decoder = decoder
        self.on_stdout_line = None
        self.on_write = None
        self.sampler = None
        self.durable = {}          # path -> length known to be on stable storage
        self.locks = {}
        self.installed = False
        self.trace = []            # (proc, step, call) of every fault point, for placing faults
        self.preempts = 0
        self.context_switches = 0
        self.last_run = None
        self.prio = {}
        self.power_loss = False
        self.harness_error = None
        self.sample_serial = 0
        self.scenario_state = {}

    # ---------------------------------------------------------------- set-up / tear-down
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="dst-", dir=base)
        os.mkdir(self.root + "/tmp")
        os.mkdir(self.root + "/work")
        self.install()
        return self

    def __exit__(self, *a):
        self.uninstall()
        for v in list(self.fds.values()):
            try:
                _real["close"](v["fd"])
            except OSError:
                pass
        self.fds.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    def install(self):
        global _real_std
        self.installed = True
        self.saved = dict(tempdir=tempfile.tempdir, names=tempfile._name_sequence, use_fd=shutil._use_fd_functions,
                          cwd=_real["getcwd"](), argv=sys.argv, stdout=sys.stdout, stderr=sys.stderr,
                          unraisable=sys.unraisablehook, path=list(sys.path))
        sys.unraisablehook = lambda u: None     # destructors of killed processes
        datetime.datetime = _SimDatetime
        tempfile.tempdir = self.root + "/tmp"
        tempfile._name_sequence = _Names()
        shutil._use_fd_functions = False
        sys.stdout = _Std(self, "out", sys.stdout)
        sys.stderr = _Std(self, "err", sys.stderr)
        builtins.open = self._open
        io.open = self._open
        for name in _real:
            f = getattr(self, "_os_" + name, None)
            if f is not None:
                setattr(os, name, f)
        for n in _real_time:
            setattr(time, n, getattr(self, "_t_" + n))
        subprocess.Popen = self._popen
        stim.Circuit.compile_detector_sampler = _patched_compile
        fcntl.flock = self._flock
        fcntl.lockf = self._flock
        random.seed(self.seed)
        np.random.seed(self.seed & 0x7FFFFFFF)

    def uninstall(self):
        if not self.installed:
            return
        self.installed = False
        for name in _real:
            setattr(os, name, _real[name])
        for n in _real_time:
            setattr(time, n, _real_time[n])
        builtins.open = real_open
        io.open = _real_io_open
        subprocess.Popen = _real_popen
        stim.Circuit.compile_detector_sampler = _real_compile
        fcntl.flock = _real_flock
        fcntl.lockf = _real_lockf
        s = self.saved
        tempfile.tempdir, tempfile._name_sequence, shutil._use_fd_functions = s["tempdir"], s["names"], s["use_fd"]
        sys.argv, sys.stdout, sys.stderr = s["argv"], s["stdout"], s["stderr"]
        sys.unraisablehook = s["unraisable"]
        sys.path[:] = s["path"]
        datetime.datetime = _real_datetime
        _real["chdir"](s["cwd"])

    # ---------------------------------------------------------------- processes and scheduling
    def next_pid(self):
        self.pid_counter += 1
        return self.pid_counter

    def spawn(self, name, main, *, cwd=None, argv=(), faults=(), fresh=True, modules=None):
        p = Proc(self, name, main, cwd=cwd or (self.root + "/work"), argv=argv)
        p.pid = self.next_pid()
        p.faults = sorted(([int(f[1]), f[2], f[3]] for f in faults if f[0] == name), key=lambda f: f[0])
        p.modules = modules if modules is not None else (loader.ModuleSet() if fresh else None)
        p.ident = len(self.procs)
        self.procs.append(p)
        return p

    def run(self, procs=None, max_steps=None):
        """Runs the given (already spawned) processes until all have ended."""
        procs = [p for p in (procs if procs is not None else self.procs) if not p.done]
        limit = self.step + (max_steps or self.MAX_STEPS)
        for p in procs:
            t = threading.Thread(target=self._thread_main, args=(p,), daemon=True)
            p.thread = t
            t.start()
        self.last_run = None
        try:
            while True:
                runnable = [p for p in procs if not p.done]
                if not runnable:
                    break
                if self.power_loss:
                    for p in runnable:
                        p.dead = True
                if self.step > limit:
                    for p in runnable:
                        p.dead = True
                    self.probe("step_limit")
                ready = [p for p in runnable if p.blocked_on is None or p.dead or self._lock_free(p)]
                if not ready:
                    self.probe("deadlock")
                    for p in runnable:
                        p.dead = True
                    ready = runnable
                p = self._pick(ready)
                self._resume(p)
                if self.harness_error is not None:
                    raise self.harness_error
        finally:
            for p in procs:
                n = 0
                while not p.done and n < 10000:
                    p.dead = True
                    self._resume(p)
                    n += 1
                p.thread.join(5)
        # Unwritten user-space buffers of ended processes are gone; drop their descriptors.
        for vfd, v in list(self.fds.items()):
            if v["proc"].done:
                self._drop_fd(vfd)

    def _drop_fd(self, vfd):
        v = self.fds.pop(vfd, None)
        if v is not None:
            try:
                _real["close"](v["fd"])
            except OSError:
                pass
            if self.locks.get(v["path"]) == vfd:
                del self.locks[v["path"]]

    def _pick(self, ready):
        k = len(self.picks)
        ids = [p.ident for p in ready]
        last = self.last_run if self.last_run in ids else None
        if len(ready) == 1:
            choice = ready[0]
        elif self.schedule is not None:
            want = self.schedule[k] if k < len(self.schedule) else None
            if want in ids:
                choice = ready[ids.index(want)]
            elif last is not None:
                choice = ready[ids.index(last)]
            else:
                choice = ready[0]
        else:
            m = self.sched_mode
            if m["mode"] == "random":
                if last is not None and self.sched_rng.random() >= m["p"]:
                    choice = ready[ids.index(last)]
                else:
                    choice = self.sched_rng.choice(ready)
            elif m["mode"] == "pct":      # priorities with a few random change points
                for p in ready:
                    if p.ident not in self.prio:
                        self.prio[p.ident] = self.sched_rng.random() + 1
                if self.sched_rng.random() < m["p"]:
                    top = max(ready, key=lambda p: self.prio[p.ident])
                    self.prio[top.ident] = self.sched_rng.random() * min(self.prio.values())
                choice = max(ready, key=lambda p: self.prio[p.ident])
            elif m["mode"] == "rr":
                choice = ready[(ids.index(last) + 1) % len(ids)] if last is not None else ready[0]
            else:
                choice = ready[ids.index(last)] if last is not None else ready[0]
        if len(ready) > 1:
            self.picks.append(choice.ident)
            if last is not None and choice.ident != last:
                self.preempts += 1
        return choice

    def _resume(self, p):
        if self.last_run != p.ident:
            self.context_switches += 1
        self.last_run = p.ident
        self.current = p
        _real["chdir"](p.cwd)
        sys.argv = p.argv
        if p.modules is not None:
            p.modules.activate()
        p.go.release()
        self.main_lock.acquire()
        if p.modules is not None:
            p.modules.deactivate()
        self.current = None

    def _thread_main(self, p):
        p.go.acquire()
        _tls.proc = p
        try:
            if p.dead:
                raise SimKilled()
            self.syscall(p, "start", "start", 0)
            p.value = p.main(p)
            if p.out_pending:
                sys.stdout.flush()
        except SimKilled as e:
            p.dead = True
            p.exc = e
        except SimBug as e:
            self.harness_error = e
            p.exc = e
        except BaseException as e:
            p.exc = e
            if p.out_pending and not p.dead:
                # Python flushes stdout at exit even after an exception.
                text, p.out_pending = p.out_pending, ""
                self.deliver_stdout(p, text)
        finally:
            p.done = True
            p.end_step = self.step
            self._log(p, "end", type(p.exc).__name__ if p.exc is not None else "ok", 0)
            _tls.proc = None
            self.main_lock.release()

    def _yield(self, p):
        if sum(1 for q in self.procs if not q.done and q.thread is not None) <= 1 and not self.power_loss:
            return
        self.main_lock.release()
        p.go.acquire()

    def _log(self, p, call, what, n):
        rec = f"{self.step} {p.name} {call} {what} {n}"
        self.digest.update(rec.encode())
        if self.scenario.get("keep_log"):
            self.log.append(rec)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def rel(self, path):
        path = os.fspath(path)
        return path[len(self.root):] if path.startswith(self.root) else path

    def syscall(self, p, call, what, n):
        """A scheduling and fault point.  Returns the fault to apply (or None)."""
        if p.dead:
            raise SimKilled()
        self._yield(p)
        if p.dead or self.power_loss:
            p.dead = True
            raise SimKilled()
        self.step += 1
        p.steps += 1
        if p.steps > self.MAX_STEPS:
            raise StepLimit()
        self.kind_counts[call] = self.kind_counts.get(call, 0) + 1
        self.now += 1e-6 * (1 + mix(self.seed, p.name, p.steps) % 200)
        self._log(p, call, what, n)
        self.trace.append((p.name, p.steps, call))
        for i, f in enumerate(p.faults):
            if f[0] <= p.steps and call in FAULT_APPLIES[f[1]]:
                repeat = isinstance(f[2], dict) and f[2].get("repeat", 0)
                if repeat:
                    f[2] = dict(f[2], repeat=repeat - 1)
                else:
                    del p.faults[i]
                return self._fault(p, f[1], f[2], call, what)
        return None

    def _fault(self, p, kind, arg, call, what):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1
        p.user.setdefault("fired", []).append((kind, call, what))
        self._log(p, "FAULT", f"{kind} {call} {what}", 0)
        if kind == "kill":
            p.dead = True
            p.user["killed_at"] = call
            raise SimKilled()
        if kind == "power":
            self.power_loss = True
            p.dead = True
            raise SimKilled()
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if kind == "stall":
            self.now += float(arg or 10)
            return None
        if kind == "clock":
            a = arg or {}
            self.wall_offset += float(a.get("step", 0.0))
            self.wall_rate = float(a.get("rate", self.wall_rate))
            return None
        if kind in ERRNO:
            p.user["io_error"] = True
            p.user.setdefault("io_errors", []).append((kind, call, what))
            raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]), what)
        if kind == "enomem":
            raise MemoryError()
        return (kind, arg)

    def deliver_stdout(self, p, text):
        text = p.user.pop("out_tail", "") + text
        *lines, tail = text.split("\n")
        if tail:
            p.user["out_tail"] = tail
        for line in lines:
            p.out.append(line)
            self._log(p, "out", line, len(line))
            if self.on_stdout_line is not None:
                self.on_stdout_line(p, line)

    # ---------------------------------------------------------------- power loss
    def apply_power_loss(self, arg_seed):
        """Keeps an arbitrary prefix of what was not known to be stable.  Returns {relative path: cut length}."""
        cuts = {}
        for d, dirs, files in sorted(os.walk(self.root)):
            dirs.sort()
            for f in sorted(files):
                path = os.path.join(d, f)
                size = os.path.getsize(path)
                dur = min(self.durable.get(path, 0), size)
                if size > dur:
                    h = mix(self.seed, "power", arg_seed, self.rel(path))
                    mode = h % 4
                    span = size - dur
                    if mode == 0:
                        cut = dur + (h >> 8) % (span + 1)
                    elif mode == 1:      # near the end: inside the last record
                        cut = size - min(span, 1 + (h >> 8) % 40)
                    elif mode == 2:      # near the start: inside the header of a new file
                        cut = dur + min(span, (h >> 8) % 200)
                    else:                # right around a line boundary
                        with real_open(path, "rb") as fh:
                            data = fh.read()
                        nl = [i + 1 for i in range(dur, size) if data[i:i + 1] == b"\n"] or [size]
                        cut = max(dur, min(size, nl[(h >> 8) % len(nl)] + (h >> 32) % 4 - 1))
                    _real["truncate"](path, cut)
                    cuts[self.rel(path)] = cut
                    if cut == 0 and dur == 0 and (h >> 40) % 2:
                        _real["unlink"](path)
                        cuts[self.rel(path)] = -1
                    self.probe("power_cut_lossy" if cut < size else "power_cut_lossless")
                self.durable[path] = os.path.getsize(path) if os.path.exists(path) else 0
        self.power_loss = False
        self._log_sys("power", sorted(cuts.items()))
        return cuts

    def mark_all_durable(self):
        for d, _, files in os.walk(self.root):
            for f in files:
                path = os.path.join(d, f)
                self.durable[path] = os.path.getsize(path)

    def _log_sys(self, what, arg):
        rec = f"{self.step} SYS {what} {arg}"
        self.digest.update(rec.encode())
        if self.scenario.get("keep_log"):
            self.log.append(rec)

    # ---------------------------------------------------------------- files
    def _in_root(self, path):
        """Absolute path inside the scratch directory, or None."""
        if isinstance(path, int):
            return None
        try:
            s = os.fspath(path)
        except TypeError:
            return None
        if isinstance(s, bytes):
            s = os.fsdecode(s)
        a = os.path.normpath(os.path.join(self.current_cwd(), s))
        return a if a == self.root or a.startswith(self.root + "/") else None

    def current_cwd(self):
        p = getattr(_tls, "proc", None)
        return p.cwd if p is not None else _real["getcwd"]()

    def _me(self, *paths):
        p = getattr(_tls, "proc", None)
        if p is None:
            return None
        for x in paths:
            if self._in_root(x) is not None:
                return p
        return None

    def _open(self, file, mode="r", *args, **kw):
        p = getattr(_tls, "proc", None)
        if p is not None and (isinstance(file, int) and file in self.fds or kw.get("opener") is not None
                              or not isinstance(file, int) and self._in_root(file) is not None):
            return _pyio.open(file, mode, *args, **kw)
        return real_open(file, mode, *args, **kw)

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self._me(path) if dir_fd is None else None
        if p is None:
            return _real["open"](path, flags, mode, dir_fd=dir_fd)
        a = self._in_root(path)
        w = (flags & (os.O_WRONLY | os.O_RDWR)) != 0
        self.syscall(p, "open_w" if w else "open_r", self.rel(a), flags & (os.O_TRUNC | os.O_APPEND | os.O_EXCL | os.O_CREAT))
        existed = os.path.lexists(a)
        fd = _real["open"](a, flags, mode)
        if w and (flags & os.O_TRUNC or not existed):
            self.durable[a] = 0
            if self.on_write is not None:
                self.on_write(p, a, "trunc", 0, 0)
        vfd = self.next_vfd
        self.next_vfd += 1
        self.fds[vfd] = dict(fd=fd, proc=p, path=a, w=w, append=bool(flags & os.O_APPEND))
        return vfd

    def _fd(self, fd):
        """(proc, entry) of a virtual descriptor; (None, None) for real ones."""
        if isinstance(fd, int) and fd >= 10_000_000:
            p = getattr(_tls, "proc", None)
            v = self.fds.get(fd)
            if v is None or p is None or v["proc"].dead:
                raise SimKilled() if (p is not None and p.dead) else OSError(errno.EBADF, "Bad file descriptor")
            return p, v
        return None, None

    def _os_write(self, fd, data):
        p, v = self._fd(fd)
        if p is None:
            return _real["write"](fd, data)
        data = bytes(data)
        if p.user.get("disk_full"):
            self.syscall(p, "write", self.rel(v["path"]), len(data))
            self.probe("full_disk_error")
            p.user.setdefault("io_errors", []).append(("full", "write", self.rel(v["path"])))
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if p.user.pop("short_next", None) == fd:
            # The device was full halfway through the previous write.
            self.syscall(p, "write", self.rel(v["path"]), len(data))
            self.probe("short_write_error")
            p.user["io_error"] = True
            p.user.setdefault("io_errors", []).append(("short", "write", self.rel(v["path"])))
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        f = self.syscall(p, "write", self.rel(v["path"]), len(data))
        if f is not None and f[0] == "full":
            p.user["disk_full"] = True
            p.user["io_error"] = True
            p.user.setdefault("io_errors", []).append(("full", "write", self.rel(v["path"])))
            data = data[:int(f[1] or 0) % max(1, len(data))]
            self.probe("full_disk_partial" if data else "full_disk_nothing")
            if not data:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if f is not None and f[0] in ("short", "shortok") and len(data) > 1:
            k = 1 + (int(f[1] or 0) % (len(data) - 1))
            if f[0] == "short":
                p.user["short_next"] = fd
            data = data[:k]
            self.probe("short_write")
        a = os.fstat(v["fd"]).st_size if v["append"] else _real["lseek"](v["fd"], 0, os.SEEK_CUR)
        n = _real["write"](v["fd"], data)
        assert n == len(data)
        if self.on_write is not None:
            self.on_write(p, v["path"], "write", a, a + n)
        return n

    def _os_read(self, fd, n):
        p, v = self._fd(fd)
        if p is None:
            return _real["read"](fd, n)
        self.syscall(p, "read", self.rel(v["path"]), n)
        data = _real["read"](v["fd"], n)
        if "streams" in p.user:
            if "stream" not in v:
                v["stream"] = []
                p.user["streams"].append((v["path"], v["stream"]))
            v["stream"].append(data)
        return data

    def _os_close(self, fd):
        if isinstance(fd, int) and fd >= 10_000_000:
            p = getattr(_tls, "proc", None)
            v = self.fds.get(fd)
            if v is None:
                if p is None or p.dead:
                    return          # garbage collection after the process is gone
                raise OSError(errno.EBADF, "Bad file descriptor")
            if p is None or v["proc"].dead:
                if p is not None and p.dead:
                    raise SimKilled()
                return
            try:
                self.syscall(p, "close_w" if v["w"] else "close_r", self.rel(v["path"]), 0)
            finally:
                # On Linux the descriptor is released even if close reports an error.
                self._drop_fd(fd)
            return None
        return _real["close"](fd)

    def _os_lseek(self, fd, pos, how):
        p, v = self._fd(fd)
        return _real["lseek"](fd if p is None else v["fd"], pos, how)

    def _os_fstat(self, fd):
        if isinstance(fd, int) and fd >= 10_000_000:
            p, v = self._fd(fd)
            return _real["fstat"](v["fd"])
        return _real["fstat"](fd)

    def _os_isatty(self, fd):
        p, v = self._fd(fd)
        return False if p is not None else _real["isatty"](fd)

    def _os_get_inheritable(self, fd):
        return False if isinstance(fd, int) and fd >= 10_000_000 else _real["get_inheritable"](fd)

    def _os_set_inheritable(self, fd, x):
        return None if isinstance(fd, int) and fd >= 10_000_000 else _real["set_inheritable"](fd, x)

    def _os_ftruncate(self, fd, n):
        p, v = self._fd(fd)
        if p is None:
            return _real["ftruncate"](fd, n)
        self.syscall(p, "truncate", self.rel(v["path"]), n)
        _real["ftruncate"](v["fd"], n)
        self.durable[v["path"]] = min(self.durable.get(v["path"], 0), n)
        if self.on_write is not None:
            self.on_write(p, v["path"], "trunc", n, n)

    def _os_truncate(self, path, n):
        if isinstance(path, int):
            return self._os_ftruncate(path, n)
        p = self._me(path)
        if p is None:
            return _real["truncate"](path, n)
        a = self._in_root(path)
        self.syscall(p, "truncate", self.rel(a), n)
        _real["truncate"](a, n)
        self.durable[a] = min(self.durable.get(a, 0), n)
        if self.on_write is not None:
            self.on_write(p, a, "trunc", n, n)

    def _os_fsync(self, fd):
        p, v = self._fd(fd)
        if p is None:
            return _real["fsync"](fd)
        self.syscall(p, "fsync", self.rel(v["path"]), 0)
        self.durable[v["path"]] = _real["fstat"](v["fd"]).st_size

    _os_fdatasync = _os_fsync

    def _os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self._os_fstat(path)
        p = self._me(path) if dir_fd is None else None
        if p is not None:
            self.syscall(p, "stat", self.rel(self._in_root(path)), 0)
        return _real["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)

    def _os_lstat(self, path, *, dir_fd=None):
        p = self._me(path) if dir_fd is None else None
        if p is not None and p.dead:
            raise SimKilled()
        return _real["lstat"](path, dir_fd=dir_fd)

    def _path_op(self, call, real, path, *args, **kw):
        p = self._me(path)
        if p is not None:
            self.syscall(p, call, self.rel(self._in_root(path)), 0)
        return _real[real](path, *args, **kw)

    def _os_mkdir(self, path, mode=0o777, **kw):
        return self._path_op("mkdir", "mkdir", path, mode, **kw)

    def _os_rmdir(self, path, **kw):
        return self._path_op("rmdir", "rmdir", path, **kw)

    def _os_unlink(self, path, **kw):
        r = self._path_op("unlink", "unlink", path, **kw)
        a = self._in_root(path)
        if a is not None and self.on_write is not None and getattr(_tls, "proc", None) is not None:
            self.on_write(getattr(_tls, "proc"), a, "unlink", 0, 0)
        return r

    _os_remove = _os_unlink

    def _rename(self, real, src, dst, **kw):
        p = self._me(src, dst)
        if p is not None:
            self.syscall(p, "rename", self.rel(self._in_root(src) or "?"), 0)
        r = _real[real](src, dst, **kw)
        if p is not None:
            a, b = self._in_root(src), self._in_root(dst)
            if a is not None and b is not None:
                self.durable[b] = self.durable.pop(a, 0)
                if self.on_write is not None:
                    self.on_write(p, b, "rename", a, 0)
        return r

    def _os_rename(self, src, dst, **kw):
        return self._rename("rename", src, dst, **kw)

    def _os_replace(self, src, dst, **kw):
        return self._rename("replace", src, dst, **kw)

    def _os_link(self, src, dst, **kw):
        p = self._me(src, dst)
        if p is not None:
            self.syscall(p, "link", self.rel(self._in_root(dst) or "?"), 0)
        r = _real["link"](src, dst, **kw)
        if p is not None and self.on_write is not None:
            self.on_write(p, self._in_root(dst), "rename", self._in_root(src), 0)
        return r

    def _os_listdir(self, path="."):
        if isinstance(path, int):
            return _real["listdir"](path)
        p = self._me(path)
        if p is not None:
            self.syscall(p, "listdir", self.rel(self._in_root(path)), 0)
            return sorted(_real["listdir"](path))
        return _real["listdir"](path)

    def _os_scandir(self, path="."):
        if isinstance(path, int):
            return _real["scandir"](path)
        p = self._me(path)
        if p is not None:
            self.syscall(p, "listdir", self.rel(self._in_root(path)), 0)
            # Directory order is unspecified: pick one from the seed.
            with _real["scandir"](path) as it:
                entries = sorted(it, key=lambda e: e.name)
            random.Random(mix(self.seed, "dirorder", self.rel(self._in_root(path)))).shuffle(entries)
            return _Scan(entries)
        return _real["scandir"](path)

    def _os_access(self, path, mode, **kw):
        p = self._me(path)
        if p is not None:
            self.syscall(p, "stat", self.rel(self._in_root(path)), 0)
        return _real["access"](path, mode, **kw)

    def _os_getpid(self):
        p = getattr(_tls, "proc", None)
        return p.pid if p is not None else _real["getpid"]()

    def _os_system(self, command):
        p = getattr(_tls, "proc", None)
        if p is None:
            return _real["system"](command)
        rc, _, _ = self.run_child(p, command, True, None)
        return (rc << 8) if rc >= 0 else -rc

    # ---------------------------------------------------------------- locks
    def _path_of(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        p, v = self._fd(fd)
        return p, v, fd

    def _lock_free(self, p):
        return self.locks.get(p.blocked_on) is None

    def _flock(self, fd, op, *a):
        n = fd.fileno() if hasattr(fd, "fileno") else fd
        if not (isinstance(n, int) and n >= 10_000_000):
            return _real_flock(fd, op)
        p, v = self._fd(n)
        self.syscall(p, "flock", self.rel(v["path"]), op)
        if op & fcntl.LOCK_UN:
            if self.locks.get(v["path"]) == n:
                del self.locks[v["path"]]
            return
        while self.locks.get(v["path"]) not in (None, n):
            if op & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, "locked")
            p.blocked_on = v["path"]
            self.main_lock.release()
            p.go.acquire()
            p.blocked_on = None
            if p.dead:
                raise SimKilled()
        self.locks[v["path"]] = n

    # ---------------------------------------------------------------- clocks
    def _sim_thread(self):
        return getattr(_tls, "proc", None) is not None

    def _clock(self, real, f):
        p = getattr(_tls, "proc", None)
        if p is None:
            return _real_time[real]()
        if p.dead:
            raise SimKilled()
        self.now += 1e-7
        return f()

    def _t_time(self): return self._clock("time", lambda: self.wall_offset + self.now * self.wall_rate)
    def _t_time_ns(self): return self._clock("time_ns", lambda: int((self.wall_offset + self.now * self.wall_rate) * 1e9))
    def _t_monotonic(self): return self._clock("monotonic", lambda: self.now)
    def _t_monotonic_ns(self): return self._clock("monotonic_ns", lambda: int(self.now * 1e9))
    def _t_perf_counter(self): return self._clock("perf_counter", lambda: self.now)
    def _t_perf_counter_ns(self): return self._clock("perf_counter_ns", lambda: int(self.now * 1e9))
    # CPU clocks do not advance while the process waits for a child process or is stalled.
    def _t_process_time(self): return self._clock("process_time", lambda: self.now * 0.01)
    def _t_process_time_ns(self): return self._clock("process_time_ns", lambda: int(self.now * 1e7))
    def _t_thread_time(self): return self._clock("thread_time", lambda: self.now * 0.01)
    def _t_thread_time_ns(self): return self._clock("thread_time_ns", lambda: int(self.now * 1e7))

    def _t_sleep(self, s):
        p = getattr(_tls, "proc", None)
        if p is None:
            return _real_time["sleep"](s)
        self.now += float(s)
        self.syscall(p, "stat", "sleep", 0)

    # ---------------------------------------------------------------- sampling and child processes
    def do_sample(self, p, circuit, shots, stream=None):
        self.syscall(p, "sample", "sample", shots)
        if self.sampler is None:
            raise SimBug("no sampler configured")
        return self.sampler(p, circuit, shots, stream)

    def _popen(self, *a, **k):
        if getattr(_tls, "proc", None) is None:
            return _real_popen(*a, **k)
        return SimPopen(*a, **k)

    def run_child(self, p, args, shell, cwd):
        f = self.syscall(p, "popen", "popen", 0)
        if self.decoder is None:
            raise SimBug("no child program configured")
        rc, out, err = self.decoder(p, args, shell, cwd, f)
        if p.dead:
            raise SimKilled()
        self._log(p, "child", f"rc={rc}", len(out))
        return rc, out, err


class _Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _patched_compile(circuit, *a, **k):
    p = getattr(_tls, "proc", None)
    if p is None:
        return _real_compile(circuit, *a, **k)
    return Sampler(p.sim, circuit, k.get("seed", a[0] if a else None))


def current_proc():
    return getattr(_tls, "proc", None)


class outside:
    """Harness code running on a simulated process's thread: its file accesses are not simulated."""

    def __enter__(self):
        self.p = getattr(_tls, "proc", None)
        _tls.proc = None

    def __exit__(self, *a):
        _tls.proc = self.p
