"""The simulator: one object owns every source of nondeterminism of a run.

A run is a pure function of (plan, code under test).  The plan is plain JSON;
every choice that is not written out in it is derived by hashing the plan's
seed together with the name of the choice, so removing one element of a plan
never shifts the others.

Virtual time: every executed source line of the library costs LINE_COST
seconds of the executing process; waiting jumps to the next event.
"""
import hashlib
import io
import json
import os
import random
import sys
import threading
import timeit
import time as _time
from collections import Counter

LINE_COST = 1e-6
EPOCH = 1.7e9
MARK = os.sep + 'permaviss' + os.sep
TOOL = 3

real_time = _time.time
real_monotonic = _time.monotonic
real_process_time = _time.process_time
real_gettime = _time.clock_gettime
real_sleep = _time.sleep


class SimHang(BaseException):
    """Nothing can ever happen again, and the program is still waiting."""


class SimStepLimit(BaseException):
    """The step budget of the run is exhausted."""


class SimKilled(BaseException):
    """Cheap mode: the worker running this task is killed here."""


class InjectedError(Exception):
    """Generic failure injected by the simulator."""


EXCEPTIONS = {
    'MemoryError': MemoryError,
    'OSError': OSError,
    'KeyboardInterrupt': KeyboardInterrupt,
    'InjectedError': InjectedError,
    'RuntimeError': RuntimeError,
    'ValueError': ValueError,
    'FloatingPointError': FloatingPointError,
}


def rnd(seed, *key):
    """Random() stream of one named choice."""
    return random.Random(json.dumps([seed] + list(key)))


def sha(obj):
    return hashlib.sha256(json.dumps(
        obj, sort_keys=True, default=str).encode()).hexdigest()


def short(code):
    """Path of a code object inside the package."""
    f = code.co_filename
    return f[f.rfind(MARK) + 1:]


class Sim:
    current = None

    def __init__(self, env):
        self.env = env
        self.seed = env.get('seed', 0)
        self.cpus = env.get('cpus', 2)
        self.base = 0.0           # virtual seconds spent waiting
        self.lines = 0            # lines executed by this process
        self.cap = env.get('cap', 10 ** 12)
        self.log = []             # event log (schedule, faults, results)
        self.pools = []           # records of every pool ever created
        self.events = []          # heap of (time, seq, fn)
        self.seq = 0
        self.fired = Counter()
        self.faults = [dict(f) for f in env.get('faults', ())]
        self.clock_reads = 0
        self.clock_skew = 0.0
        self.out = SimStdout(self)
        self.in_worker = False
        self.profile = None       # Counter of (file, line) when profiling
        self.sched = None
        self.tasks_run = 0
        self.worker_lines = 0
        self.max_inflight = 0
        self.workers_started = 0
        self.zygote = None
        self.prof_tasks = {}
        self.task = None          # cheap mode: (pool, chunk) being executed
        self._n_write = 0

    # -- time ---------------------------------------------------------------
    def now(self):
        return self.base + self.lines * LINE_COST

    def advance_to(self, t):
        if t > self.now():
            self.base = t - self.lines * LINE_COST

    def read_clock(self, wall):
        if wall:
            i = self.clock_reads
            self.clock_reads += 1
            for at, jump in self.env.get('clock', ()):
                if at == i:
                    self.clock_skew += jump
                    self.fired['clock_jump'] += 1
            return EPOCH + self.now() + self.clock_skew
        return 1000.0 + self.now()

    # -- events -------------------------------------------------------------
    def emit(self, *ev):
        self.log.append(ev)

    # -- faults -------------------------------------------------------------
    def take(self, **match):
        """Return (and arm off) the first pending fault that matches."""
        for f in self.faults:
            if f.get('done'):
                continue
            if all(f.get(k) == v for k, v in match.items()):
                f['done'] = True
                return f
        return None

    def fire(self, f):
        self.fired[f['kind'] + ':' + str(f.get('exc', ''))] += 1
        self.emit('fault', f['kind'], f.get('exc'), f.get('where'))


def make_exc(f):
    name = f.get('exc', 'MemoryError')
    if name == 'OSError':
        return OSError(f.get('errno', 11), 'injected by the simulator')
    return EXCEPTIONS[name]('injected by the simulator')


# ---------------------------------------------------------------------------
# line events of the library

M = sys.monitoring
_installed = False


def _install():
    global _installed
    if not _installed:
        M.use_tool_id(TOOL, 'permaviss-sim')
        _installed = True


def monitor_off():
    if _installed:
        M.set_events(TOOL, 0)
        M.register_callback(TOOL, M.events.LINE, None)
        M.register_callback(TOOL, M.events.INSTRUCTION, None)


def _coarse(sim):
    """Only count jumps and calls (about a fifth of the line events)."""
    DISABLE = M.DISABLE
    ours = {}
    cap = sim.cap

    def mine(code):
        r = ours[code] = MARK in code.co_filename
        return r

    def jump(code, off, dest=0):
        if not (ours[code] if code in ours else mine(code)):
            return DISABLE
        sim.lines += 5
        if sim.lines > cap:
            raise SimStepLimit()
    M.register_callback(TOOL, M.events.JUMP, jump)
    M.register_callback(TOOL, M.events.PY_START, jump)
    M.set_events(TOOL, M.events.JUMP | M.events.PY_START)
    M.restart_events()


def monitor_on(sim, targets=(), profile=False):
    """Count (and possibly fault, profile or preempt) library lines.

    targets: list of armed faults with 'file', 'line', 'n' keys and a 'do'
    callable run when the n-th execution of that line starts.
    """
    _install()
    if sim.env.get('coarse'):
        return _coarse(sim)
    DISABLE = M.DISABLE
    ours = {}
    cap = sim.cap
    sched = sim.sched

    def mine(code):
        r = ours[code] = MARK in code.co_filename
        return r

    if sched is not None:
        tick = sched.tick

        def line(code, ln):
            if not (ours[code] if code in ours else mine(code)):
                return DISABLE
            sim.lines += 1
            if sim.lines > cap:
                raise SimStepLimit()
            tick(code, ln)
        if sim.env.get('instr'):       # preemption between any two bytecodes
            M.register_callback(TOOL, M.events.INSTRUCTION, line)
            M.set_events(TOOL, M.events.INSTRUCTION)
            M.restart_events()
            return
    elif profile:
        sim.profile = Counter()

        def line(code, ln):
            if not (ours[code] if code in ours else mine(code)):
                return DISABLE
            sim.lines += 1
            if sim.lines > cap:
                raise SimStepLimit()
            sim.profile[(code, ln)] += 1
    elif targets:
        want = {}
        for f in targets:
            want.setdefault(f['line'], []).append(
                [f['file'], f['n'], f, f.get('ctx')])

        def line(code, ln):
            if not (ours[code] if code in ours else mine(code)):
                return DISABLE
            sim.lines += 1
            if sim.lines > cap:
                raise SimStepLimit()
            if ln in want:
                for w in want[ln]:
                    if w[3] == sim.task and w[0] == short(code):
                        w[1] -= 1
                        if w[1] == 0:
                            w[2]['do']()
    else:
        def line(code, ln):
            if not (ours[code] if code in ours else mine(code)):
                return DISABLE
            sim.lines += 1
            if sim.lines > cap:
                raise SimStepLimit()
    M.register_callback(TOOL, M.events.LINE, line)
    M.set_events(TOOL, M.events.LINE)
    M.restart_events()


def profile_table(sim):
    """{(file, line): count} of the current profile."""
    out = {}
    for (code, ln), n in (sim.profile or {}).items():
        k = (short(code), ln)
        out[k] = out.get(k, 0) + n
    return out


# ---------------------------------------------------------------------------
# stdout

class SimStdout(io.TextIOBase):
    """Captures what the library prints, per calling thread, and can fail."""

    def __init__(self, sim):
        self.sim = sim
        self.chunks = {}

    def writable(self):
        return True

    def write(self, s):
        sim = self.sim
        k = sim._n_write
        sim._n_write += 1
        for f in sim.faults:
            if f['kind'] == 'stdout' and f['n'] == k and not f.get('done'):
                f['done'] = True
                sim.fire(f)
                raise OSError(f.get('errno', 28), 'injected by the simulator')
        me = sim.sched.me() if sim.sched is not None else 0
        self.chunks.setdefault(me, []).append(s)
        return len(s)

    def flush(self):
        pass

    def text(self, who=0):
        return ''.join(self.chunks.get(who, ()))

    def clear(self):
        self.chunks.clear()


# ---------------------------------------------------------------------------
# clocks, randomness, sorting: the seams that are module attributes

def install_process_seams():
    """Patch clocks, entropy and CPU counts.  Done once per run process,
    before the library is imported."""
    def wall():
        s = Sim.current
        return s.read_clock(True) if s else real_time()

    def mono():
        s = Sim.current
        return s.read_clock(False) if s else real_monotonic()

    def cpu():
        """Processor time of this process: waiting does not count."""
        s = Sim.current
        return s.lines * LINE_COST if s else real_process_time()

    def gettime(clk):
        if Sim.current is None:
            return real_gettime(clk)
        if clk == _time.CLOCK_REALTIME:
            return wall()
        if clk in (_time.CLOCK_PROCESS_CPUTIME_ID,
                   _time.CLOCK_THREAD_CPUTIME_ID):
            return cpu()
        return mono()

    def sleep(x):
        s = Sim.current
        if s is None:
            return real_sleep(x)
        s.base += max(0.0, x)
    _time.time = wall
    _time.time_ns = lambda: int(wall() * 1e9)
    _time.monotonic = mono
    _time.perf_counter = mono
    _time.process_time = _time.thread_time = cpu
    _time.clock_gettime = gettime
    _time.clock_gettime_ns = lambda c: int(gettime(c) * 1e9)
    timeit.default_timer = mono
    _time.monotonic_ns = lambda: int(mono() * 1e9)
    _time.perf_counter_ns = lambda: int(mono() * 1e9)
    _time.process_time_ns = lambda: int(cpu() * 1e9)
    _time.thread_time_ns = _time.process_time_ns
    _time.sleep = sleep

    import multiprocessing
    real_cpu = os.cpu_count

    def cpus():
        s = Sim.current
        return s.cpus if s else real_cpu()
    os.cpu_count = cpus
    multiprocessing.cpu_count = cpus
    os.sched_getaffinity = lambda pid=0: set(range(cpus()))

    import numpy as np
    real_rng, real_rs = np.random.default_rng, np.random.RandomState
    count = [0]

    def entropy():
        s = Sim.current
        count[0] += 1
        return rnd(s.seed if s else 0, 'entropy', count[0]).getrandbits(31)

    def default_rng(seed=None):
        return real_rng(entropy() if seed is None else seed)

    class RandomState(real_rs):
        def __init__(self, seed=None):
            super().__init__(entropy() if seed is None else seed)
    np.random.default_rng = default_rng
    np.random.RandomState = RandomState
    install_argsort(np)
    install_locks()


def install_argsort(np):
    """np.argsort's default algorithm leaves the order of equal keys to the
    CPU (vectorised code paths differ); the simulator owns that choice."""
    real = np.argsort

    def argsort(a, axis=-1, kind=None, order=None, **kw):
        s = Sim.current
        ties = s.env.get('ties') if s else None
        if not ties or kind in ('stable', 'mergesort') or kw.get('stable') \
                or order is not None:
            return real(a, axis=axis, kind=kind, order=order, **kw)
        a_ = np.asarray(a)
        if a_.ndim != 1 or a_.size < 2:
            return real(a, axis=axis, kind=kind, order=order, **kw)
        s.tie_calls = getattr(s, 'tie_calls', 0) + 1
        r = rnd(ties, 'ties', sha(a_.astype(float).tolist()))
        prm = list(range(a_.size))
        if ties == 'reverse':
            prm.reverse()
        else:
            r.shuffle(prm)
        prm = np.array(prm)
        o = real(a_[prm], kind='stable')
        res = prm[o]
        if len(np.unique(a_)) < a_.size:
            s.fired['tie_order'] += 1
        return res
    np.argsort = argsort


def install_locks():
    """Locks created by library code block cooperatively."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_library():
        f = sys._getframe(2)
        return f.f_globals.get('__name__', '').startswith('permaviss')

    def Lock():
        if from_library():
            return SimLock(False)
        return real_lock()

    def RLock(*a):
        if from_library():
            return SimLock(True)
        return real_rlock(*a)
    threading.Lock, threading.RLock = Lock, RLock


class SimLock:
    def __init__(self, reentrant):
        self.re = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = Sim.current
        me = s.sched.me() if s is not None and s.sched is not None else -1
        while self.depth and not (self.re and self.owner == me):
            if not blocking:
                return False
            if s is None or s.sched is None:
                raise SimHang('self deadlock on a lock')
            if timeout is not None and timeout >= 0:
                return False
            s.sched.block()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.depth > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")
