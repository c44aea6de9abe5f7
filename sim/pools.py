"""Simulated process pools (multiprocessing.Pool, ProcessPoolExecutor, ...).

Each simulated worker is a real forked process, so it has exactly the memory a
real worker would have, but it only runs while the simulator is waiting for
it: the simulator decides which worker takes which chunk, how fast it is, when
its result arrives and whether (and on which source line) it raises, stalls or
dies.  No two processes of a run ever run at the same time.
"""
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import heapq
import itertools
import multiprocessing
import multiprocessing.dummy
import multiprocessing.pool
import os
import pickle
import signal
import socket
import struct
import sys
import traceback
import weakref
from concurrent.futures import Future
from concurrent.futures.process import BrokenProcessPool

from . import core
from .core import Sim, SimHang, SimStepLimit, rnd, LINE_COST

RealMaybeEncodingError = multiprocessing.pool.MaybeEncodingError
CTRL = (SimHang, SimStepLimit)
SimKilled = core.SimKilled


# ---------------------------------------------------------------------------
# wire

def _send(sock, obj):
    b = pickle.dumps(obj, -1)
    sock.sendall(struct.pack('<Q', len(b)) + b)


def _recv_n(sock, n):
    out = bytearray()
    while len(out) < n:
        b = sock.recv(min(1 << 20, n - len(out)))
        if not b:
            return None
        out += b
    return bytes(out)


def _recv(sock):
    h = _recv_n(sock, 8)
    if h is None:
        return None
    b = _recv_n(sock, struct.unpack('<Q', h)[0])
    return None if b is None else pickle.loads(b)


# ---------------------------------------------------------------------------
# the worker process

class _RemoteTraceback(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _dump_exc(e):
    tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    try:
        b = pickle.dumps(e, -1)
        pickle.loads(b)
    except Exception as err:
        b = pickle.dumps(RealMaybeEncodingError(err, repr(e)), -1)
    return ('exc', b, tb)


def _run_items(mode, func, items):
    if mode == 'star':
        return [func(*a) for a in items]
    if mode == 'call':
        return [func(*items[0], **items[1])]
    return [func(a) for a in items]


def worker_main(sock, sim, style, initializer, initargs):
    """style: 'pool' or 'executor' (what an escaping BaseException does)."""
    sim.in_worker = True
    sim.sched = None
    sim.zygote = None
    sim.events, sim.log = [], []
    Sim.current = sim
    sys.stdout = sim.out
    dead_init = False
    if initializer is not None:
        core.monitor_off()
        try:
            initializer(*initargs)
        except BaseException:
            dead_init = True
    while True:
        msg = _recv(sock)
        if msg is None or dead_init:
            os._exit(1)
        payload, mode, faults, profile, cap, out0 = msg
        sim.fired.clear()
        sim.log = []
        sim.lines = 0
        sim.base = 0.0
        sim.cap = cap
        sim.out.clear()
        sim._n_write = 0
        sim.faults = []
        targets = []
        late = None
        bad_result = None
        for f in faults:
            if f.get('at') == 'recv':
                os.kill(os.getpid(), signal.SIGKILL)
            if f.get('at') == 'send':
                late = f
            elif f['kind'] == 'result_pickle':
                bad_result = f
            elif 'line' in f:
                g = dict(f)

                def do(g=g):
                    if g['kind'] == 'kill':
                        os.kill(os.getpid(), signal.SIGKILL)
                    if g['kind'] == 'stall':
                        sim.base += g['secs']
                        sim.fire(g)
                        return
                    sim.fire(g)
                    raise core.make_exc(g)
                g['do'] = do
                targets.append(g)
        core.monitor_on(sim, targets, profile)
        try:
            try:
                func = pickle.loads(payload[0])
                items = pickle.loads(payload[1])
                res = _run_items(mode, func, items)
                core.monitor_off()
                if bad_result is not None:
                    sim.fire(bad_result)
                    raise MemoryError('injected by the simulator')
                try:
                    rep = ('ok', pickle.dumps(res, -1))
                except Exception as e:
                    rep = _dump_exc(e if style == 'executor' else
                                    RealMaybeEncodingError(e, '...'))
            except CTRL as e:
                core.monitor_off()
                rep = ('ctrl', type(e).__name__)
            except Exception as e:
                core.monitor_off()
                rep = _dump_exc(e)
            except BaseException as e:
                core.monitor_off()
                if style == 'pool':
                    os._exit(1)       # a Pool worker exits on these
                rep = _dump_exc(e)
        except BaseException as e:    # failure while packing
            core.monitor_off()
            rep = ('exc', pickle.dumps(RuntimeError(repr(e))), '')
        if late is not None:
            os.kill(os.getpid(), signal.SIGKILL)
        prof = core.profile_table(sim) if profile else None
        _send(sock, (rep, sim.lines, sim.base, dict(sim.fired), prof,
                     sim.out.text(), list(sim.log)))


# ---------------------------------------------------------------------------
# spawn: workers forked from a process that only ever imported the library

def start_zygote(sim):
    a, b = socket.socketpair()
    pid = os.fork()
    if pid == 0:
        a.close()
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        try:
            while True:
                msg, fds, _, _ = socket.recv_fds(b, 16, 1)
                if not msg:
                    os._exit(0)
                s = socket.socket(fileno=fds[0])
                p = os.fork()
                if p == 0:
                    b.close()
                    init = _recv(s)
                    style, initializer, initargs, env = pickle.loads(init)
                    w = Sim(env)
                    worker_main(s, w, style, initializer, initargs)
                    os._exit(0)
                b.sendall(struct.pack('<Q', p))
                s.close()
        except BaseException:
            os._exit(1)
    b.close()
    sim.zygote = (a, pid)


def stop_zygote(sim):
    if sim.zygote:
        a, pid = sim.zygote
        a.close()
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        sim.zygote = None


# ---------------------------------------------------------------------------

class Worker:
    def __init__(self, sim, rec, wid):
        self.wid = wid
        self.rec = rec
        self.busy = False
        self.alive = True
        r = rnd(sim.seed, 'speed', rec.pid, wid)
        j = sim.env.get('jitter', 0)
        self.speed = 1.0 if j == 0 else r.choice([1, 1, 1, 2, 5, 50][:2 + 2 * j])
        self.sock = None
        self.os_pid = None
        if rec.kind != 'thread' and not sim.env.get('inline'):
            self._start(sim)

    def _start(self, sim):
        sim.workers_started += 1
        a, b = socket.socketpair()
        for s in (a, b):
            s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        rec = self.rec
        if rec.start == 'spawn':
            socket.send_fds(sim.zygote[0], [b'w'], [b.fileno()])
            self.os_pid = struct.unpack('<Q', _recv_n(sim.zygote[0], 8))[0]
            b.close()
            _send(a, pickle.dumps(
                (rec.style, rec.initializer, rec.initargs, sim.env), -1))
            self.own = False
        else:
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    core.monitor_off()
                    a.close()
                    for p in sim.pools:
                        for w in p.workers:
                            if w.sock is not None:
                                w.sock.close()
                    if sim.zygote:
                        sim.zygote[0].close()
                    worker_main(b, sim, rec.style, rec.initializer,
                                rec.initargs)
                finally:
                    os._exit(70)
            b.close()
            self.os_pid = pid
            self.own = True
        self.sock = a

    def stop(self):
        self.alive = False
        if self.sock is not None:
            self.sock.close()
            self.sock = None
            try:
                os.kill(self.os_pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if self.own:
                try:
                    os.waitpid(self.os_pid, 0)
                except ChildProcessError:
                    pass


class Record:
    """Bookkeeping of one pool; outlives the pool object."""

    def __init__(self, sim, kind, style, n, start, initializer, initargs):
        self.sim = sim
        self.pid = len(sim.pools)
        if self.pid >= sim.env.get('pool_cap', 10 ** 9):
            raise SimStepLimit()
        self.kind, self.style, self.n = kind, style, n
        self.start = start
        self.initializer, self.initargs = initializer, initargs
        self.queue = []
        self.workers = []
        self.released = False
        self.joined = False
        self.broken = False
        self.chunks = 0
        self.inflight = 0
        self.lost = 0
        self.ref = None
        self.respawned = 0
        self.waited = False

    def launch(self):
        if not self.workers:
            for i in range(self.n):
                self.workers.append(Worker(self.sim, self, i))

    def alive_object(self):
        return self.ref is not None and self.ref() is not None

    def stop_workers(self):
        self.last = None           # as the real pools: nothing is kept alive
        for w in self.workers:
            w.stop()

    # -- submission ---------------------------------------------------------
    def submit(self, func, items, mode, deliver):
        """deliver(kind, value): 'ok' list | 'exc' exception | 'lost'"""
        cid = self.chunks
        self.chunks += 1
        sim = self.sim
        payload = (func, items)
        if self.kind != 'thread':
            if self.last is None or self.last[0] is not func:
                self.last = [func, pickle.dumps(func, -1), None]
            payload = (self.last, pickle.dumps(items, -1))
        self.queue.append((cid, payload, mode, deliver))
        sim.emit('submit', self.pid, cid)
        self.dispatch()

    def dispatch(self):
        while self.queue and not self.broken:
            idle = [w for w in self.workers if w.alive and not w.busy]
            if not idle:
                return
            job = self.queue.pop(0)
            cid = job[0]
            if self.sim.env.get('jitter', 0):
                w = rnd(self.sim.seed, 'idle', self.pid, cid).choice(idle)
            else:
                w = idle[0]
            self.execute(w, job)

    def execute(self, w, job):
        cid, payload, mode, deliver = job
        sim = self.sim
        w.busy = True
        self.inflight += 1
        sim.max_inflight = max(sim.max_inflight, self.inflight)
        sim.tasks_run += 1
        sim.emit('start', self.pid, cid, w.wid)
        armed = []
        for f in sim.faults:
            if f.get('sticky'):
                # every task of this and all later pools
                if self.pid >= f['pool'] and f['chunk'] in (None, cid):
                    armed.append(f)
                continue
            if f.get('where') == 'task' and f.get('pool') == self.pid and \
                    f.get('chunk') == cid and not f.get('done'):
                f['done'] = True
                armed.append({k: v for k, v in f.items() if k != 'done'})
        if self.kind == 'thread':
            rep, lines, extra = self._exec_thread(payload, mode)
        elif sim.env.get('inline'):
            rep, lines, extra = self._exec_inline(
                cid, payload, mode, armed)
        else:
            rep, lines, extra = self._exec_process(
                w, cid, payload, mode, armed)
        j = sim.env.get('jitter', 0)
        delay = 0.0
        if j:
            delay = rnd(sim.seed, 'delay', self.pid, cid).choice(
                [0, 0, 1e-4, 1e-3, .05, 3.0, 600.0][:3 + 2 * j])
        t = sim.now() + lines * LINE_COST * w.speed + delay + extra + 1e-5
        sim.seq += 1
        heapq.heappush(sim.events, (
            t, sim.seq, lambda: self.complete(w, cid, rep, deliver)))

    def _exec_thread(self, payload, mode):
        func, items = payload
        try:
            return ('ok', _run_items(mode, func, items)), 0, 0.0
        except CTRL:
            raise
        except BaseException as e:
            return ('excobj', e), 0, 0.0

    def _exec_inline(self, cid, payload, mode, armed):
        """Cheap mode for wide input search: the task runs in this process,
        on a private copy of the function; arguments and results are pickled
        as always.  A worker that is killed is unwound instead."""
        cell, items = payload
        sim = self.sim
        before, base = sim.lines, sim.base
        prof = None
        if sim.env.get('profile'):
            prof, sim.profile = sim.profile, core.Counter()
        outer, sim.task = sim.task, (self.pid, cid)
        at = {f.get('at'): f for f in armed if 'at' in f}
        try:
            if 'recv' in at:
                raise SimKilled()
            if cell[2] is None:
                cell[2] = pickle.loads(cell[1])
            res = _run_items(mode, cell[2], pickle.loads(items))
            for f in armed:
                if f['kind'] == 'result_pickle':
                    sim.fire(f)
                    raise MemoryError('injected by the simulator')
            if 'send' in at:
                raise SimKilled()
            try:
                rep = ('ok', pickle.dumps(res, -1))
            except Exception as e:
                rep = _dump_exc(e if self.style == 'executor' else
                                RealMaybeEncodingError(e, '...'))
        except CTRL:
            raise
        except SimKilled:
            for f in at.values():
                sim.fire(f)
            rep = ('died',)
        except Exception as e:
            rep = _dump_exc(e)
        except BaseException as e:
            rep = _dump_exc(e) if self.style == 'executor' else ('died',)
        finally:
            sim.task = outer
        if prof is not None:
            sim.prof_tasks[(self.pid, cid)] = core.profile_table(sim)
            sim.profile = prof
        lines = sim.lines - before
        extra = sim.base - base
        sim.lines, sim.base = before, base
        sim.worker_lines += lines
        return rep, lines, extra

    def _exec_process(self, w, cid, payload, mode, armed):
        sim = self.sim
        profile = sim.env.get('profile', False)
        before = [f for f in armed if f['kind'] == 'kill']
        try:
            _send(w.sock, ((payload[0][1], payload[1]), mode, armed, profile,
                           max(1, sim.cap), ''))
            ans = _recv(w.sock)
        except (BrokenPipeError, ConnectionResetError):
            ans = None
        if ans is None:
            for f in before:
                sim.fire(f)
            return ('died',), 0, 0.0
        rep, lines, extra, fired, prof, out, log = ans
        for k, v in fired.items():
            sim.fired[k] += v
        for ev in log:
            sim.emit(*ev)
        sim.worker_lines += lines
        if prof is not None:
            sim.prof_tasks[(self.pid, cid)] = prof
        if out:
            sim.out.chunks.setdefault('worker', []).append(out)
        return rep, lines, extra

    def complete(self, w, cid, rep, deliver):
        sim = self.sim
        self.inflight -= 1
        w.busy = False
        if rep[0] == 'ctrl':
            raise {'SimHang': SimHang, 'SimStepLimit': SimStepLimit}[rep[1]]()
        if rep[0] == 'died':
            sim.emit('died', self.pid, cid, w.wid)
            w.stop()
            self.on_death(w, deliver)
        else:
            sim.emit('done', self.pid, cid, w.wid, rep[0])
            if rep[0] == 'ok':
                v = rep[1]
                if self.kind != 'thread':
                    v = pickle.loads(v)
                deliver('ok', v)
            elif rep[0] == 'excobj':
                deliver('exc', rep[1])
            else:
                e = pickle.loads(rep[1])
                e.__cause__ = _RemoteTraceback(rep[2])
                deliver('exc', e)
        self.dispatch()

    def on_death(self, w, deliver):
        if self.style == 'pool':
            # the task is lost; the pool starts a replacement worker
            self.lost += 1
            if self.respawned < 50 and not self.released_hard():
                self.respawned += 1
                self.workers.append(Worker(
                    self.sim, self, len(self.workers)))
        else:
            self.broken = True
            deliver('exc', BrokenProcessPool(
                'A process in the process pool was terminated abruptly while '
                'the future was running or pending.'))
            q, self.queue = self.queue, []
            for job in q:
                job[3]('exc', BrokenProcessPool('terminated abruptly'))
            self.stop_workers()
            for cb in list(self.pending_broken):
                cb()

    pending_broken = ()
    hard = False
    last = None          # [function, its pickle, inline copy]

    def released_hard(self):
        return self.hard


def pump(sim):
    """Let the next event happen; False when nothing can."""
    if not sim.events:
        return False
    t, _, fn = heapq.heappop(sim.events)
    sim.advance_to(t)
    fn()
    return True


def wait_for(sim, ready, rec=None, timeout=None):
    """Block the caller until ready(); returns False on timeout."""
    limit = None if timeout is None else sim.now() + timeout
    if rec is not None and not rec.waited:
        rec.waited = True
        for f in sim.faults:
            if f['kind'] == 'interrupt_wait' and f.get('pool') == rec.pid \
                    and not f.get('done'):
                f['done'] = True
                sim.fire(f)
                raise core.make_exc(f)
    while not ready():
        if sim.sched is not None:
            sim.sched.waiting()
            if ready():
                break
        if limit is not None and (
                not sim.events or sim.events[0][0] > limit):
            sim.advance_to(limit)
            return False
        if not pump(sim):
            raise SimHang('waiting for a result that can never arrive')
    return True


def new_record(obj, kind, style, n, start, initializer, initargs):
    sim = Sim.current
    if sim.in_worker and kind != 'thread' and style == 'pool':
        raise AssertionError(
            'daemonic processes are not allowed to have children')
    if n is None:
        n = sim.cpus
    if n < 1:
        raise ValueError('Number of processes must be at least 1')
    rec = Record(sim, kind, style, n, start or sim.env.get('start', 'fork'),
                 initializer, initargs or ())
    if rec.start not in ('fork', 'spawn'):
        rec.start = 'spawn'
    if rec.start == 'spawn' and sim.zygote is None:
        rec.start = 'fork'
    f = sim.take(kind='pool_create', pool=rec.pid)
    sim.pools.append(rec)
    if f:
        sim.fire(f)
        rec.released = True
        raise core.make_exc(f)
    rec.ref = weakref.ref(obj)
    sim.emit('pool', rec.pid, kind, style, n)
    return rec


def chunked(items, size):
    it = iter(items)
    while True:
        c = tuple(itertools.islice(it, size))
        if not c:
            return
        yield c


# ---------------------------------------------------------------------------
# multiprocessing.Pool

class AsyncResult:
    def __init__(self, rec, n, callback=None, error_callback=None,
                 single=False):
        self.rec, self.left = rec, n
        self.value = [None] * n
        self.error = None
        self.failed = False
        self.single = single
        self.callback, self.error_callback = callback, error_callback
        if n == 0:
            self._finish()

    def _part(self, i):
        def deliver(kind, v):
            if kind == 'ok':
                self.value[i] = v
            elif not self.failed:
                self.failed, self.error = True, v
            self.left -= 1
            if self.left == 0:
                self._finish()
        return deliver

    def _finish(self):
        if self.failed:
            if self.error_callback:
                self.error_callback(self.error)
        elif self.callback:
            self.callback(self._val())

    def _val(self):
        if self.single:
            return self.value[0][0]
        return [x for c in self.value for x in c]

    def ready(self):
        return self.left == 0

    def successful(self):
        if not self.ready():
            raise ValueError('not ready')
        return not self.failed

    def wait(self, timeout=None):
        wait_for(self.rec.sim, self.ready, self.rec, timeout)

    def get(self, timeout=None):
        if not wait_for(self.rec.sim, self.ready, self.rec, timeout):
            raise multiprocessing.TimeoutError
        if self.failed:
            raise self.error
        return self._val()


class IMapIterator:
    def __init__(self, rec, ordered):
        self.rec, self.ordered = rec, ordered
        self.got = {}
        self.ready_items = []
        self.next_i = 0
        self.total = None
        self.n_out = 0

    def _part(self, i):
        def deliver(kind, v):
            if self.ordered:
                self.got[i] = (kind, v)
            else:
                self._add(kind, v)
        return deliver

    def _add(self, kind, v):
        if kind == 'ok':
            self.ready_items += [('ok', x) for x in v]
        else:
            self.ready_items.append((kind, v))
        self.n_out += 1

    def __iter__(self):
        return self

    def _poll(self):
        while self.ordered and self.next_i in self.got:
            self._add(*self.got.pop(self.next_i))
            self.next_i += 1
        return bool(self.ready_items) or self.n_out >= self.total

    def next(self, timeout=None):
        if not wait_for(self.rec.sim, self._poll, self.rec, timeout):
            raise multiprocessing.TimeoutError
        if not self.ready_items:
            raise StopIteration
        kind, v = self.ready_items.pop(0)
        if kind == 'ok':
            return v
        raise v

    __next__ = next


class SimPool:
    _kind = 'process'

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None, start=None):
        if start is None and context is not None:
            start = getattr(context, '_sim_start', None)
        self._rec = new_record(self, self._kind, 'pool', processes, start,
                               initializer, initargs)
        self._rec.launch()
        self._state = 'RUN'

    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._rec.n * 4)
            if extra:
                chunksize += 1
        return list(chunked(items, max(1, chunksize)))

    def _map(self, func, iterable, chunksize, mode, cb=None, ecb=None):
        self._check()
        ch = self._chunks(iterable, chunksize)
        res = AsyncResult(self._rec, len(ch), cb, ecb)
        for i, c in enumerate(ch):
            self._rec.submit(func, c, mode, res._part(i))
        return res

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, 'map').get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self._map(func, iterable, chunksize, 'map', callback,
                         error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, chunksize, 'star').get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self._map(func, iterable, chunksize, 'star', callback,
                         error_callback)

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        it = IMapIterator(self._rec, ordered)
        ch = list(chunked(list(iterable), max(1, chunksize)))
        it.total = len(ch)
        for i, c in enumerate(ch):
            self._rec.submit(func, c, 'map', it._part(i))
        return it

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        self._check()
        res = AsyncResult(self._rec, 1, callback, error_callback, True)
        self._rec.submit(func, (tuple(args), dict(kwds)), 'call',
                         res._part(0))
        return res

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'
        self._rec.released = True
        rec = self._rec
        if not rec.queue and not rec.inflight:
            rec.stop_workers()

    def terminate(self):
        self._state = 'TERMINATE'
        rec = self._rec
        rec.released = rec.hard = True
        rec.queue = []
        rec.stop_workers()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        rec = self._rec
        if not rec.hard:
            wait_for(rec.sim, lambda: not rec.queue and not rec.inflight,
                     rec)
        rec.joined = True
        rec.stop_workers()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError(
            'pool objects cannot be passed between processes or pickled')


class SimThreadPool(SimPool):
    _kind = 'thread'


# ---------------------------------------------------------------------------
# concurrent.futures

class SimFuture(Future):
    _rec = None

    def result(self, timeout=None):
        if not wait_for(self._rec.sim, self.done, self._rec, timeout):
            raise concurrent.futures.TimeoutError()
        return super().result(0)

    def exception(self, timeout=None):
        if not wait_for(self._rec.sim, self.done, self._rec, timeout):
            raise concurrent.futures.TimeoutError()
        return super().exception(0)


class SimExecutor:
    _kind = 'process'

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self._rec = new_record(
            self, self._kind, 'executor', max_workers,
            getattr(mp_context, '_sim_start', None), initializer, initargs)
        self._futs = []
        self._shut = False

    def _submit(self, func, items, mode):
        rec = self._rec
        if rec.broken:
            raise BrokenProcessPool('A child process terminated abruptly, '
                                    'the process pool is not usable anymore')
        if self._shut:
            raise RuntimeError('cannot schedule new futures after shutdown')
        rec.launch()
        fut = SimFuture()
        fut._rec = rec
        self._futs.append(fut)
        rec.pending_broken = [self._broken]

        def deliver(kind, v):
            if fut.cancelled() or fut.done():
                return
            if kind == 'ok':
                fut.set_result(v if mode == 'map' else v[0])
            else:
                fut.set_exception(v)
        try:
            rec.submit(func, items, mode, deliver)
        except CTRL:
            raise
        except Exception as e:      # pickling happens in a feeder thread
            fut.set_exception(e)
        return fut

    def _broken(self):
        for f in self._futs:
            if not f.done():
                f.set_exception(BrokenProcessPool('terminated abruptly'))

    def submit(self, fn, /, *args, **kwargs):
        return self._submit(fn, (args, kwargs), 'call')

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        if len(iterables) == 1:
            futs = [self._submit(fn, c, 'map')
                    for c in chunked(iterables[0], chunksize)]
        else:
            futs = [self._submit(_Star(fn), c, 'map')
                    for c in chunked(zip(*iterables), chunksize)]
        sim = self._rec.sim
        end = None if timeout is None else sim.now() + timeout

        def results():
            try:
                futs.reverse()
                while futs:
                    f = futs.pop()
                    if end is None:
                        yield from f.result()
                    else:
                        yield from f.result(end - sim.now())
            finally:
                for f in futs:
                    f.cancel()
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        rec = self._rec
        rec.released = True
        if cancel_futures:
            rec.queue = []
            for f in self._futs:
                f.cancel()
        if wait:
            wait_for(rec.sim, lambda: rec.broken or (
                not rec.queue and not rec.inflight), rec)
            rec.joined = True
            rec.stop_workers()
        elif not rec.queue and not rec.inflight:
            rec.stop_workers()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def __reduce__(self):
        raise TypeError("cannot pickle executor objects")


class _Star:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a):
        return self.fn(*a)


class SimThreadExecutor(SimExecutor):
    _kind = 'thread'

    def __init__(self, max_workers=None, thread_name_prefix='',
                 initializer=None, initargs=()):
        super().__init__(max_workers, None, initializer, initargs)


def as_completed(fs, timeout=None):
    fs = set(fs)
    order = sorted(fs, key=lambda f: id(f))
    sim = Sim.current
    left = [f for f in order]
    end = None if timeout is None else sim.now() + timeout
    seen = set()
    while left:
        done = [f for f in left if f.done()]
        if not done:
            if not wait_for(sim, lambda: any(f.done() for f in left),
                            left[0]._rec,
                            None if end is None else end - sim.now()):
                raise concurrent.futures.TimeoutError()
            continue
        # deterministic: creation order among those already done
        done.sort(key=lambda f: (f._rec.pid, _fut_index(f)))
        for f in done:
            left.remove(f)
            seen.add(f)
            yield f


def _fut_index(f):
    obj = f._rec.ref()
    try:
        return obj._futs.index(f)
    except Exception:
        return 0


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    fs = list(fs)
    sim = Sim.current

    def ready():
        done = [f for f in fs if f.done()]
        if return_when == 'FIRST_COMPLETED':
            return bool(done) or not fs
        if return_when == 'FIRST_EXCEPTION' and any(
                not f.cancelled() and Future.exception(f, 0) for f in done):
            return True
        return len(done) == len(fs)
    if fs:
        wait_for(sim, ready, fs[0]._rec, timeout)
    d = {f for f in fs if f.done()}
    return concurrent.futures._base.DoneAndNotDoneFutures(d, set(fs) - d)


# ---------------------------------------------------------------------------

class SimContext:
    def __init__(self, real, method):
        self._real = real
        self._sim_start = method

    def Pool(self, processes=None, initializer=None, initargs=(),
             maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild,
                       start=self._sim_start)

    def cpu_count(self):
        return Sim.current.cpus

    def __getattr__(self, k):
        return getattr(self._real, k)


def install_pool_seams():
    mp = multiprocessing
    real_ctx = mp.get_context

    def get_context(method=None):
        return SimContext(real_ctx(method), method)

    def Pool(processes=None, initializer=None, initargs=(),
             maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)
    mp.Pool = Pool
    mp.get_context = get_context
    mp.pool.Pool = SimPool
    mp.pool.ThreadPool = SimThreadPool

    multiprocessing.dummy.Pool = SimThreadPool
    cf = concurrent.futures
    cf.ProcessPoolExecutor = SimExecutor
    cf.process.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimThreadExecutor
    cf.thread.ThreadPoolExecutor = SimThreadExecutor
    cf.as_completed = as_completed
    cf.wait = wait
    cf._base.as_completed = as_completed
    cf._base.wait = wait
