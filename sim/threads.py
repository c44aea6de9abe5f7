"""Caller threads under a deterministic scheduler.

The threads are real, but exactly one holds the baton; it is handed over only
at library source lines (or when a thread ends or blocks on a simulated lock)
and only when the plan says so.
"""
import sys
import threading

from . import core
from .core import Sim, SimHang, SimStepLimit, rnd

_real_lock = threading.Lock      # captured before the seams are installed


class Abort(BaseException):
    pass


class Sched:
    """policy: dict
         {'kind': 'explicit', 'switches': [[step, thread], ...]}
         {'kind': 'random', 'every': mean lines between switches}
         {'kind': 'pct', 'points': [[step, thread]...]}  (same as explicit)
         {'kind': 'loc', 'targets': [[file, line, occurrence, thread]...]}
       Executed switches are recorded in self.switches in explicit form.
    """

    def __init__(self, sim, n, policy):
        self.sim = sim
        self.n = n
        self.policy = policy
        self.locks = [_real_lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.alive = [True] * n
        self.cur = None
        self.ids = {}
        self.switches = []
        self.step = 0
        self.order = []
        self.aborting = False
        self.blocked = set()
        k = policy['kind']
        self.kind = k
        if k == 'explicit':
            self.at = {}
            for s, t in policy['switches']:
                self.at[s] = t
        elif k == 'random':
            self.r = rnd(sim.seed, 'switch')
            self.next = self._gap()
        elif k == 'loc':
            self.loc = {}
            for f, ln, occ, t in policy['targets']:
                self.loc.setdefault(ln, []).append([f, occ, t])

    def _gap(self):
        e = self.policy['every']
        return self.step + 1 + int(self.r.expovariate(1.0 / e))

    def me(self):
        return self.ids.get(threading.get_ident(), -1)

    # called for every library line, by the thread that holds the baton
    def tick(self, code, ln):
        if self.aborting:
            raise Abort()
        self.step += 1
        s = self.step
        if self.kind == 'explicit':
            if s in self.at:
                self.switch(self.at[s])
        elif self.kind == 'random':
            if s >= self.next:
                self.next = self._gap()
                live = [i for i in range(self.n)
                        if self.alive[i] and i != self.cur]
                if live:
                    self.switch(self.r.choice(live))
        elif ln in self.loc:
            for w in self.loc[ln]:
                if w[0] == core.short(code):
                    w[1] -= 1
                    if w[1] == 0:
                        self.switch(w[2])

    def waiting(self):
        """The running thread is about to wait for its workers."""
        if self.aborting:
            raise Abort()
        self.step += 1
        if self.kind == 'explicit':
            if self.step in self.at:
                self.switch(self.at[self.step])
        elif self.kind == 'random':
            live = [i for i in range(self.n)
                    if self.alive[i] and i != self.cur]
            if live and self.r.random() < .3:
                self.switch(self.r.choice(live))
        else:
            for w in self.loc.get(0, ()):
                if w[0] == '@wait':
                    w[1] -= 1
                    if w[1] == 0:
                        self.switch(w[2])

    def switch(self, to):
        me = self.cur
        if to == me or not (0 <= to < self.n) or not self.alive[to]:
            return
        self.switches.append([self.step, to])
        self.sim.emit('switch', self.step, me, to)
        self.cur = to
        self.locks[to].release()
        self.locks[me].acquire()
        if self.aborting:
            raise Abort()

    def block(self):
        """The running thread waits for a lock somebody else holds."""
        self.blocked.add(self.cur)
        live = [i for i in range(self.n)
                if self.alive[i] and i not in self.blocked]
        if not live:
            raise SimHang('all threads wait for locks')
        nxt = [i for i in live if i > self.cur] or live
        self.switch(nxt[0])
        self.blocked.discard(self.cur)

    def run(self, bodies, first=0):
        threads = []
        results = [None] * self.n

        def entry(i):
            self.ids[threading.get_ident()] = i
            self.locks[i].acquire()
            try:
                if not self.aborting:
                    results[i] = ('ok', bodies[i]())
            except Abort:
                results[i] = ('abort', None)
            except (SimHang, SimStepLimit) as e:
                results[i] = ('ctrl', type(e).__name__)
                self.aborting = True
            except BaseException as e:
                results[i] = ('exc', e)
            self.alive[i] = False
            self.blocked.clear()
            live = [k for k in range(self.n) if self.alive[k]]
            if live:
                nxt = ([k for k in live if k > i] or live)[0]
                self.cur = nxt
                self.sim.emit('switch', self.step, i, nxt)
                self.locks[nxt].release()
            else:
                self.main.release()
        for i in range(self.n):
            t = threading.Thread(target=entry, args=(i,), daemon=True)
            t.start()
            threads.append(t)
        self.cur = first
        self.locks[first].release()
        self.main.acquire()
        for t in threads:
            t.join()
        return results
