"""The checks: for every property, how a seed becomes a plan, how a plan is
executed and judged, and how a failing plan is made smaller.

execute(plan) -> {'v': None | [class, message], 'st': {...}, 'log': hash}
A plan is plain JSON.  Nothing outside the plan (and the code under test)
influences the outcome.
"""
import copy
import gc
import json
import os
import random
import sys
from collections import Counter

from . import core, pools, target, threads, workload
from . import ambient
from . import refmodel as rm
from .core import Sim, SimHang, SimStepLimit, rnd, sha

CAP = 20_000_000
HERE = os.path.dirname(os.path.abspath(__file__))
_corpus = None
SPEC = ('kind', 'points', 'max_r', 'max_dim', 'max_div', 'overlap', 'p')


def corpus():
    global _corpus
    if _corpus is None:
        f = os.path.join(os.path.dirname(HERE), 'corpus', 'specs.json')
        _corpus = json.load(open(f)) if os.path.exists(f) else []
    return _corpus


# ---------------------------------------------------------------------------
# running one API call inside a simulator

def open_sim(env):
    env = dict(env)
    env.setdefault('cap', CAP)
    sim = Sim(env)
    Sim.current = sim
    target.T['np'].random.seed(rnd(sim.seed, 'np').getrandbits(31))
    random.seed(rnd(sim.seed, 'py').getrandbits(31))
    if env.get('start') == 'spawn':
        pools.start_zygote(sim)
    return sim


def close_sim(sim):
    core.monitor_off()
    for r in sim.pools:
        r.stop_workers()
    pools.stop_zygote(sim)
    Sim.current = None


def arm_parent(sim):
    targets = []
    inline = sim.env.get('inline')
    for f in sim.faults:
        if f.get('where') == 'parent' or \
                inline and f.get('where') == 'task' and 'line' in f:
            def do(f=f):
                f['done'] = True
                sim.fire(f)
                if f['kind'] == 'kill':
                    raise core.SimKilled()
                if f['kind'] == 'stall':
                    sim.base += f['secs']
                    return
                raise core.make_exc(f)
            f['do'] = do
            if f['where'] == 'task':
                f['ctx'] = (f['pool'], f['chunk'])
            targets.append(f)
    return targets


def call(sim, fn, targets=None):
    """-> ('ok', result) | ('exc', exception) | ('ctrl', name)"""
    so = sys.stdout
    sys.stdout = sim.out
    if targets is None:
        targets = arm_parent(sim)
    core.monitor_on(sim, targets, sim.env.get('profile', False))
    try:
        try:
            r = ('ok', fn())
        finally:
            core.monitor_off()
            sys.stdout = so
    except (SimHang, SimStepLimit) as e:
        r = ('ctrl', type(e).__name__)
    except BaseException as e:
        r = ('exc', e)
    return r


def tb_text(e):
    import traceback
    fr = [f for f in traceback.extract_tb(e.__traceback__)
          if core.MARK in f.filename]
    at = '%s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno) \
        if fr else '?'
    return '%s(%s) at %s' % (type(e).__name__, str(e)[:80], at)


def sched_stats(sim, st):
    st['pools'] = st.get('pools', 0) + len(sim.pools)
    st['tasks'] = st.get('tasks', 0) + sim.tasks_run
    st['lines'] = st.get('lines', 0) + sim.lines + sim.worker_lines
    st['vtime'] = st.get('vtime', 0) + sim.now()
    st['inflight'] = max(st.get('inflight', 0), sim.max_inflight)
    st['workers'] = st.get('workers', 0) + sim.workers_started
    f = st.setdefault('faults', {})
    for k, v in sim.fired.items():
        f[k] = f.get(k, 0) + v
    il = sha([e for e in sim.log if e[0] in (
        'start', 'done', 'died', 'switch', 'fault')])
    st.setdefault('inter', []).append(il[:16])


def leaks(sim):
    """Pools whose workers nobody has told to stop."""
    import multiprocessing
    import threading
    out = [r.pid for r in sim.pools
           if not r.released and not r.broken and r.alive_object()]
    # processes and threads started without a pool
    out += ['process %s' % c.name for c in multiprocessing.active_children()]
    out += ['thread %s' % t.name for t in threading.enumerate()
            if t is not threading.main_thread()
            and t is not threading.current_thread()]
    return out


# ---------------------------------------------------------------------------
# environments

def rand_env(r, fork=False, jitter=True, spawn=0.2):
    env = {'seed': r.getrandbits(40),
           'cpus': r.choice([1, 1, 2, 2, 2, 3, 3, 4, 8]),
           'jitter': r.choice([0, 1, 2, 2]) if jitter else 0}
    if not fork:
        env['inline'] = True
        env['coarse'] = True
    elif r.random() < spawn:
        env['start'] = 'spawn'
    return env


def feature_spec(r, max_cost, kinds=None, p_corpus=0.35, dims=None,
                 primes=None):
    """A fresh spec, or a neighbour of a corpus entry (inputs that reach rare
    branches: nontrivial extensions, higher differentials...)."""
    if kinds is None and dims is None and r.random() < .07:
        if r.random() < .5:
            return workload.many_spec(r, primes)
        s = workload.make_spec(r, max_cost=max_cost, dims=[1, 2],
                               primes=primes)
        return workload.embed(r, s)
    cs = [c for c in corpus() if c['cost'] <= max_cost and
          (dims is None or len(c['points'][0]) in dims)]
    if cs and kinds is None and r.random() < p_corpus:
        s = r.choice(cs)
        s = {k: copy.deepcopy(s[k]) for k in SPEC}
        return mutate_spec(r, s, max_cost)
    return workload.make_spec(r, max_cost=max_cost, kinds=kinds, dims=dims,
                              primes=primes)


def suspension_spec(r, max_cost=1200):
    while True:
        s = workload.suspension_spec(r)
        if workload.cost(s) <= max_cost:
            return s


def mutate_spec(r, s, max_cost):
    for _ in range(20):
        t = copy.deepcopy(s)
        t.pop('dtype', None)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.randrange(8)
            if k == 0:
                t['p'] = r.choice(workload.PRIMES)
            elif k == 1 and len(t['points']) > 3:
                t['points'].pop(r.randrange(len(t['points'])))
            elif k == 2:
                q = r.choice(t['points'])
                i = r.randrange(len(q))
                q[i] += r.choice([-8, -2, -1, 1, 2, 8]) / 256.
            elif k == 3:
                q = list(r.choice(t['points']))
                i = r.randrange(len(q))
                q[i] += r.choice([-20, -5, 0, 5, 20]) / 256.
                t['points'].append(q)
            elif k == 4:
                t['overlap'] = t['max_r'] * r.choice([1.0, 1.01, 1.3, 1.7])
            elif k == 5:
                m = r.choice([0.9, 0.97, 1.03, 1.1])
                t['max_r'] *= m
                t['overlap'] *= m
            elif k == 6:
                t['max_dim'] = max(1, t['max_dim'] + r.choice([-1, 1]))
            elif k == 7:
                r.shuffle(t['points'])
        t['kind'] = 'corpus:' + s.get('kind', '?').replace('corpus:', '')
        if len(t['points']) >= 2 and (
                workload.exact(t['points']) or
                workload.separated(t['points'], t['max_r'])) and \
                workload.cost(t) <= max_cost:
            return t
    return s


# ---------------------------------------------------------------------------
# shrinking helpers

def shrink_spec(s):
    n = len(s['points'])
    for size in (n // 2, n // 4, 2, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            if n - size < 2:
                break
            t = copy.deepcopy(s)
            del t['points'][i:i + size]
            yield t
    if s['max_div'] > 1:
        t = copy.deepcopy(s)
        t['max_div'] -= 1
        yield t
    if s['max_dim'] > 1:
        t = copy.deepcopy(s)
        t['max_dim'] -= 1
        yield t
    for p in (2, 3):
        if s['p'] > p:
            t = copy.deepcopy(s)
            t['p'] = p
            yield t


def shrink_env(env):
    for k, v in (('jitter', 0), ('cpus', 1), ('cpus', 2), ('start', None),
                 ('clock', None)):
        if env.get(k) not in (v, None) and env.get(k) != v:
            if k == 'cpus' and env[k] <= v:
                continue
            t = copy.deepcopy(env)
            if v is None:
                t.pop(k)
            else:
                t[k] = v
            yield t
    fs = env.get('faults') or []
    if len(fs) > 1:
        for i in range(len(fs)):
            t = copy.deepcopy(env)
            del t['faults'][i]
            yield t


# ---------------------------------------------------------------------------

class Check:
    """Base: a single create call judged by an oracle."""
    pid = None
    costs = {'quick': 150, 'thorough': 600}
    fork_share = 0.15
    kinds = None
    p_sus = 0.0              # share of large inputs with higher differentials
    p_long = 0.04            # share of inputs with hundreds of points
    use_corpus = True        # the first runs replay the corpus as it is
    cross_hash = False
    level = 'exploration'
    budget = {'quick': (1400, 48.0), 'thorough': (60000, 1500.0)}
    rule = ('a run = one simulated create_MV_ss session: seeded point cloud '
            'and parameters, number of CPUs, start method, task-to-worker '
            'assignment, worker speeds and result delays; non-trivial = a '
            'task ran in a pool; distinct = different sequence of (task '
            'start, task end, worker, fault, thread switch) events')
    real = ['permaviss (all of it, from /repo/src)', 'numpy', 'scipy',
            'pickle transport of tasks and results',
            'worker processes (forked, or forked from a pristine zygote for '
            '"spawn"; one at a time)']
    stubs = ['multiprocessing.Pool / ThreadPool and concurrent.futures '
             'executors (scheduling, chunking, death handling)', 'clocks',
             'CPU count', 'order of equal keys in argsort', 'stdout',
             'entropy of unseeded generators']
    assumptions = [
        'overlap >= max_r (the documented usage)',
        'radii that differ do so by more than 1e-7',
        'the simulated pools behave like the CPython 3.12 ones '
        '(tools/selftest.py compares them on the real library)']

    def cross_plan(self, plan):
        return plan

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        fork = r.random() < self.fork_share
        cost = self.costs[tier]
        if fork:
            cost = min(cost, 40 if r.random() < .7 else 120)
        elif r.random() < .06:
            cost *= 5
        spec = self.spec(r, cost)
        if self.use_corpus and nth is not None and nth < len(corpus()):
            c = corpus()[nth]
            if c['cost'] <= 5 * self.costs[tier]:
                spec = {k: c[k] for k in SPEC}
                if c['cost'] > 120:
                    fork = False
        elif self.p_sus and not fork and r.random() < self.p_sus:
            spec = suspension_spec(r)
        elif r.random() < self.p_long:
            spec, fork = workload.long_spec(r), False
        env = rand_env(r, fork)
        if spec['kind'] == 'long':
            env['cap'] = 4 * CAP
        return {'prop': self.pid, 'spec': spec, 'env': env}

    def spec(self, r, cost):
        return feature_spec(r, cost, self.kinds)

    def judge(self, S, spec, ref, sim, st):
        raise NotImplementedError

    def execute(self, plan):
        spec, st = plan['spec'], {}
        sim = open_sim(plan['env'])
        try:
            v0 = sim.now()
            kind, res = call(sim, lambda: target.op_mv(spec))
            st['elapsed'] = sim.now() - v0
            v = self.basic(kind, res)
            if v is None:
                ref = target.Ref(spec)
                features(res, spec, st)
                v = self.readable(self.judge, res, spec, ref, sim, st)
            sched_stats(sim, st)
            return {'v': v, 'st': st, 'log': sha(sim.log)}
        finally:
            close_sim(sim)

    def readable(self, fn, *a):
        """A result so malformed that it cannot be examined is wrong."""
        try:
            return fn(*a)
        except (ArithmeticError, AttributeError, LookupError, TypeError,
                ValueError) as e:
            import traceback
            t = traceback.extract_tb(e.__traceback__)[-1]
            return ['unreadable', 'the result has an unexpected form: %s: %s '
                    '(%s)' % (type(e).__name__, e, t.line)]

    def basic(self, kind, res):
        if kind == 'ctrl':
            return ['hang', 'the call does not end (%s)' % res]
        if kind == 'exc':
            return ['raise:' + type(res).__name__,
                    'fault-free call raises ' + tb_text(res)]
        return None

    def shrink(self, plan):
        for t in shrink_spec(plan['spec']):
            yield dict(plan, spec=t)
        for e in shrink_env(plan['env']):
            yield dict(plan, env=e)


def features(S, spec, st):
    """Which rare situations this run reached (evidence only)."""
    np = target.T['np']
    f = st.setdefault('reach', {})

    def hit(k):
        f[k] = f.get(k, 0) + 1
    try:
        pm = S.page_dim_matrix
        for k in range(2, S.no_pages):
            for n in range(pm.shape[2]):
                for d in range(pm.shape[1]):
                    if n + d <= spec['max_dim'] and \
                            pm[k][d][n] != pm[k + 1][d][n]:
                        hit('nonzero d%d' % k)
                        break
                else:
                    continue
                break
        if any(np.any(e) for a in S.extensions for b in a for e in b):
            hit('nontrivial extension')
        if any(pm[S.no_pages][d][n] for n in range(1, pm.shape[2])
               for d in range(pm.shape[1]) if n + d < spec['max_dim']):
            hit('classes glued from several regions')
        for d in range(2, len(S.persistent_homology)):
            if S.persistent_homology[d].dim:
                hit('H%d' % d)
        if any(len(x) == 0 for x in S.points_IN[0]):
            hit('empty region')
        hit('dim%d' % len(spec['points'][0]))
        hit('p%d' % spec['p'])
        if spec['max_div'] == 1:
            hit('single region')
    except Exception:
        hit('unreadable')


# -- C01 --------------------------------------------------------------------

class C01(Check):
    pid = 'C01'
    p_sus = 0.08
    fork_share = 0.1

    def judge(self, S, spec, ref, sim, st):
        m = target.o_barcodes(S, spec, ref)
        return ['barcode', m] if m else None


# -- C02 --------------------------------------------------------------------

class C02(Check):
    pid = 'C02'
    costs = {'quick': 60, 'thorough': 150}
    cross_hash = True
    budget = {'quick': (400, 48.0), 'thorough': (20000, 1500.0)}

    def cross_plan(self, plan):
        return dict(plan, envs=[])

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        spec = feature_spec(r, self.costs[tier])
        envs = []
        for i in range(3 if tier == 'quick' else 5):
            e = rand_env(r, True, spawn=0.3)
            e['jitter'] = r.choice([1, 2, 2])
            e['cpus'] = [2, r.choice([1, 3, 4]), r.choice([2, 5, 8]), 3, 6][i]
            if i == 1:
                e['start'] = 'spawn'
            if r.random() < .4:
                e['clock'] = [[r.randrange(3), r.choice([-3600., 1e6])]]
            envs.append(e)
        return {'prop': self.pid, 'spec': spec, 'envs': envs}

    def execute(self, plan):
        spec, st, logs = plan['spec'], {}, []
        base = None
        out0 = None
        v = None
        for i, env in enumerate([{'seed': 1, 'cpus': 1, 'inline': True,
                                  'coarse': True}] + plan['envs']):
            env = dict(env)
            env['coarse'] = True
            sim = open_sim(env)
            try:
                kind, res = call(sim, lambda: target.op_mv(spec))
                v = self.basic(kind, res)
                sched_stats(sim, st)
                logs.append(sha(sim.log))
                if v:
                    break
                if i == 0:
                    features(res, spec, st)
                parts = target.ss_parts(res)
                text = sim.out.text().split('Total PerMaViss')[0]
                if base is None:
                    base, out0 = parts, text
                else:
                    bad = [k for k in parts if parts[k] != base.get(k)]
                    if bad:
                        v = ['schedule', 'with %d workers (%s) the result '
                             'differs from the serial one in %s' % (
                                 sim.cpus, env.get('start', 'fork'),
                                 ', '.join(sorted(bad)))]
                        break
                    if text != out0:
                        v = ['schedule-text',
                             'the printed pages depend on the schedule']
                        break
            finally:
                close_sim(sim)
        return {'v': v, 'st': st, 'log': sha(logs),
                'xkey': sha(base) if base else None}

    def shrink(self, plan):
        if len(plan['envs']) > 1:
            for i in range(len(plan['envs'])):
                e = list(plan['envs'])
                del e[i]
                yield dict(plan, envs=e)
        for t in shrink_spec(plan['spec']):
            yield dict(plan, spec=t)
        for i, env in enumerate(plan['envs']):
            for e in shrink_env(env):
                es = list(plan['envs'])
                es[i] = e
                yield dict(plan, envs=es)


# -- fault checks -----------------------------------------------------------

class FaultCheck(Check):
    """A profile run without faults gives the expected result and the places
    where faults can land; then many runs with faults."""
    costs = {'quick': 40, 'thorough': 80}
    subs = {'quick': 8, 'thorough': 16}
    cheap = .6               # share of runs without worker processes

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        spec = feature_spec(r, self.costs[tier] * r.choice([.3, .3, .4, 1]))
        env = rand_env(r, True, spawn=0.1)
        env['cpus'] = min(env['cpus'], 4)
        subs = self.subs[tier]
        if r.random() < self.cheap:
            env.pop('start', None)
            env['inline'] = True
            subs *= 3
        return {'prop': self.pid, 'spec': spec, 'env': env,
                'gen': r.getrandbits(40), 'subs': subs}

    def execute(self, plan):
        """plan with 'gen': profile + generated faults; otherwise a single
        explicit run with env['faults'] (replay)."""
        spec, st = plan['spec'], {}
        env = dict(plan['env'])
        faults = env.pop('faults', None)
        # fault-free run
        sim = open_sim(dict(env, profile=True))
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            prof_parent = core.profile_table(sim)
            prof_tasks = dict(sim.prof_tasks)
            npools = self.npools = len(sim.pools)
            nwrites = sim._n_write
            v = self.basic(kind, res)
            m = None
            if v is None:
                ref = target.Ref(spec)
                m = target.o_barcodes(res, spec, ref)
                features(res, spec, st)
            if v is None and m is None:
                expect = target.ss_parts(res)
                lk = leaks(sim)
                if lk:
                    v = self.leak_violation(lk, 'after a fault-free call')
            sched_stats(sim, st)
            logs = [sha(sim.log)]
        finally:
            close_sim(sim)
        if v is not None and v[0] in ('leak', 'hang'):
            return {'v': v if v[0] in self.classes else None, 'st': st,
                    'log': sha(logs)}
        if v is not None or m is not None:
            # broken without faults: other properties report that
            st['skipped'] = 1
            return {'v': None, 'st': st, 'log': sha(logs)}
        del res
        if faults is not None:
            v, lg = self.one(spec, dict(env, faults=faults), expect, ref, st)
            return {'v': v, 'st': st, 'log': sha(logs + [lg])}
        r = random.Random(plan['gen'])
        seen = st.setdefault('sites', [])
        for i in range(plan['subs']):
            if st['lines'] > 500_000 or st['workers'] > 400:
                break          # large input: fewer faults
            fl = self.pick(r, prof_parent, prof_tasks, npools, nwrites)
            if not fl:
                continue
            e2 = dict(env, faults=fl)
            v, lg = self.one(spec, e2, expect, ref, st)
            logs.append(lg)
            for f in fl:
                seen.append('%s@%s:%s' % (f['kind'], f.get('file', f.get(
                    'at', '-')), f.get('line', '')))
            if v is not None:
                return {'v': v, 'st': st, 'log': sha(logs),
                        'plan': {'prop': self.pid, 'spec': spec, 'env': e2}}
        return {'v': None, 'st': st, 'log': sha(logs)}

    classes = ()

    def leak_violation(self, lk, when):
        return ['leak', 'worker pool(s) %s still running %s' % (lk, when)]

    def line_site(self, r, table):
        """uniform over distinct lines, then over executions of the line"""
        keys = sorted(table)
        f, ln = r.choice(keys)
        n = table[(f, ln)]
        occ = r.choice([1, n, r.randint(1, n), r.randint(1, min(n, 5))])
        return {'file': f, 'line': ln, 'n': occ}

    def own_error(self, r, f):
        """Sometimes an error that the function itself may raise."""
        if 'line' in f and r.random() < .4:
            own = target.raised_at(f['file'], f['line'])
            if own:
                f['exc'] = r.choice(own)
        return f

    def task_fault(self, r, tasks, kind, exc=None):
        pool, chunk = r.choice(sorted(tasks))
        f = {'kind': kind, 'where': 'task', 'pool': pool, 'chunk': chunk}
        tab = tasks[(pool, chunk)]
        if tab:
            f.update(self.line_site(r, tab))
        else:
            f['at'] = 'recv'
        if exc:
            f['exc'] = exc
        return f

    def shrink(self, plan):
        if 'gen' in plan:
            return
        for e in shrink_env(plan['env']):
            yield dict(plan, env=e)
        # the fault sites move with the input: keep the spec, simplify the
        # occurrence number
        for i, f in enumerate(plan['env']['faults']):
            if f.get('n', 1) > 1 and 'line' in f:
                for n in (1, f['n'] // 2, f['n'] - 1):
                    e = copy.deepcopy(plan['env'])
                    e['faults'][i]['n'] = n
                    yield dict(plan, env=e)
        for t in shrink_spec(plan['spec']):
            yield dict(plan, spec=t)


def wrong_result(res, expect, spec, ref, what):
    m = target.o_barcodes(res, spec, ref)
    if m:
        return ['wrong-result', 'after %s the call returns a wrong result: '
                '%s' % (what, m)]
    parts = target.ss_parts(res)
    bad = sorted(k for k in parts if parts[k] != expect.get(k))
    if bad:
        return ['wrong-result', 'after %s the call returns a result that '
                'differs in %s' % (what, ', '.join(bad))]
    return None


def describe(faults):
    f = faults[0]
    s = f['kind']
    if f.get('exc'):
        s += ' ' + f['exc']
    if 'line' in f:
        s += ' at %s:%s' % (os.path.basename(f['file']), f['line'])
    if f.get('where') == 'task':
        s += ' in a worker'
    return s + (' (+%d more)' % (len(faults) - 1) if len(faults) > 1 else '')


class C03(FaultCheck):
    pid = 'C03'
    classes = ()

    def pick(self, r, parent, tasks, npools, nwrites):
        fl = self.pick1(r, parent, tasks, npools, nwrites)
        while fl and r.random() < .2:
            # one failure while another is being handled, or later
            fl += self.pick1(r, parent, tasks, npools, nwrites)
        return fl

    def pick1(self, r, parent, tasks, npools, nwrites):
        k = r.random()
        exc = r.choice(['MemoryError', 'MemoryError', 'InjectedError',
                        'OSError', 'KeyboardInterrupt'])
        if k < .5 and tasks:
            return [self.own_error(r, self.task_fault(
                r, tasks, 'exc', exc))]
        if k < .86:
            f = {'kind': 'exc', 'where': 'parent', 'exc': exc}
            f.update(self.line_site(r, parent))
            return [self.own_error(r, f)]
        if k < .9 and npools:
            return [{'kind': 'pool_create', 'pool': r.randrange(npools),
                     'exc': 'OSError'}]
        if k < .94 and nwrites:
            return [{'kind': 'stdout', 'n': r.randrange(nwrites),
                     'errno': r.choice([28, 32])}]
        if tasks:
            pool, chunk = r.choice(sorted(tasks))
            return [{'kind': 'result_pickle', 'where': 'task', 'pool': pool,
                     'chunk': chunk}]
        return []

    def one(self, spec, env, expect, ref, st):
        sim = open_sim(env)
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            v = None
            what = describe(env['faults'])
            if not sim.fired:
                st['unfired'] = st.get('unfired', 0) + 1
            if kind == 'ok':
                v = wrong_result(res, expect, spec, ref, what)
                st['survived'] = st.get('survived', 0) + 1
            else:
                st['raised'] = st.get('raised', 0) + 1
            # a hang is C04's business
            sched_stats(sim, st)
            return v, sha([sim.log, kind])
        finally:
            close_sim(sim)


class C04(FaultCheck):
    pid = 'C04'
    classes = ('hang',)

    def pick(self, r, parent, tasks, npools, nwrites):
        if not tasks:
            return []
        out = []
        if r.random() < .08:
            # workers die from some moment on, whatever they work on, or
            # always when they work on the same part
            pool, chunk = r.choice(sorted(tasks))
            return [{'kind': 'kill', 'where': 'task', 'pool': pool,
                     'chunk': r.choice([None, chunk]), 'sticky': True,
                     'at': r.choice(['recv', 'send'])}]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if k < .5:
                out.append(self.task_fault(r, tasks, 'kill'))
            elif k < .8:
                pool, chunk = r.choice(sorted(tasks))
                out.append({'kind': 'kill', 'where': 'task', 'pool': pool,
                            'chunk': chunk, 'at': r.choice(['recv', 'send'])})
            elif k < .9:
                f = self.task_fault(r, tasks, 'stall')
                f['secs'] = r.choice([1., 3600., 1e5])
                out.append(f)
            else:
                out.append(self.task_fault(r, tasks, 'exc', 'SystemExit'
                           if False else r.choice(
                               ['KeyboardInterrupt', 'MemoryError'])))
        return out

    def one(self, spec, env, expect, ref, st):
        # progress bound: ten times what the fault-free run needed is ample
        # (a retry costs at most one more run)
        env = dict(env, cap=max(2_000_000, 30 * max(1, st.get('lines', 1))),
                   pool_cap=300 + 20 * self.npools)
        sim = open_sim(env)
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            v = None
            what = describe(env['faults'])
            only_stall = all(f['kind'] == 'stall' for f in env['faults'])
            if kind == 'ctrl':
                v = ['hang', 'after %s the call never ends' % what]
            elif kind == 'ok':
                v = wrong_result(res, expect, spec, ref, what)
            elif only_stall:
                v = ['slow', 'a slow worker makes the call fail: '
                     + tb_text(res)]
            if not sim.fired:
                st['unfired'] = st.get('unfired', 0) + 1
            sched_stats(sim, st)
            return v, sha([sim.log, kind])
        finally:
            close_sim(sim)


class C05(FaultCheck):
    pid = 'C05'
    classes = ('leak',)

    def pick(self, r, parent, tasks, npools, nwrites):
        k = r.random()
        if k < .35 and tasks:
            return [self.task_fault(r, tasks, 'exc', r.choice(
                ['MemoryError', 'InjectedError', 'OSError', 'RuntimeError']))]
        if k < .5 and tasks:
            return [self.task_fault(r, tasks, 'kill')]
        if k < .6 and tasks:
            pool, chunk = r.choice(sorted(tasks))
            return [{'kind': 'result_pickle', 'where': 'task', 'pool': pool,
                     'chunk': chunk}]
        if k < .8 and npools:
            return [{'kind': 'interrupt_wait', 'pool': r.randrange(npools),
                     'exc': 'KeyboardInterrupt'}]
        if k < .9 and npools:
            return [{'kind': 'pool_create', 'pool': r.randrange(npools),
                     'exc': 'OSError'}]
        if nwrites:
            return [{'kind': 'stdout', 'n': r.randrange(nwrites)}]
        return []

    def one(self, spec, env, expect, ref, st):
        sim = open_sim(env)
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            v = None
            lk = leaks(sim)       # res still holds the exception, if any
            if lk and kind != 'ctrl':
                v = self.leak_violation(lk, 'after ' + describe(
                    env['faults']))
            if not sim.fired:
                st['unfired'] = st.get('unfired', 0) + 1
            st['checked'] = st.get('checked', 0) + len(sim.pools)
            sched_stats(sim, st)
            return v, sha([sim.log, kind])
        finally:
            close_sim(sim)


class C16(FaultCheck):
    pid = 'C16'
    classes = ()
    cheap = .7

    def pick(self, r, parent, tasks, npools, nwrites):
        k = r.random()
        if k < .35 and tasks:
            return [self.task_fault(r, tasks, 'exc', r.choice(
                ['MemoryError', 'InjectedError', 'OSError',
                 'FloatingPointError']))]
        if k < .75:
            f = {'kind': 'exc', 'where': 'parent', 'exc': r.choice(
                ['MemoryError', 'InjectedError', 'OSError',
                 'KeyboardInterrupt', 'KeyboardInterrupt'])}
            f.update(self.line_site(r, parent))
            return [f]
        if k < .85 and npools:
            return [{'kind': 'interrupt_wait', 'pool': r.randrange(npools),
                     'exc': 'KeyboardInterrupt'}]
        if k < .93 and npools:
            return [{'kind': 'pool_create', 'pool': r.randrange(npools),
                     'exc': 'OSError'}]
        if nwrites:
            return [{'kind': 'stdout', 'n': r.randrange(nwrites),
                     'exc': 'OSError', 'errno': r.choice([28, 32])}]
        return []

    def one(self, spec, env, expect, ref, st):
        sim = open_sim(env)
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            v = None
            f = env['faults'][0]
            what = describe(env['faults'])
            want = f['exc']
            if not sim.fired:
                st['unfired'] = st.get('unfired', 0) + 1
            elif kind == 'exc':
                if not isinstance(res, core.EXCEPTIONS[want]):
                    v = ['other-error', 'after %s the caller gets %s' % (
                        what, tb_text(res))]
            elif kind == 'ok' and want == 'KeyboardInterrupt':
                v = ['swallowed', 'the call goes on after ' + what]
            st['checked'] = st.get('checked', 0) + 1
            sched_stats(sim, st)
            return v, sha([sim.log, kind])
        finally:
            close_sim(sim)


# -- transport --------------------------------------------------------------

class Reader:
    """A process that has done nothing yet, and will receive bytes."""

    def __init__(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                # workers forked later hold the other end too: no EOF
                n = int.from_bytes(os.read(a, 8), 'big')
                data = b''
                while len(data) < n:
                    x = os.read(a, 1 << 20)
                    if not x:
                        break
                    data += x
                try:
                    import pickle
                    S = pickle.loads(data)
                    out = dict(target.ss_parts(S), bases=target.bases(S))
                except BaseException as e:
                    out = {'error': '%s: %s' % (type(e).__name__, e)}
                os.write(b, json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(a)
        os.close(b)

    def load(self, data):
        m = memoryview(len(data).to_bytes(8, 'big') + data)
        while m:
            m = m[os.write(self.w, m):]
        os.close(self.w)
        out = b''.join(iter(lambda: os.read(self.r, 1 << 20), b''))
        os.close(self.r)
        os.waitpid(self.pid, 0)
        return json.loads(out) if out else {'error': 'the process died'}


class C17(Check):
    pid = 'C17'
    costs = {'quick': 60, 'thorough': 150}
    fork_share = .3
    rule = ('a run = one simulated divided computation whose result is '
            'stored (pickled), loaded in a process that has done nothing '
            'else, loaded again in the process that made it after other '
            'computations, and copied; distinct = different sequence of task '
            'and worker events')

    def plan(self, seed, tier, nth=None):
        p = super().plan(seed, tier, nth)
        r = random.Random('%s/x/%s' % (self.pid, seed))
        p['protocol'] = r.choice([0, 2, 3, 4, 5, 5])
        p['between'] = [gen_op(r, 20) for _ in range(r.choice([0, 1, 2]))]
        return p

    def execute(self, plan):
        import pickle
        spec, st, logs = plan['spec'], {}, []
        reader = Reader()
        sim = open_sim(plan['env'])
        v = None
        try:
            kind, res = call(sim, lambda: target.op_mv(spec))
            sched_stats(sim, st)
            logs.append(sha(sim.log))
            if kind == 'ok':
                features(res, spec, st)
                v = self.transport(plan, sim, res, reader, pickle)
            else:
                st['skipped'] = 1       # C01 reports that
                reader.load(b'')
        finally:
            close_sim(sim)
        return {'v': v, 'st': st, 'log': sha([logs, v])}

    def transport(self, plan, sim, res, reader, pickle):
        def parts(S):
            return dict(target.ss_parts(S), bases=target.bases(S))
        before = parts(res)

        def differs(got, what):
            bad = [got['error']] if 'error' in got else sorted(
                k for k in set(before) | set(got)
                if got.get(k) != before.get(k))
            if bad:
                return ['transport', '%s differs in %s' % (
                    what, ', '.join(bad))]
        try:
            data = pickle.dumps(res, plan['protocol'])
        except BaseException as e:
            reader.load(b'')
            return ['transport', 'the result cannot be stored: %s: %s' % (
                type(e).__name__, e)]
        v = differs(reader.load(data), 'a stored result, loaded in another '
                    'process,')
        if v:
            return v
        for op in plan['between']:
            call(sim, lambda: target.run_op(op))
        try:
            v = differs(parts(pickle.loads(data)),
                        'a stored result, loaded later,')
            if v:
                return v
            c = copy.deepcopy(res)
        except BaseException as e:
            return ['transport', 'loading or copying fails: %s: %s' % (
                type(e).__name__, e)]
        v = differs(parts(c), 'a deep copy')
        if v:
            return v
        for k in target.DOCUMENTED:
            if hasattr(c, k):
                scribble(getattr(c, k))
        return differs(parts(res), 'a result whose copy was '
                       'overwritten')

    def shrink(self, plan):
        for i in range(len(plan['between'])):
            b = list(plan['between'])
            del b[i]
            yield dict(plan, between=b)
        yield from super().shrink(plan)


# -- threads ----------------------------------------------------------------

def solo(op):
    """Outcome of an operation in a process that never did anything else."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            sim = open_sim({'seed': 5, 'cpus': 1, 'inline': True,
                            'coarse': True})
            kind, res = call(sim, lambda: target.run_op(op))
            o = judge_op(op, kind, res)
            os.write(wfd, json.dumps(o).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    b = b''
    while True:
        x = os.read(rfd, 65536)
        if not x:
            break
        b += x
    os.close(rfd)
    os.waitpid(pid, 0)
    return json.loads(b) if b else ['crash', '']


def judge_op(op, kind, res):
    """[status, detail] with everything observable about an outcome."""
    if kind == 'ok':
        if op['op'] == 'noise':
            return ['ok', 'noise']
        return ['ok', target.outcome_digest(op, res)]
    if kind == 'exc':
        return ['exc', type(res).__name__]
    return ['ctrl', res]


def model_op(op, res):
    """The outcome against the reference model."""
    if op['op'] == 'mv':
        return target.o_barcodes(res, op, target.Ref(op))
    if op['op'] == 'ph':
        return target.o_direct(res, op, target.Ref(op))
    if op['op'] == 'cover':
        return target.o_cover(res, op)
    return None


def gen_op(r, cost, kinds=None):
    k = r.choice(kinds or ['mv', 'mv', 'mv', 'mv', 'ph', 'ph', 'cover',
                           'sample', 'sample', 'noise', 'gauss', 'flag',
                           'solve', 'morphism', 'morphism'])
    if k in ('mv', 'ph', 'cover'):
        s = feature_spec(r, cost)
        return dict(s, op=k)
    if k == 'sample':
        if r.random() < .6:
            s = workload.make_spec(r, max_cost=cost)
            return {'op': 'sample', 'fn': 'take_sample',
                    'points': s['points'],
                    'n': r.randint(1, len(s['points']) + 1),
                    'seed': r.randrange(50)}
        return {'op': 'sample', 'fn': 'random_circle', 'n': r.randint(1, 8),
                'radius': r.choice([.5, 1., 2.]), 'eps': r.choice([0., .3]),
                'center': [r.choice([0, 1.5]), 0], 'seed': r.randrange(50)}
    if k == 'noise':
        return {'op': 'noise', 'n': r.randint(1, 6), 'fn': r.choice(
            ['random_cube', 'random_sphere', 'torus3D', 'random_circle',
             'global_seed'])}
    if k in ('gauss', 'solve'):
        m = r.randint(1, 5)
        n = r.randint(1, 6)
        p = r.choice([2, 3, 5, 7, 13])
        return {'op': k, 'p': p, 'x': [r.randrange(p) for _ in range(n)],
                'matrix': [[r.randrange(p) if r.random() < .6 else 0
                            for _ in range(n)] for _ in range(m)]}
    if k == 'morphism':
        return workload.morphism(r)
    n = r.randint(2, 6)
    return {'op': 'flag', 'n': n, 'max_dim': r.randint(1, 4), 'edges': [
        [a, b] for b in range(n) for a in range(b) if r.random() < .7]
        or [[0, 1]]}


def variant(r, op, cost):
    """The same operation with one argument changed."""
    for _ in range(20):
        o = copy.deepcopy(op)
        o.pop('fault', None)
        k = r.randrange(9)
        if 'points' in o and k < 4:
            o.pop('dtype', None)
            pts = o['points']
            if k == 0:
                q = r.choice(pts)
                q[r.randrange(len(q))] += r.choice([-16, -3, 3, 16]) / 256.
            elif k == 1:
                i, j = r.randrange(len(pts)), r.randrange(len(pts))
                pts[i], pts[j] = pts[j], pts[i]
            elif k == 2:
                q = [r.choice([1.0, 2.0]) for _ in pts[0]]
                o['points'] = [[x * y for x, y in zip(a, q)] for a in pts]
            else:
                pts.append([x + .25 for x in r.choice(pts)])
        elif k < 4 and 'A' in o:
            nz = [(i, j) for i, row in enumerate(o['matrix'])
                  for j, x in enumerate(row) if x]
            if nz and k:
                i, j = r.choice(nz)
                o['matrix'][i][j] = r.randrange(o['p'])
            else:
                for b in o[r.choice('AB')]:
                    b[1] += .5       # still a morphism if all bars grow
                o['A'] = [[a, max(b, 9.5)] for a, b in o['A']]
        elif k == 4 and 'p' in o and 'matrix' not in o:
            o['p'] = r.choice([2, 3, 5, 7])
        elif k == 5 and 'max_dim' in o:
            o['max_dim'] = max(1, o['max_dim'] + r.choice([-1, 1]))
        elif k == 6 and 'max_div' in o:
            o['max_div'] = max(1, o['max_div'] + r.choice([-1, 1]))
        elif k == 7 and 'max_r' in o:
            m = r.choice([.8, 1.1, 1.3])
            o['max_r'] *= m
            o['overlap'] *= max(m, 1.0)
        elif k == 7 and 'seed' in o:
            o['seed'] += 1
        elif k == 8 and 'overlap' in o:
            o['overlap'] *= r.choice([1.2, 1.6])
        elif k == 8 and 'n' in o and o['op'] == 'sample':
            o['n'] = max(1, o['n'] + r.choice([-1, 1]))
        if o == op:
            continue
        if 'max_r' not in o or (
                workload.exact(o['points']) or workload.separated(
                    o['points'], o['max_r'])) and \
                workload.cost(o) <= 2 * cost:
            return o
    return copy.deepcopy(op)


def scribble(x, depth=0):
    """What a user may do with a returned result: overwrite it."""
    np = target.T['np']
    if depth > 12:
        return
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                scribble(y, depth + 1)
        elif x.flags.writeable and x.size:
            x[...] = 1
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y, depth + 1)
    elif hasattr(x, 'barcode') or hasattr(x, 'coord'):
        for k in ('barcode', 'coordinates', 'coord', 'ref'):
            scribble(getattr(x, k, None), depth + 1)
    elif hasattr(x, 'persistent_homology'):
        for k in target.DOCUMENTED:
            scribble(getattr(x, k, None), depth + 1)


class C06(Check):
    pid = 'C06'
    costs = {'quick': 12, 'thorough': 30}
    op_kinds = None
    line_sample = None

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        n = r.choice([2, 2, 2, 3, 3, 4])
        ths = []
        primes = r.random() < .6
        for i in range(n):
            ops = [gen_op(r, self.costs[tier], self.op_kinds)
                   for _ in range(r.choice([1, 1, 2, 3]))]
            if primes:
                for o in ops:
                    if 'p' in o and 'matrix' not in o:
                        o['p'] = [2, 3, 5, 7][i]
            ths.append(ops)
        k = r.random()
        if k < .2:
            # same operation everywhere
            ths = [copy.deepcopy(ths[0]) for _ in range(n)]
        elif k < .5:
            # almost the same operation everywhere
            ths = [ths[0]] + [[variant(r, o, self.costs[tier])
                               for o in ths[0]] for _ in range(n - 1)]
        pol = self.policy(r, n)
        plan = {'prop': self.pid, 'threads': ths, 'policy': pol,
                'first': r.randrange(n), 'env': {
                    'seed': r.getrandbits(40), 'cpus': r.choice([1, 2]),
                    'jitter': r.choice([0, 2])}}
        if r.random() < .3:
            plan['share'] = True
        if pol['kind'] == 'random' and r.random() < self.instr:
            plan['env']['instr'] = True
        return plan

    instr = .25

    def policy(self, r, n):
        k = r.random()
        if k < .35:
            return {'kind': 'random', 'every': r.choice(
                [3, 20, 100, 500, 2000])}
        if k < .6:
            pts = sorted(r.random() for _ in range(r.choice([1, 2, 3, 5])))
            return {'kind': 'parts',
                    'switches': [[s, r.randrange(n)] for s in pts]}
        return {'kind': 'loc', 'pick': r.getrandbits(40),
                'count': r.choice([1, 2, 4, 8])}

    def execute(self, plan):
        st = {}
        ths = plan['threads']
        n = len(ths)
        expect = [[solo(op) for op in ops] for ops in ths]
        pol = plan['policy']
        if pol['kind'] == 'parts' or \
                pol['kind'] == 'loc' and 'targets' not in pol:
            pol = self.resolve(pol, ths, n, plan['env'])
        sim = open_sim(plan['env'])
        try:
            sched = threads.Sched(sim, n, pol)
            sim.sched = sched
            done = []
            shared = {}

            def inputs(op):
                # threads may work on the very same array
                if not plan.get('share') or 'points' not in op:
                    return self.inputs(op)
                k = sha([op['points'], op.get('dtype')])
                if k not in shared:
                    shared[k] = self.inputs(op)
                return shared[k]

            def body(i):
                def run():
                    for j, op in enumerate(ths[i]):
                        pts = inputs(op)
                        before = target.digest(pts)
                        try:
                            r = ('ok', target.run_op(op, pts))
                        except (SimHang, SimStepLimit, threads.Abort):
                            raise
                        except BaseException as e:
                            r = ('exc', e)
                        done.append((i, j, r, before == target.digest(pts)))
                        sim.emit('ret', i, j, r[0])
                return run
            so = sys.stdout
            sys.stdout = sim.out
            core.monitor_on(sim)
            try:
                results = sched.run([body(i) for i in range(n)],
                                    plan.get('first', 0))
            finally:
                core.monitor_off()
                sys.stdout = so
                sim.sched = None
            v = None
            for i, res in enumerate(results):
                if res and res[0] == 'ctrl':
                    v = ['hang', 'thread %d never ends (%s)' % (i, res[1])]
                elif res and res[0] == 'exc':
                    raise res[1]
            if v is None:
                for i, j, (kind, res), same in done:
                    op = ths[i][j]
                    got = judge_op(op, kind, res)
                    m = None
                    if got != expect[i][j]:
                        m = 'thread %d operation %d (%s): %s, alone %s' % (
                            i, j, op['op'], self.short(got, res),
                            expect[i][j][0])
                    elif not same:
                        m = 'thread %d: input of %s modified' % (i, op['op'])
                    if m:
                        v = ['interference', m]
                        break
            st['switches'] = len(sched.switches)
            st['steps'] = sched.step
            st['ops'] = sum(len(t) for t in ths)
            st['opkinds'] = dict(Counter(o['op'] for t in ths for o in t))
            sched_stats(sim, st)
            out = {'v': v, 'st': st, 'log': sha([sim.log, sched.switches])}
            if v and plan['policy'].get('kind') != 'explicit':
                out['plan'] = dict(plan, policy={
                    'kind': 'explicit', 'switches': sched.switches})
            return out
        finally:
            close_sim(sim)

    def short(self, got, res):
        if got[0] == 'exc':
            return tb_text(res)
        return got[0] if got[0] != 'ok' else 'a different result'

    def inputs(self, op):
        return target.points_of(op) if 'points' in op else None

    def resolve(self, pol, ths, n, env):
        """Draw preemption points uniformly over distinct library lines."""
        r = random.Random(pol.get('pick', 0))
        # (in process: lines of tasks count too, occurrences are only hints)
        sim = open_sim(dict(env, profile=True, inline=True))
        tab = {}
        for ops in ths:
            for op in ops:
                call(sim, lambda: target.run_op(op))
                for k, c in core.profile_table(sim).items():
                    tab[k] = tab.get(k, 0) + c
        close_sim(sim)
        if pol['kind'] == 'parts':
            tot = sum(tab.values()) + 4
            return {'kind': 'explicit', 'switches': [
                [1 + int(tot * x), t] for x, t in pol['switches']]}
        keys = sorted(tab) + [('@wait', 0)] * (1 + len(tab) // 8)
        tab[('@wait', 0)] = 12
        tg = []
        for _ in range(pol['count']):
            f, ln = r.choice(keys)
            c = tab[(f, ln)]
            tg.append([f, ln, r.choice([1, r.randint(1, c),
                                        r.randint(1, min(3, c))]),
                       r.randrange(n)])
        return {'kind': 'loc', 'targets': tg}

    def shrink(self, plan):
        ths = plan['threads']
        for i in range(len(ths)):
            if len(ths) > 2:
                t = copy.deepcopy(ths)
                del t[i]
                sw = [[s, x - (x > i)] for s, x in plan['policy'].get(
                    'switches', []) if x != i]
                yield dict(plan, threads=t, first=0, policy={
                    'kind': 'explicit', 'switches': sw})
            if len(ths[i]) > 1:
                for j in range(len(ths[i])):
                    t = copy.deepcopy(ths)
                    del t[i][j]
                    yield dict(plan, threads=t)
        sw = plan['policy'].get('switches')
        if sw:
            k = len(sw)
            size = k // 2
            while size >= 1:
                for a in range(0, k, size):
                    yield dict(plan, policy={
                        'kind': 'explicit',
                        'switches': sw[:a] + sw[a + size:]})
                if size == 1 or k > 200 and size < k // 16:
                    break
                size //= 2


class C12(C06):
    """Seeded sampling, whatever else happens in the process."""
    pid = 'C12'
    cross_hash = True
    budget = {'quick': (2500, 45.0), 'thorough': (100000, 900.0)}
    op_kinds = ['sample', 'sample', 'sample', 'noise', 'noise']
    instr = .5

    def plan(self, seed, tier, nth=None):
        p = super().plan(seed, tier, nth)
        r = random.Random('%s/x/%s' % (self.pid, seed))
        if not any(o['op'] == 'sample' for t in p['threads'] for o in t):
            p['threads'][0].append(gen_op(r, 12, ['sample']))
        if p['policy']['kind'] == 'random':
            p['policy']['every'] = r.choice(
                [3, 10, 30] if p['env'].get('instr') else [1, 1, 2, 5, 20])
        if p['policy']['kind'] == 'parts' and r.random() < .5:
            p['policy']['kind'] = 'explicit'
            p['policy']['switches'] = [
                [r.randint(1, 80), r.randrange(len(p['threads']))]
                for _ in range(r.choice([1, 2, 4]))]
        return p

    rule = ('a run = 2 to 4 simulated caller threads doing seeded and '
            'unseeded sampling; non-trivial: at least one seeded sample; '
            'distinct = different sequence of thread switches')
    stubs = ['thread scheduling (preemption only at library source lines)',
             'entropy of unseeded generators']
    real = ['permaviss.sample_point_clouds', 'numpy', 'scipy']
    assumptions = ['threads are preempted at source lines of the library, '
                   'not inside numpy calls']

    def execute(self, plan):
        np = target.T['np']
        key = []
        for ops in plan['threads']:
            for op in ops:
                if op['op'] != 'sample':
                    continue
                # alone, the global stream goes on as if nothing happened
                np.random.seed(11)
                random.seed(11)
                a = np.random.rand(3).tolist() + [random.random()]
                np.random.seed(11)
                random.seed(11)
                try:
                    key.append(target.outcome_digest(op, target.run_op(op)))
                except Exception as e:
                    return {'v': ['raise:' + type(e).__name__,
                                  'seeded sampling raises ' + tb_text(e)],
                            'st': {}, 'log': sha(key)}
                b = np.random.rand(3).tolist() + [random.random()]
                if a != b:
                    return {'v': ['global-state', 'a seeded %s changes the '
                                  'process-wide random stream' % op['fn']],
                            'st': {}, 'log': sha(key)}
        out = super().execute(plan)
        out['xkey'] = sha(key)
        return out


# -- C14 --------------------------------------------------------------------

class Stream:
    """The stream behind np.random.rand: mostly ordinary draws, with runs of
    the smallest and largest values the generator can produce."""

    def __init__(self, seed, extremes):
        self.r = rnd(seed, 'stream')
        self.ext = extremes

    def one(self):
        if self.ext and self.r.random() < self.ext:
            return self.r.choice([0.0, 2.0 ** -53, 1.0 - 2.0 ** -53])
        return self.r.random()

    def rand(self, *shape):
        np = target.T['np']
        if not shape:
            return self.one()
        n = 1
        for d in shape:
            n *= d
        return np.array([self.one() for _ in range(n)]).reshape(shape)


class C14(Check):
    pid = 'C14'
    budget = {'quick': (6000, 30.0), 'thorough': (200000, 600.0)}
    rule = ('a run = up to 12 sampler calls under one simulated random '
            'stream (extreme draws injected); distinct = different output')
    stubs = ['np.random.rand (seeded, with injected extreme draws)']
    real = ['permaviss.sample_point_clouds', 'numpy', 'scipy']
    assumptions = ['points of point clouds handed to subsampling have '
                   'coordinates that are multiples of 1/256']

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        ops = []
        for _ in range(r.randint(3, 12)):
            fn = r.choice(['take_sample', 'take_sample', 'take_sample',
                           'circle', 'random_circle', 'ball',
                           'random_sphere', 'random_cube', 'grid',
                           'grid_tridimensional', 'torus3D'])
            n = r.choice([1, 1, 2, 3, 5, 12, 40])
            o = {'fn': fn, 'n': n, 'dim': r.choice([1, 2, 3, 4]),
                 'radius': r.choice([.25, 1., 1., 3.5, 100.]),
                 'eps': r.choice([0., .1, 1.]),
                 'center': [r.choice([0, -2.5]), r.choice([0, 7])],
                 'seed': r.choice([None, None, r.randrange(1000)]),
                 'div': [r.randint(1, 5) for _ in range(3)]}
            if fn == 'take_sample':
                d = r.choice([1, 2, 2, 3])
                m = r.choice([1, 2, 3, 5, 9, 20])
                q = r.choice([4, 16, 256])
                o['points'] = [[r.randrange(q + 1) * (256 // q) / 256.
                                for _ in range(d)] for _ in range(m)]
                o['n'] = r.choice([1, 2, m // 2 + 1, m, m, m + 1])
                o['view'] = r.choice([None, None, 'list', 'readonly', 'int'])
                if o['view'] == 'int':
                    o['points'] = [[x * 256 for x in p] for p in o['points']]
            ops.append(o)
        ext = r.choice([0, 0, .1, .5, 1.])
        if r.random() < .12:
            # an ordinary stream reaches every part of the shape
            ext, fn = 0, r.choice(sorted(self.parts))
            ops = [{'fn': fn, 'n': 600, 'reach': True,
                    'dim': r.choice([1, 2, 3, 3, 4]),
                    'radius': r.choice([.25, 1., 3.5, 100.]),
                    'eps': r.choice([.1, 1.]),
                    'center': [r.choice([0, -2.5]), r.choice([0, 7])],
                    'seed': r.choice([None, r.randrange(1000)]),
                    'view': None, 'div': [1, 1, 1]}]
            if fn == 'take_sample':
                ops[0].update(n=1, points=[[0., 0.], [1., 0.], [0., 1.]])
        return {'prop': self.pid, 'ops': ops, 'stream': r.getrandbits(40),
                'extremes': ext}

    parts = ('take_sample', 'random_circle', 'ball', 'random_sphere',
             'random_cube', 'torus3D')

    def reach(self, o, a):
        """600 ordinary draws reach every part of the shape (the parts are
        so large that missing one by chance is out of the question)."""
        np = target.T['np']
        fn, R = o['fn'], o['radius']

        def octants(x, y):
            k = np.floor(np.arctan2(y, x) / (np.pi / 4)).astype(int) % 8
            return len(set(k.tolist())) == 8
        if fn == 'random_circle':
            b = a - np.array(o['center'])
            if not octants(b[:, 0], b[:, 1]):
                return 'a part of the circle is never sampled'
            d = (np.sqrt((b * b).sum(axis=1)) / R - 1) / o['eps']
            if d.min() > .25 or d.max() < .75:
                return 'a part of the noisy circle is never sampled'
        elif fn == 'torus3D':
            q = np.sqrt(a[:, 0] ** 2 + a[:, 1] ** 2) - 3.
            if not octants(a[:, 0], a[:, 1]) or not octants(q, a[:, 2]):
                return 'a part of the torus is never sampled'
        else:
            sg = set(map(tuple, (a > 0).tolist()))
            if len(sg) != 2 ** a.shape[1]:
                return 'a part of the shape is never sampled'
            if fn == 'random_cube' and np.abs(a).max(axis=0).min() < .45:
                return 'the outer part of the cube is never sampled'
            if fn == 'ball':
                d = np.sqrt((a * a).sum(axis=1)) / R
                if d.max() < .9 or d.min() > .7:
                    return 'a part of the ball is never sampled'
                if (np.abs(a).max(axis=0) / R).min() < .65:
                    return 'a part of the ball is never sampled'
        return None

    def execute(self, plan):
        np = target.T['np']
        st = {'ops': len(plan['ops']), 'inter': [], 'opkinds': dict(Counter(
            o['fn'] for o in plan['ops']))}
        sim = open_sim({'seed': plan['stream']})
        s = Stream(plan['stream'], plan['extremes'])
        real = np.random.rand
        np.random.rand = s.rand
        log, v = [], None
        try:
            for i, o in enumerate(plan['ops']):
                # points in a ball may be drawn by rejection, which needs
                # ordinary numbers now and then
                s.ext = min(plan['extremes'], .5 if o['fn'] == 'ball' else 1)
                kind, res = call(sim, lambda: self.run(o))
                v = self.basic(kind, res)
                if v is None:
                    log.append(target.digest(res))
                    try:
                        a = np.asarray(res, dtype=float)
                        m = self.geometry(o, a)
                        if not m and o.get('reach'):
                            m = self.first(o, sim, res) if o['fn'] == \
                                'take_sample' else self.reach(o, a)
                    except (TypeError, ValueError) as e:
                        m = 'unusable result (%s)' % e
                    if m:
                        v = ['sample', '%s: %s' % (o['fn'], m)]
                if v:
                    break
            st['lines'] = sim.lines
            st['inter'].append(sha(log)[:16])
            if plan['extremes']:
                st['faults'] = {'extreme draws': 1}
            return {'v': v, 'st': st, 'log': sha(log)}
        finally:
            np.random.rand = real
            close_sim(sim)

    def run(self, o):
        ex = target.T['examples']
        np = target.T['np']
        fn = o['fn']
        if fn == 'take_sample':
            p = np.array(o['points'], dtype=float)
            if o['view'] == 'list':
                p = [list(q) for q in o['points']]
            elif o['view'] == 'readonly':
                p.setflags(write=False)
            elif o['view'] == 'int':
                p = p.astype(int)
            return ex.take_sample(p, o['n'], seed=o['seed'])
        if fn == 'circle':
            return ex.circle(o['n'], o['radius'])
        if fn == 'random_circle':
            return ex.random_circle(o['n'], o['radius'], o['eps'],
                                    center=o['center'], seed=o['seed'])
        if fn == 'ball':
            return ex.ball(o['n'], o['radius'], o['dim'])
        if fn == 'random_sphere':
            return ex.random_sphere(o['n'], o['radius'], o['dim'])
        if fn == 'random_cube':
            return ex.random_cube(o['n'], o['dim'])
        if fn == 'grid':
            return ex.grid(*o['div'][:2])
        if fn == 'grid_tridimensional':
            return ex.grid_tridimensional(*o['div'])
        return ex.torus3D(o['n'], min(1., o['radius']), 3.)

    def first(self, o, sim, res):
        seen = set()
        for i in range(80):
            o2 = dict(o, seed=None if o['seed'] is None else o['seed'] + i)
            kind, res = call(sim, lambda: self.run(o2))
            if kind != 'ok':
                return 'a call raises ' + str(res)
            seen.add(tuple(float(x) for x in res[0]))
        if len(seen) < len(o['points']):
            return 'some points never come first'

    def geometry(self, o, a):
        np = target.T['np']
        fn, n, R = o['fn'], o['n'], o['radius']
        dim = {'take_sample': len(o.get('points', [[0]])[0]), 'circle': 2,
               'random_circle': 2, 'grid': 2, 'grid_tridimensional': 3,
               'torus3D': 3}.get(fn, o['dim'])
        d = o['div']
        want = {'take_sample': min(n, len(o.get('points', ()))),
                'grid': d[0] * d[1], 'grid_tridimensional': d[0] * d[1] * d[2]
                }.get(fn, n)
        if a.shape != (want, dim):
            return 'shape %s, expected %s' % (a.shape, (want, dim))
        if not np.all(np.isfinite(a)):
            return 'coordinates that are not numbers'
        tol = 1e-9 * max(1., R)
        norm = np.sqrt((a * a).sum(axis=1))
        if fn == 'circle':
            if np.any(np.abs(norm - R) > tol):
                return 'points off the circle'
            if n > 1:
                step = [rm.distance(list(a[i]), list(a[(i + 1) % n]))
                        for i in range(n)]
                if max(step) - min(step) > tol:
                    return 'points are not evenly spaced'
                if len(set(map(tuple, np.round(a, 6).tolist()))) != n:
                    return 'repeated points'
        elif fn == 'random_circle':
            c = np.sqrt(((a - np.array(o['center'])) ** 2).sum(axis=1))
            if np.any(c < R - tol) or np.any(c > R * (1 + o['eps']) + tol):
                return 'points outside the noisy circle'
        elif fn == 'ball':
            if np.any(norm > R + tol):
                return 'points outside the ball'
        elif fn == 'random_sphere':
            if np.any(np.abs(norm - R) > tol):
                return 'points off the sphere of radius %r' % R
        elif fn == 'random_cube':
            if np.any(np.abs(a) > .5 + 1e-12):
                return 'points outside the unit cube'
        elif fn in ('grid', 'grid_tridimensional'):
            ax = [[i - (k - 1) / 2. for i in range(k)] for k in d[:dim]]
            import itertools
            if sorted(map(tuple, a.tolist())) != sorted(
                    itertools.product(*ax)):
                return 'not the nodes of the grid'
        elif fn == 'torus3D':
            q = np.sqrt(a[:, 0] ** 2 + a[:, 1] ** 2) - 3.
            if np.any(np.abs(np.sqrt(q * q + a[:, 2] ** 2)
                             - min(1., R)) > 1e-9):
                return 'points off the torus'
        else:
            return self.minmax(o['points'], a.tolist())

    def minmax(self, pts, sel):
        """Every point after the first is as far as possible from those
        already taken, and none is taken more often than it occurs."""
        left = Counter(map(tuple, pts))
        for q in sel:
            if left[tuple(q)] <= 0:
                return 'point %s taken too often or not in the cloud' % (q,)
            left[tuple(q)] -= 1
        for i in range(1, len(sel)):
            got = min(rm.distance(sel[i], b) for b in sel[:i])
            best = max(min(rm.distance(q, b) for b in sel[:i]) for q in pts)
            if got < best - 1e-9:
                return 'sample %d is not the furthest point' % i
        return None

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            o = list(plan['ops'])
            del o[i]
            if o:
                yield dict(plan, ops=o)
        if plan['extremes']:
            yield dict(plan, extremes=0)
        for i, o in enumerate(plan['ops']):
            if o.get('reach'):
                continue
            for k in (1, o['n'] // 2, o['n'] - 1):
                if 0 < k < o['n']:
                    ops = copy.deepcopy(plan['ops'])
                    ops[i]['n'] = k
                    yield dict(plan, ops=ops)
            for j in range(len(o.get('points', ()))):
                if len(o['points']) > 1:
                    ops = copy.deepcopy(plan['ops'])
                    del ops[i]['points'][j]
                    yield dict(plan, ops=ops)


# -- C07 histories ----------------------------------------------------------

class C07(Check):
    pid = 'C07'
    costs = {'quick': 25, 'thorough': 60}

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        k = r.randint(3, 6)
        ops = []
        pool = [gen_op(r, self.costs[tier]) for _ in range(r.choice([2, 3]))]
        if r.random() < .12:
            return self.plan_dropped(r, tier)
        if not any(o['op'] == 'mv' for o in pool):
            pool.append(gen_op(r, self.costs[tier], ['mv']))
        for i in range(k):
            o = copy.deepcopy(r.choice(pool))
            if r.random() < .45:
                o = variant(r, o, self.costs[tier])
                if r.random() < .5:
                    pool.append(o)
                    o = copy.deepcopy(o)
            if r.random() < .35 and 'points' in o:
                o['view'] = r.choice(['buffer', 'buffer', 'buffer', 'fortran',
                                      'strided', 'readonly'])
            if r.random() < .2:
                o['scribble'] = True
            if r.random() < .4 and o['op'] in ('mv', 'ph', 'cover'):
                kind = r.choice(['exc', 'exc', 'exc', 'kill', 'stdout',
                                 'pool_create'])
                o['fault'] = {'kind': kind, 'pick': r.getrandbits(40),
                              'exc': r.choice(['MemoryError', 'MemoryError',
                                               'KeyboardInterrupt',
                                               'InjectedError', 'OSError'])}
                ops.append(o)
                if r.random() < .7:        # retry
                    o = copy.deepcopy(o)
                    o.pop('fault')
                    ops.append(o)
                continue
            ops.append(o)
        env = {'seed': r.getrandbits(40), 'cpus': r.choice([1, 2, 3]),
               'jitter': r.choice([0, 2])}
        if r.random() < .6:
            env['inline'] = True
        return {'prop': self.pid, 'ops': ops, 'env': env}

    def plan_dropped(self, r, tier):
        """Similar calls whose arguments and results are forgotten at once,
        so that later objects get the addresses of earlier ones."""
        o = gen_op(r, self.costs[tier], ['mv', 'mv', 'mv', 'ph', 'morphism'])
        ops = [o]
        for _ in range(r.randint(3, 8)):
            q = variant(r, o, self.costs[tier])
            if r.random() < .2:
                q = variant(r, q, self.costs[tier])
            if 'points' in q and r.random() < .3:
                q['view'] = r.choice(['buffer', 'fortran'])
            ops.append(q)
            if r.random() < .3:
                o = q
        env = {'seed': r.getrandbits(40), 'cpus': r.choice([1, 2]),
               'jitter': 0}
        if r.random() < .7:
            env['inline'] = True
        return {'prop': self.pid, 'ops': ops, 'env': env, 'drop': True}

    def resolve(self, op, env):
        """Concrete fault site from a profile run in a separate process."""
        f = op['fault']
        r = random.Random(f['pick'])
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                sim = open_sim(dict(env, profile=True))
                clean = {k: v for k, v in op.items() if k != 'fault'}
                call(sim, lambda: target.run_op(clean, self.inputs(op)))
                tab = sorted([k[0], k[1], c] for k, c in
                             core.profile_table(sim).items())
                tk = sorted([list(k), sorted([a[0], a[1], c] for a, c in
                                             t.items())]
                            for k, t in sim.prof_tasks.items())
                b = json.dumps([tab, tk, len(sim.pools),
                                sim._n_write]).encode()
                while b:
                    b = b[os.write(wfd, b[:65536]):]
            finally:
                os._exit(0)
        os.close(wfd)
        b = b''
        while True:
            x = os.read(rfd, 65536)
            if not x:
                break
            b += x
        os.close(rfd)
        os.waitpid(pid, 0)
        tab, tk, npools, nw = json.loads(b)

        def site(t):
            a = r.choice(t)
            return {'file': a[0], 'line': a[1], 'n': r.choice(
                [1, a[2], r.randint(1, a[2])])}
        if f['kind'] == 'stdout':
            return {'kind': 'stdout', 'n': r.randrange(nw)} if nw else None
        if f['kind'] == 'pool_create':
            return {'kind': 'pool_create', 'pool': r.randrange(npools),
                    'exc': 'OSError'} if npools else None
        if tk and (f['kind'] == 'kill' or r.random() < .4):
            (pool, chunk), t = r.choice(tk)
            out = {'kind': f['kind'], 'where': 'task', 'pool': pool,
                   'chunk': chunk}
            if f['kind'] == 'exc':
                out['exc'] = f['exc']
            if t:
                out.update(site(t))
            else:
                out['at'] = 'send'
                out['kind'] = 'kill'
            return out
        if not tab:
            return None
        return dict({'kind': 'exc', 'where': 'parent', 'exc': f['exc']},
                    **site(tab))

    def inputs(self, op, buffers=None):
        if 'points' not in op:
            return None
        np = target.T['np']
        a = target.points_of(op)
        v = op.get('view')
        if v == 'buffer' and buffers is not None:
            # the caller keeps its data in one array and changes it in place
            k = (a.shape, str(a.dtype))
            if k not in buffers:
                buffers[k] = a
            buffers[k][...] = a
            return buffers[k]
        if v == 'fortran':
            return np.asfortranarray(a)
        if v == 'strided':
            b = np.zeros((len(a) * 2, a.shape[1] * 2))
            b[::2, ::2] = a
            return b[::2, ::2]
        if v == 'readonly':
            a.setflags(write=False)
        return a

    def execute(self, plan):
        st = {}
        env = plan['env']
        ops = plan['ops']
        memo = {}
        expect = []
        for op in ops:
            clean = {k: v for k, v in op.items() if k not in (
                'fault', 'view', 'at', 'scribble')}
            k = sha(clean)
            if k not in memo:
                memo[k] = solo(clean)
            expect.append(memo[k])
        sites = []
        for op in ops:
            if 'at' in op:
                sites.append(op['at'])
            elif 'fault' in op:
                sites.append(self.resolve(op, dict(env)))
            else:
                sites.append(None)
        sim = open_sim(env)
        held = []
        buffers = {}
        v = None
        try:
            for i, op in enumerate(ops):
                if plan.get('drop'):
                    kind = res = pts = None
                    gc.collect()
                pts = self.inputs(op, buffers)
                before = target.digest(pts)
                sim.faults = []
                base = len(sim.pools)
                sim._n_write = 0
                if sites[i]:
                    f = copy.deepcopy(sites[i])
                    if 'pool' in f:
                        f['pool'] += base
                    sim.faults = [f]
                fired0 = sum(sim.fired.values())
                kind, res = call(sim, lambda: target.run_op(op, pts))
                fired = sum(sim.fired.values()) > fired0
                sim.emit('op', i, op['op'], kind)
                if target.MODIFIED:
                    v = ['input', 'operation %d: %s modified an argument' % (
                        i, target.MODIFIED[0])]
                    break
                if target.digest(pts) != before:
                    v = ['input', 'operation %d (%s) modified its input' % (
                        i, op['op'])]
                    break
                if kind == 'ctrl':
                    if not fired:
                        v = ['hang', 'operation %d (%s) never ends' % (
                            i, op['op'])]
                        break
                    continue
                got = judge_op(op, kind, res)
                if got != expect[i] and not (fired and kind == 'exc'):
                    v = ['history', 'operation %d (%s)%s after %s: %s, '
                         'expected %s' % (
                             i, op['op'], ' with fault' if fired else '',
                             [o['op'] + ('!' if sites[j] else '')
                              for j, o in enumerate(ops[:i])],
                             tb_text(res) if kind == 'exc'
                             else 'a different result', expect[i][0])]
                    break
                if plan.get('drop'):
                    pass
                elif kind == 'ok' and op.get('scribble'):
                    scribble(res)
                elif kind == 'ok' and op['op'] != 'noise' and \
                        op.get('view') != 'buffer':
                    held.append((i, op, res, got))
                elif kind == 'exc':
                    st['failed_ops'] = st.get('failed_ops', 0) + 1
                    res = None
            if v is None:
                for i, op, res, got in held:
                    if judge_op(op, 'ok', res) != got:
                        v = ['mutated', 'the result of operation %d (%s) was '
                             'changed by later calls' % (i, op['op'])]
                        break
            st['ops'] = len(ops)
            st['opkinds'] = dict(Counter(o['op'] for o in ops))
            sched_stats(sim, st)
            out = {'v': v, 'st': st, 'log': sha(sim.log)}
            if v:
                o2 = []
                for op, s in zip(ops, sites):
                    op = {k: x for k, x in op.items() if k != 'fault'}
                    if s:
                        op['at'] = s
                    o2.append(op)
                out['plan'] = dict(plan, ops=o2)
            return out
        finally:
            close_sim(sim)

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            o = copy.deepcopy(plan['ops'])
            del o[i]
            if o:
                yield dict(plan, ops=o)
        for i, op in enumerate(plan['ops']):
            for k in ('at', 'view', 'scribble'):
                if k in op:
                    o = copy.deepcopy(plan['ops'])
                    o[i].pop(k)
                    yield dict(plan, ops=o)
        for e in shrink_env(plan['env']):
            yield dict(plan, env=e)
        for i, op in enumerate(plan['ops']):
            if 'max_dim' in op and 'at' not in op and 'points' in op:
                for t in list(shrink_spec(op))[:6]:
                    o = copy.deepcopy(plan['ops'])
                    o[i] = t
                    yield dict(plan, ops=o)


# -- C08 --------------------------------------------------------------------

class C08(Check):
    pid = 'C08'

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        k = r.choice([['lattice'], ['lattice'], ['cross'], ['annulus'],
                      ['circle'], None])
        spec = feature_spec(r, self.costs[tier] * .7, k)
        if r.random() < .03:
            spec = suspension_spec(r)
        envs = []
        for i in range(3):
            e = rand_env(r, False)
            e['ties'] = 'reverse' if i == 0 else r.getrandbits(30) + 1
            envs.append(e)
        return {'prop': self.pid, 'spec': spec, 'envs': envs}

    def execute(self, plan):
        spec, st, logs = plan['spec'], {}, []
        ref = target.Ref(spec)
        v = None
        for env in plan['envs']:
            sim = open_sim(env)
            try:
                kind, res = call(sim, lambda: target.op_mv(spec))
                v = self.basic(kind, res)
                if v is None:
                    features(res, spec, st)
                    m = target.o_barcodes(res, spec, ref)
                    if m:
                        v = ['ties', 'with another order of equal radii: '
                             + m]
                if v is None:
                    kind, res = call(sim, lambda: target.op_ph(spec))
                    v = self.basic(kind, res)
                    if v is None:
                        m = target.o_direct(res, spec, ref)
                        if m:
                            v = ['ties', 'direct computation, with another '
                                 'order of equal radii: ' + m]
                sched_stats(sim, st)
                logs.append(sha(sim.log))
            finally:
                close_sim(sim)
            if v:
                break
        return {'v': v, 'st': st, 'log': sha(logs)}

    def shrink(self, plan):
        if len(plan['envs']) > 1:
            for i in range(len(plan['envs'])):
                e = list(plan['envs'])
                del e[i]
                yield dict(plan, envs=e)
        for t in shrink_spec(plan['spec']):
            yield dict(plan, spec=t)


class C15(Check):
    pid = 'C15'
    budget = {'quick': (2500, 48.0), 'thorough': (60000, 1500.0)}
    rule = ('a run = the direct computation (complex, differentials, '
            'persistent homology) of one seeded point cloud under up to four '
            'orders of equal radii; distinct = different result')
    stubs = ['order of equal keys in argsort', 'clocks']
    real = ['permaviss.simplicial_complexes', 'permaviss.persistence_algebra',
            'permaviss.gauss_mod_p', 'numpy', 'scipy']

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        k = r.choice([['lattice'], ['lattice'], ['cross'], ['annulus'],
                      None, None, None])
        spec = feature_spec(r, self.costs[tier] * r.choice([.5, 1, 3]), k)
        if self.use_corpus and nth is not None and nth < len(corpus()) and \
                corpus()[nth]['cost'] < 600:
            spec = {k: corpus()[nth][k] for k in SPEC}
        elif r.random() < self.p_long / 2:
            spec = workload.long_spec(r, whole=True)
        envs = []
        for i in range(3):
            e = rand_env(r, False)
            e['cap'] = 4 * CAP
            if i:
                e['ties'] = 'reverse' if i == 1 else r.getrandbits(30) + 1
            envs.append(e)
        return {'prop': self.pid, 'spec': spec, 'envs': envs}

    def execute(self, plan):
        spec, st, logs = plan['spec'], {}, []
        ref = target.Ref(spec)
        v = None
        for env in plan['envs']:
            sim = open_sim(env)
            try:
                kind, res = call(sim, lambda: target.op_ph(spec))
                v = self.basic(kind, res)
                if v is None:
                    dg = target.digest(res)
                    logs.append(dg)
                    m = self.readable(self.judge, res, spec, ref, sim, st)
                    v = m and (m if isinstance(m, list) else ['direct', m])
                    f = st.setdefault('reach', {})
                    for d, h in enumerate(res[3][:spec['max_dim']]):
                        if h.dim:
                            f['H%d' % d] = f.get('H%d' % d, 0) + 1
                sched_stats(sim, st)
                st['inter'][-1] = sha([logs[-1:], v])[:16]
                if env.get('ties'):
                    st['faults']['order of ties'] = st['faults'].get(
                        'order of ties', 0) + 1
            finally:
                close_sim(sim)
            if v:
                break
        return {'v': v, 'st': st, 'log': sha(logs)}

    def judge(self, res, spec, ref, sim, st):
        return target.o_direct_full(res, spec, ref)

    def shrink(self, plan):
        return C08.shrink(self, plan)


# -- C09, C10, C11, C13 -----------------------------------------------------

class C09(Check):
    pid = 'C09'
    p_sus = 0.08

    def judge(self, S, spec, ref, sim, st):
        m = target.o_reps(S, spec, ref)
        return ['representative', m] if m else None


class C10(Check):
    pid = 'C10'
    p_sus = 0.08

    def judge(self, S, spec, ref, sim, st):
        m = target.o_pages(S, spec, ref)
        return ['page', m] if m else None


class C11(Check):
    pid = 'C11'
    fork_share = 0.3
    costs = {'quick': 120, 'thorough': 500}

    def judge(self, S, spec, ref, sim, st):
        m = target.o_regions(S, spec, ref)
        return ['region', m] if m else None


class C13(Check):
    pid = 'C13'
    fork_share = 0.5
    costs = {'quick': 80, 'thorough': 300}

    def plan(self, seed, tier, nth=None):
        p = super().plan(seed, tier, nth)
        r = random.Random('%s/c/%s' % (self.pid, seed))
        env = p['env']
        if r.random() < .7:
            env['clock'] = [[r.randrange(4), r.choice(
                [-86400., -3600., -1., -1e-3, .5, 3600., 1e7])]
                for _ in range(r.choice([1, 2]))]
        return p

    def judge(self, S, spec, ref, sim, st):
        m = target.o_console(S, sim.out.text(), st['elapsed'])
        return ['console', m] if m else None


# -- C18 --------------------------------------------------------------------

class C18(C16):
    """The process is left as it was found, whatever happens."""
    pid = 'C18'
    subs = {'quick': 6, 'thorough': 12}
    rule = ('a run = one operation repeated under settings of the process '
            'drawn at random (numpy, interpreter, signals, files...), first '
            'without and then with faults, or operations in two to four '
            'simulated threads; settings are compared before and after; '
            'distinct = different sequence of task, worker, fault and thread '
            'switch events')

    def plan(self, seed, tier, nth=None):
        r = random.Random('%s/%s' % (self.pid, seed))
        if r.random() < .3:
            p = CHECKS['C06'].plan('%s/t' % seed, tier)
            return {'prop': self.pid, 'threads': p,
                    'settings': ambient.draw(r)}
        p = super().plan(seed, tier, nth)
        op = dict(p.pop('spec'), op='mv')
        if r.random() < .3:
            op = gen_op(r, r.choice([60, 400, 2000]), ['ph', 'ph', 'ph', 'cover', 'sample', 'gauss',
                                'flag', 'solve', 'morphism'])
            p['env']['inline'] = True
            p['env'].pop('start', None)
        p['op'] = op
        p['settings'] = [ambient.draw(r) for _ in range(4)]
        return p

    def execute(self, plan):
        amb = ambient.Ambient()
        try:
            if 'threads' in plan:
                return self.run_threads(plan, amb)
            return self.run_faults(plan, amb)
        finally:
            amb.close()

    def run_threads(self, plan, amb):
        p = plan['threads']
        sim = open_sim({'seed': 5, 'cpus': 1, 'inline': True,
                        'coarse': True})
        try:
            for ops in p['threads']:         # warm up: lazy imports
                for op in ops:
                    call(sim, lambda: target.run_op(op))
        finally:
            close_sim(sim)
        amb.apply(plan['settings'])
        before = amb.snapshot(False)
        out = CHECKS['C06'].execute(p)
        m = ambient.changed(before, amb.snapshot(False))
        v = m and ['state', 'after operations in several threads: ' + m]
        res = {'v': v, 'st': out['st'], 'log': sha([out['log'], v])}
        if v:
            res['plan'] = dict(plan, threads=out.get('plan', p))
        return res

    def run_faults(self, plan, amb):
        op, st = plan['op'], {}
        env = dict(plan['env'])
        faults = env.pop('faults', None)
        sim = open_sim(dict(env, profile=True))
        try:
            kind, res = call(sim, lambda: target.run_op(op))
            parent = core.profile_table(sim)
            tasks = dict(sim.prof_tasks)
            npools, nwrites = len(sim.pools), sim._n_write
            expect = judge_op(op, kind, res)
            sched_stats(sim, st)
            logs = [sha(sim.log)]
        finally:
            close_sim(sim)
        if kind != 'ok':
            st['skipped'] = 1           # other properties report that
            return {'v': None, 'st': st, 'log': sha(logs)}
        del res
        sets = plan['settings']
        if faults is not None:
            v, lg = self.once(op, dict(env, faults=faults), sets[0], amb,
                              expect, st)
            return {'v': v, 'st': st, 'log': sha(logs + [lg])}
        r = random.Random(plan['gen'])
        for i in range(plan['subs']):
            if st['lines'] > 400_000 or st['workers'] > 400:
                break
            fl = self.pick(r, parent, tasks, npools, nwrites) if i else []
            s = sets[i % len(sets)]
            v, lg = self.once(op, dict(env, faults=fl), s, amb, expect, st)
            logs.append(lg)
            if v is not None:
                return {'v': v, 'st': st, 'log': sha(logs),
                        'plan': dict({k: x for k, x in plan.items()
                                      if k not in ('gen', 'subs')},
                                     settings=[s],
                                     env=dict(env, faults=fl))}
        return {'v': None, 'st': st, 'log': sha(logs)}

    def once(self, op, env, settings, amb, expect, st):
        sim = open_sim(env)
        try:
            amb.apply(settings)
            # unseeded sampling is meant to draw from the global streams
            before = amb.snapshot(op['op'] != 'noise')
            kind, res = call(sim, lambda: target.run_op(op))
            after = amb.snapshot(op['op'] != 'noise')
            what = describe(env['faults']) if env['faults'] else \
                'a call without faults'
            m = ambient.changed(before, after)
            v = m and ['state', 'after %s: %s' % (what, m)]
            if v is None and not sim.fired and \
                    judge_op(op, kind, res) != expect:
                v = ['settings', 'under other settings of the process (%s): '
                     '%s' % (settings, tb_text(res) if kind == 'exc'
                             else 'a different result')]
            st['checked'] = st.get('checked', 0) + 1
            sched_stats(sim, st)
            return v, sha([sim.log, kind])
        finally:
            close_sim(sim)

    def shrink(self, plan):
        if 'threads' in plan:
            for p in CHECKS['C06'].shrink(plan['threads']):
                yield dict(plan, threads=p)
            return
        if 'gen' in plan:
            return
        for e in shrink_env(plan['env']):
            yield dict(plan, env=e)
        for i, f in enumerate(plan['env']['faults']):
            if f.get('n', 1) > 1 and 'line' in f:
                for n in (1, f['n'] // 2, f['n'] - 1):
                    e = copy.deepcopy(plan['env'])
                    e['faults'][i]['n'] = n
                    yield dict(plan, env=e)
        if 'max_div' in plan['op'] and 'points' in plan['op']:
            for t in shrink_spec(plan['op']):
                yield dict(plan, op=t)


CHECKS = {c.pid: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09,
                               C10, C11, C12, C13, C14, C15, C16, C17, C18)}


def execute(plan):
    """Run a plan.  What the cheap mode (tasks run inside the calling process)
    finds only counts when worker processes with their own memory show it
    too."""
    chk = CHECKS[plan['prop']]
    out = chk.execute(plan)
    if out['v'] is None:
        return out
    p2 = copy.deepcopy(out.get('plan', plan))
    cheap = False
    for e in [p2.get('env')] + list(p2.get('envs', ())):
        if e and e.pop('inline', None):
            cheap = True
    if not cheap:
        return out
    o2 = chk.execute(p2)
    o2['st']['confirm'] = 1
    if o2['v'] is None:
        o2['st']['unconfirmed'] = 1
    else:
        o2['plan'] = o2.get('plan', p2)
    return o2
