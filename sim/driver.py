"""Runs the simulations of one property: seeded search over many runs on all
cores, minimisation of the first violation, replay files, evidence.

  check C01                      quick or thorough (VERIF_TIER, --tier)
  check C01 --seed 7 --runs 50
  check --replay FILE            run a replay file again
"""
import argparse
import ctypes
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BATCHES = 8
RUN_LIMIT = 150.0          # real seconds a single run may take
MEM = 6 << 30


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, signal.SIGKILL)


def real_clock():
    from . import core
    return core.real_monotonic()


# ---------------------------------------------------------------------------
# one run in its own process

def forked(fn, limit):
    """fn() in a forked child -> ('ok', value) | ('stuck',) | ('crash', text)"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            die_with_parent()
            os.setpgid(0, 0)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
            except (ValueError, OSError):
                pass
            try:
                out = ['ok', fn()]
            except BaseException:
                import traceback
                out = ['crash', traceback.format_exc()[-3000:]]
            b = json.dumps(out).encode()
            while b:
                b = b[os.write(wfd, b[:65536]):]
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    return pid, rfd, real_clock() + limit


def collect(jobs, wait=None):
    """jobs: {rfd: [pid, deadline, bytes, key]}; yields (key, result)."""
    while jobs:
        now = real_clock()
        t = max(0.0, min(j[1] for j in jobs.values()) - now)
        if wait is not None:
            t = min(t, wait)
        r, _, _ = select.select(list(jobs), [], [], t)
        for fd in r:
            b = os.read(fd, 1 << 20)
            j = jobs[fd]
            if b:
                j[2] += b
                continue
            os.close(fd)
            del jobs[fd]
            reap(j[0])
            try:
                out = json.loads(bytes(j[2]))
            except ValueError:
                out = ['crash', 'run process died']
            yield j[3], out
        now = real_clock()
        for fd in [f for f, j in jobs.items() if j[1] <= now]:
            j = jobs.pop(fd)
            os.close(fd)
            reap(j[0])
            yield j[3], ['stuck']
        if wait is not None and not r:
            return


def reap(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        os.waitpid(pid, 0)
    except ChildProcessError:
        pass


def start(jobs, key, fn, limit=RUN_LIMIT):
    pid, fd, dl = forked(fn, limit)
    jobs[fd] = [pid, dl, bytearray(), key]


def run_one(fn, limit=RUN_LIMIT):
    jobs = {}
    start(jobs, 0, fn, limit)
    for _, out in collect(jobs):
        return out


# ---------------------------------------------------------------------------
# batch process: a fresh interpreter with a given hash seed

def batch():
    die_with_parent()
    from . import props, target
    req = json.loads(sys.stdin.readline())
    target.load()
    chk = props.CHECKS[req['prop']]
    out = sys.stdout
    if req['mode'] == 'plan':            # execute plans given explicitly
        for i, plan in enumerate(req['plans']):
            res = run_one(lambda: props.execute(plan), req['limit'])
            out.write(json.dumps([i, res]) + '\n')
            out.flush()
        return
    if req['mode'] == 'shrink':
        return shrink(req, props, out)
    end = real_clock() + req['secs']
    for i, cross in req['seeds']:
        if real_clock() > end:
            break
        seed = '%s:%d' % (req['seed'], i)

        def one():
            plan = chk.plan(seed, req['tier'], i)
            if cross:
                plan = chk.cross_plan(plan)
            res = props.execute(plan)
            if res['v'] is not None:
                res.setdefault('plan', plan)
            elif i < 2:
                res['sample'] = plan
            return res
        t = real_clock()
        res = run_one(one)
        out.write(json.dumps([i, cross, res, round(real_clock() - t, 3)])
                  + '\n')
        out.flush()


def shrink(req, props, out):
    """Greedy: repeatedly take the first smaller plan with the same class of
    violation."""
    plan, cls = req['plan'], req['cls']
    chk = props.CHECKS[req['prop']]
    end = real_clock() + req['secs']
    tried = 0
    improved = True
    while improved and real_clock() < end:
        improved = False
        gen = iter(chk.shrink(plan))
        while real_clock() < end:
            cands = []
            for c in gen:
                cands.append(c)
                if len(cands) == BATCHES:
                    break
            if not cands:
                break
            jobs, got = {}, {}
            for k, c in enumerate(cands):
                start(jobs, k, lambda c=c: props.execute(c),
                      max(1.0, min(20.0, end - real_clock())))
            for k, res in collect(jobs):
                got[k] = res
            tried += len(cands)
            for k in sorted(got):
                res = got[k]
                if res[0] == 'ok' and res[1]['v'] and res[1]['v'][0] == cls:
                    plan = res[1].get('plan', cands[k])
                    improved = True
                    break
            if improved:
                break
    out.write(json.dumps([plan, tried]) + '\n')
    out.flush()


def batch_env(hashseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPYCACHEPREFIX'] = os.path.join(SCRATCH, 'pyc')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    for k in ('PYTHONSTARTUP', 'PYTHONWARNINGS', 'PYTHONPATH'):
        env.pop(k, None)
    env['PYTHONPATH'] = ROOT
    return env


def spawn_batch(hashseed, req):
    p = subprocess.Popen(
        [sys.executable, '-m', 'sim.driver', '--batch'], cwd=SCRATCH,
        env=batch_env(hashseed), stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=ERR, start_new_session=True)
    p.stdin.write((json.dumps(req) + '\n').encode())
    p.stdin.close()
    return p


def ask(hashseed, req):
    p = spawn_batch(hashseed, req)
    lines = p.stdout.read().decode().splitlines()
    p.wait()
    return [json.loads(x) for x in lines]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    # run processes are their own groups: they end when their pipe closes
    p.wait()


SCRATCH = None
ERR = None


# ---------------------------------------------------------------------------

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif k == 'inflight':
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v


def hash_of(batch):
    return [0, 1, 2, 3, 1234, 99, 4242, 77][batch % 8]


def search(args, chk):
    """-> (stats, violation or None, problems)"""
    n, secs = chk.budget[args.tier]
    if args.runs:
        n = args.runs
    if args.secs:
        secs = args.secs
    B = BATCHES
    seeds = [[] for _ in range(B)]
    for i in range(n):
        seeds[i % B].append([i, False])
        if chk.cross_hash:
            seeds[(i + 1) % B].append([i, True])
    for s in seeds:
        s.sort()
    procs = {}
    for b in range(B):
        if seeds[b]:
            p = spawn_batch(hash_of(b), {
                'mode': 'seeds', 'prop': args.prop, 'tier': args.tier,
                'seed': args.seed, 'seeds': seeds[b], 'secs': secs})
            procs[p.stdout.fileno()] = (b, p, bytearray())
    st, runs, viol, problems = {}, 0, None, []
    keys, walls, samples = {}, [], []
    finished = True
    while procs and viol is None:
        r, _, _ = select.select(list(procs), [], [])
        for fd in r:
            b, p, buf = procs[fd]
            x = os.read(fd, 1 << 20)
            if not x:
                del procs[fd]
                p.wait()
                if p.returncode:
                    problems.append('batch %d ended with %s' % (
                        b, p.returncode))
                continue
            buf += x
            while b'\n' in buf:
                ln, _, rest = bytes(buf).partition(b'\n')
                buf[:] = rest
                i, cross, res, wall = json.loads(ln)
                walls.append(wall)
                if res[0] == 'crash':
                    problems.append('seed %s:%d: %s' % (
                        args.seed, i, res[1]))
                    continue
                if res[0] == 'stuck':
                    viol = viol or {
                        'i': i, 'hashseed': hash_of(b), 'stuck': True,
                        'v': ['stuck', 'a run did not end within %d s of '
                              'real time' % RUN_LIMIT]}
                    continue
                o = res[1]
                runs += 1
                merge(st, o['st'])
                if 'sample' in o:
                    samples.append(o['sample'])
                if o['v'] is not None:
                    if viol is None or viol.get('stuck') or i < viol['i']:
                        viol = {'i': i, 'hashseed': hash_of(b), 'v': o['v'],
                                'plan': o['plan'], 'log': o['log']}
                    continue
                if o.get('xkey'):
                    prev = keys.setdefault(i, (o['xkey'], hash_of(b)))
                    if prev[0] != o['xkey']:
                        viol = viol or {
                            'i': i, 'hashseed': prev[1], 'v': [
                                'hashseed', 'the result depends on '
                                'PYTHONHASHSEED (%d or %d)' % (
                                    prev[1], hash_of(b))],
                            'plan': chk.cross_plan(chk.plan(
                                '%s:%d' % (args.seed, i), args.tier, i)),
                            'cross': [prev[1], hash_of(b)]}
    for b, p, _ in procs.values():
        kill(p)
    st['runs'] = runs
    st['walls'] = walls
    st['samples'] = samples
    st['planned'] = n + (n if chk.cross_hash else 0)
    return st, viol, problems


def replay_once(rep):
    """-> [class, message, log] or None"""
    req = {'mode': 'plan', 'prop': rep['property'], 'plans': [rep['plan']],
           'limit': RUN_LIMIT}
    if rep.get('cross'):
        a, b = [ask(h, req)[0][1] for h in rep['cross']]
        if a[0] == b[0] == 'ok' and a[1]['xkey'] != b[1]['xkey']:
            return [rep['class'], rep['message'],
                    [a[1]['xkey'], b[1]['xkey']]]
        return None
    ans = ask(rep['hashseed'], req)
    if not ans:
        raise RuntimeError('replay process failed')
    res = ans[0][1]
    if res[0] == 'stuck':
        return ['stuck', 'a run did not end within %d s of real time'
                % RUN_LIMIT, None]
    if res[0] == 'crash':
        raise RuntimeError(res[1])
    o = res[1]
    return None if o['v'] is None else [o['v'][0], o['v'][1], o['log']]


def tree_state():
    def git(*a):
        return subprocess.run(
            ['git', '-C', '/repo'] + list(a), capture_output=True,
            text=True).stdout.strip()
    return {'head': git('rev-parse', 'HEAD'),
            'changed': git('status', '--porcelain').splitlines()[:20]}


def report(args, chk, viol):
    """Minimise, write the replay file, confirm it.  -> path or None"""
    if 'plan' not in viol:           # stuck: plan is derived from the seed
        viol['plan'] = chk.plan('%s:%d' % (args.seed, viol['i']), args.tier,
                                viol['i'])
    plan, tried = viol['plan'], 0
    cls = viol['v'][0]
    if not viol.get('cross') and not viol.get('stuck'):
        ans = ask(viol['hashseed'], {
            'mode': 'shrink', 'prop': args.prop, 'plan': plan, 'cls': cls,
            'secs': args.shrink, 'limit': RUN_LIMIT})
        if ans:
            plan, tried = ans[0]
    rep = {'property': args.prop, 'class': cls, 'message': viol['v'][1],
           'hashseed': viol['hashseed'], 'plan': plan,
           'found': {'seed': args.seed, 'run': viol['i'], 'tier': args.tier,
                     'candidates_tried': tried}, 'tree': tree_state()}
    if viol.get('cross'):
        rep['cross'] = viol['cross']
    exact = False
    for p in [plan] * (1 if viol.get('stuck') else 4) + [viol['plan']] * 4:
        rep['plan'] = p
        got = replay_once(rep)
        if got is not None and (got[0] == cls or viol.get('stuck')):
            rep['class'], rep['message'], rep['log'] = got
            exact = viol.get('stuck') or replay_once(rep) == got
            break
        if viol.get('stuck'):
            # slow machine, not a call that does not end
            return None, rep
    else:
        # the run did go wrong, but depends on something the simulator does
        # not control (say, addresses of objects): still a violation
        rep['message'] = viol['v'][1]
        rep['reproduced'] = False
    rep['exact'] = exact
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (args.prop, args.seed,
                                              viol['i']))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
        f.write('\n')
    return path, rep


# ---------------------------------------------------------------------------
# findings that are known and not repaired

def known_findings(pid):
    """Lines 'known: property=<id> class=<class> match=<text> :: <what>'."""
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for ln in open(f):
            if ln.startswith('known:') and 'property=%s ' % pid in ln:
                head, _, what = ln[6:].partition('::')
                kv = dict(x.split('=', 1) for x in head.split() if '=' in x)
                out.append((kv, what.strip()))
    return out


# ---------------------------------------------------------------------------

def evidence(args, chk, st, viol, wall):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    inter = st.get('inter', [])
    w = sorted(st['walls']) or [0]
    cov = {
        'evaluations': st['runs'],
        'distinct_nontrivial': len(set(inter)),
        'rule': chk.rule,
        'samples': st['samples'][:2],
        'planned_runs': st['planned'],
        'runs_per_hour': int(st['runs'] * 3600 / max(wall, 1e-3)),
        'library_calls_simulated': len(inter),
        'simulated_seconds': round(st.get('vtime', 0), 3),
        'library_lines_executed': st.get('lines', 0),
        'pools_simulated': st.get('pools', 0),
        'tasks_executed': st.get('tasks', 0),
        'worker_processes': st.get('workers', 0),
        'max_tasks_in_flight': st.get('inflight', 0),
        'faults_injected': st.get('faults', {}),
        'distinct_fault_sites': len(set(st.get('sites', []))),
        'reached': dict(sorted(st.get('reach', {}).items())),
        'run_wall_s': {'median': w[len(w) // 2], 'max': w[-1]},
        'hash_seeds': sorted(set(hash_of(b) for b in range(BATCHES))),
        'real_code': chk.real, 'stubs': chk.stubs,
        'determinism': 'every run is a function of its plan; replay files '
                       'hold the plan',
    }
    for k in ('switches', 'steps', 'ops', 'opkinds', 'raised', 'survived',
              'unfired', 'skipped', 'failed_ops', 'checked', 'confirm',
              'unconfirmed', 'samples_checked'):
        if k in st:
            cov[k] = st[k]
    ev = {'property': args.prop, 'tier': args.tier, 'seed': int(args.seed),
          'level': chk.level, 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': 1 if viol else 0, 'assumptions': chk.assumptions}
    path = os.path.join(ROOT, 'evidence', args.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def main():
    global SCRATCH, ERR
    if '--batch' in sys.argv:
        SCRATCH = os.getcwd()
        return batch()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--shrink', type=float, default=35.0)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    try:
        int(args.seed)
    except ValueError:
        args.seed = '1'
    SCRATCH = tempfile.mkdtemp(prefix='permaviss-sim-')
    ERR = open(os.path.join(SCRATCH, 'stderr'), 'wb')
    try:
        return replay(args) if args.replay else check(args)
    finally:
        ERR.close()
        shutil.rmtree(SCRATCH, ignore_errors=True)


def replay(args):
    rep = json.load(open(args.replay))
    got = replay_once(rep)
    if got is None:
        print('no violation: the plan runs clean on this tree')
        return 0
    same = got[0] == rep['class'] and got[2] == rep.get('log')
    print('%s: %s' % (got[0], got[1]))
    print('identical to the recorded run: %s' % ('yes' if same else 'no'))
    print('VIOLATION property=%s replay=%s' % (rep['property'], args.replay))
    return 1


def check(args):
    from . import props
    chk = props.CHECKS[args.prop]
    t0 = time.monotonic()
    st, viol, problems = search(args, chk)
    path = rep = None
    listed = False
    if viol is not None:
        path, rep = report(args, chk, viol)
        for kv, what in known_findings(args.prop):
            if rep and kv.get('class') == rep['class'] and \
                    kv.get('match', '').replace('_', ' ') in rep['message']:
                print('KNOWN-FINDING: property=%s %s' % (args.prop, what))
                listed = True
    wall = time.monotonic() - t0
    if not args.no_evidence:
        evidence(args, chk, st, path and viol, wall)
    print('%s %s: %d runs (%d planned), %d distinct interleavings, %.0f '
          'simulated s, %.1f s' % (
              args.prop, args.tier, st['runs'], st['planned'],
              len(set(st.get('inter', []))), st.get('vtime', 0), wall))
    if viol is not None and not listed:
        print('%s: %s' % (rep['class'], rep['message']))
        if path is None:
            print('not repeatable: counted as unfinished')
            return 0
        print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if problems:
        print('ERROR: %d problem(s) of the harness; first:\n%s' % (
            len(problems), problems[0]))
        ERR.flush()
        sys.stdout.write(open(os.path.join(SCRATCH, 'stderr'),
                              errors='replace').read()[-3000:])
        return 2
    if not st['runs']:
        print('ERROR: no run was made')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
