"""Searches for small inputs that reach rarely executed code and rare
situations (higher differentials, nontrivial extensions...); the result,
corpus/specs.json, seeds the workload generators of all checks.

  build_corpus.py search SEED SECONDS OUT     one search process
  build_corpus.py merge DEST IN...            combine
"""
import json
import os
import random
import signal
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, props, target, workload  # noqa
from sim.core import Sim  # noqa

M = sys.monitoring


def run(spec):
    lines = set()

    def line(code, ln):
        if core.MARK in code.co_filename:
            lines.add('line:%s:%d' % (core.short(code), ln))
        return M.DISABLE
    sim = Sim({'seed': 1, 'cpus': 1, 'inline': True, 'cap': 10 ** 9})
    Sim.current = sim
    so = sys.stdout
    sys.stdout = sim.out
    M.register_callback(4, M.events.LINE, line)
    M.set_events(4, M.events.LINE)
    M.restart_events()
    try:
        S = target.op_mv(spec)
    finally:
        M.set_events(4, 0)
        sys.stdout = so
        props.close_sim(sim)
    return lines | semantic(S, spec)


def semantic(S, spec):
    np = target.T['np']
    f = set()
    p = spec['p']
    pc = 'p2' if p == 2 else 'p3' if p == 3 else 'p5+'
    dim = len(spec['points'][0])
    pm = S.page_dim_matrix
    top = spec['max_dim']
    for k in range(1, S.no_pages):
        for n in range(pm.shape[2]):
            for d in range(pm.shape[1]):
                if n + d < top and pm[k + 1][d][n]:
                    if n:
                        f.add('E%d(%d,%d)' % (k + 1, n, d))
                    if k >= 2 and pm[k][d][n] != pm[k + 1][d][n]:
                        f.add('d%d@(%d,%d)' % (k, n, d))
                        f.add('d%d:%s:dim%d' % (k, pc, dim))
                if k >= 2 and n + d <= top and \
                        pm[k][d][n] != pm[k + 1][d][n]:
                    f.add('d%d~(%d,%d)' % (k, n, d))
                # partial changes (bars that change length only)
    ne = 0
    for n, a in enumerate(S.extensions):
        for d, b in enumerate(a):
            for i, e in enumerate(b):
                e = np.array(e)
                if i and np.any(e):
                    ne += 1
                    f.add('ext(%d,%d)+%d' % (n, d, i))
                    f.add('ext:%s:dim%d' % (pc, dim))
                    f.add('extnnz%d:%s' % (min(4, np.count_nonzero(e)), pc))
                    if np.any((e % p != 0) & (e % p != 1)):
                        f.add('extcoef:%s' % pc)
    if ne:
        f.add('next%d' % min(ne, 4))
    for d, h in enumerate(S.persistent_homology):
        if d and h.dim:
            f.add('H%d:%d' % (d, min(h.dim, 5)))
    reg = len(S.points_IN[0])
    f.add('regions%d' % (reg if reg < 5 else 5 * (reg // 5)))
    big = max(len(S.points_IN[n]) for n in range(len(S.points_IN)))
    f.add('width%d' % (big // 16))
    if any(len(x) == 0 for x in S.points_IN[0]):
        f.add('empty region')
    # alive bars of different degree whose death equals another's birth etc.
    return f


def alarm(*a):
    raise TimeoutError


def search(seed, secs, out):
    target.load()
    M.use_tool_id(4, 'corpus')
    signal.signal(signal.SIGALRM, alarm)
    r = random.Random(seed)
    feats = {}          # feature -> list of (cost, id)
    specs = {}
    end = core.real_monotonic() + secs
    n = 0
    count = {}
    while core.real_monotonic() < end:
        mc = r.choice([40, 100, 200, 400, 800])
        if specs and r.random() < .55:
            rare = sorted(feats, key=lambda k: count[k])
            k = rare[int(len(rare) * r.random() ** 3)]
            base = specs[r.choice(feats[k])[1]]
            s = props.mutate_spec(r, base, mc)
        else:
            s = workload.make_spec(r, max_cost=mc)
        n += 1
        signal.alarm(20)
        try:
            fs = run(s)
        except TimeoutError:
            continue
        except Exception as e:
            print('FAIL', repr(e), json.dumps(s), flush=True)
            continue
        finally:
            signal.alarm(0)
        c = workload.cost(s)
        used = False
        for x in fs:
            count[x] = count.get(x, 0) + 1
            l = feats.setdefault(x, [])
            if len(l) < 6 or c < l[-1][0]:
                l.append((c, n))
                l.sort()
                del l[6:]
                used = True
        if used:
            s = dict(s, cost=c, feats=sorted(fs))
            specs[n] = s
        if n % 200 == 0:
            keep = set(i for l in feats.values() for _, i in l)
            specs = {i: s for i, s in specs.items() if i in keep}
            json.dump([list(specs.values()), count, n], open(out, 'w'))
    json.dump([list(specs.values()), count, n], open(out, 'w'))
    print('runs', n, 'features', len(feats), 'specs', len(specs))


def merge(dest, ins, per=3):
    specs, count, n = [], {}, 0
    for f in ins:
        a, c, m = json.load(open(f))
        specs += a
        n += m
        for k, v in c.items():
            count[k] = count.get(k, 0) + v
    by = {}
    for i, s in enumerate(specs):
        for f in s['feats']:
            by.setdefault(f, []).append((s['cost'], i))
    keep, got = [], {}
    for f in sorted(by, key=lambda k: count[k]):
        if count[f] > n * .5:
            continue
        want = per + (2 if count[f] < n * .02 else 0)
        for c, i in sorted(by[f]):
            if got.get(f, 0) >= want:
                break
            if i in keep:
                continue
            keep.append(i)
            for g in specs[i]['feats']:
                got[g] = got.get(g, 0) + 1
    out = []
    for i in keep:
        s = dict(specs[i])
        s['why'] = sorted((f for f in s.pop('feats')
                           if count[f] < n * .05 and ':' not in f),
                          key=lambda f: count[f])[:4]
        out.append(s)
    with open(dest, 'w') as fh:
        fh.write('[\n' + ',\n'.join(json.dumps(s) for s in out) + '\n]\n')
    print(n, 'runs;', len(out), 'specs;', len(count), 'features')
    for f in sorted(count, key=lambda k: count[k])[:80]:
        print(count[f], f)


if __name__ == '__main__':
    if sys.argv[1] == 'search':
        search(int(sys.argv[2]), float(sys.argv[3]), sys.argv[4])
    else:
        merge(sys.argv[2], sys.argv[3:])
