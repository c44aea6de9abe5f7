"""Seeded workload generation: point clouds and parameters for one session.

Coordinates are multiples of 1/256, so equal distances are exactly equal
floats and distinct ones differ by far more than the 1e-7 precision with which
the library sorts bars.
"""
import math
from . import refmodel as rm

Q = 256.0


def snap(x):
    return round(x * Q) / Q


def _uniform(rng, dim, n):
    return [[rng.random() for _ in range(dim)] for _ in range(n)]


def _lattice(rng, dim, n):
    k = rng.choice([3, 4, 4, 6])
    pts = [[rng.randrange(k + 1) / float(k if k in (4,) else 8)
            for _ in range(dim)] for _ in range(n)]
    return pts


def _circle(rng, dim, n, cx=0.5, cy=0.5, rad=None):
    rad = rad or rng.choice([0.5, 0.4, 0.3])
    eps = rng.choice([0.0, 0.02, 0.05, 0.1])
    pts = []
    off = rng.random()
    for i in range(n):
        a = 2 * math.pi * (i + off + eps * rng.gauss(0, 1)) / n
        r = rad * (1 + eps * rng.gauss(0, 1))
        q = [cx + r * math.cos(a), cy + r * math.sin(a)]
        while len(q) < dim:
            q.append(eps * rng.gauss(0, 1))
        pts.append(q[:dim])
    return pts


def _figure8(rng, dim, n):
    m = max(4, n // 2)
    return _circle(rng, dim, m, 0.3, 0.5, 0.28) + \
        _circle(rng, dim, m, 0.8, 0.5, rng.choice([0.28, 0.2]))


def _cross(rng, dim, n):
    """jittered cross-polytope (sphere-like): kills H1, carries H_{dim-1}"""
    pts = []
    eps = rng.choice([0.0, 0.0, 0.01, 0.03])
    for d in range(dim):
        for s in (-0.5, 0.5):
            q = [0.5 + eps * rng.gauss(0, 1) for _ in range(dim)]
            q[d] += s * (1 + eps * rng.gauss(0, 1))
            pts.append(q)
    for _ in range(rng.choice([0, 0, 1, 2])):
        pts.append([rng.random() for _ in range(dim)])
    return pts


def _clusters(rng, dim, n):
    k = rng.choice([2, 3, 4])
    cs = [[rng.random() for _ in range(dim)] for _ in range(k)]
    pts = []
    for i in range(n):
        c = rng.choice(cs)
        pts.append([x + rng.gauss(0, 0.06) for x in c])
    return pts


def _line(rng, dim, n):
    d = [rng.choice([0, 1, 1, 0.5]) for _ in range(dim)]
    if not any(d):
        d[0] = 1
    return [[t * x for x in d] for t in (rng.random() for _ in range(n))]


def _sphere(rng, dim, n):
    pts = []
    for _ in range(n):
        v = [rng.gauss(0, 1) for _ in range(dim)]
        m = math.sqrt(sum(x * x for x in v)) or 1.0
        pts.append([0.5 + 0.5 * x / m for x in v])
    return pts


def _annulus_grid(rng, dim, n):
    k = rng.choice([3, 4, 5])
    pts = []
    for i in range(k):
        for j in range(k):
            if 0 < i < k - 1 and 0 < j < k - 1 and rng.random() < 0.8:
                continue
            q = [i / (k - 1.0), j / (k - 1.0)]
            q = [x + rng.choice([0, 0, 0.02]) * rng.gauss(0, 1) for x in q]
            while len(q) < dim:
                q.append(rng.choice([0, 0.1]) * rng.random())
            pts.append(q[:dim])
    return pts


def _edge(rng, dim, n):
    """Few or repeated points."""
    k = rng.randrange(5)
    a = [rng.random() for _ in range(dim)]
    b = [rng.random() for _ in range(dim)]
    if k == 0:
        return [a]
    if k == 1:
        return [a] * rng.choice([2, 3])
    if k == 2:
        return [a, b]
    if k == 3:
        return [a, b] * 2
    pts = _lattice(rng, dim, n)
    return pts + [rng.choice(pts) for _ in range(3)]


def _flat(rng, dim, n):
    """A plane figure in space of higher dimension: boxes in a row or layer,
    with sides of length zero or nearly so."""
    base = _circle(rng, 2, n) if rng.random() < .6 else _uniform(rng, 2, n)
    thick = [rng.choice([0, 0, .02, .1]) for _ in range(dim - 2)]
    pts = [q + [t * rng.random() for t in thick] for q in base]
    perm = rng.sample(range(dim), dim)
    return [[q[i] for i in perm] for q in pts]


def suspension(rng):
    """A cloud for which, divided into 2 x 2 x 2 regions, the third
    differential is nontrivial: two poles that are alone in the common
    intersection, connected through each pair of opposite regions, and a
    sphere (suspended hexagon) in at least one octant.  Perturbed."""
    eps = rng.choice([0, 0, .01, .03, .06])

    def g(x):
        return x + eps * rng.uniform(-1, 1)
    n, s = g(.3), g(.4)
    pts = [[n, n, n], [-s, -s, -s]]
    a, b, c = .55, -.15, -.45
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        for u, v in ((b, c), (c, b)):
            q = [0, 0, 0]
            q[i], q[j], q[k] = a, g(u), g(v)
            pts.append(q)
        q = [g(.1), g(.1), g(.1)]
        q[i] = -a
        pts.append(q)
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        q = [rng.choice([.55, -.55, rng.uniform(-.55, .55)])
             for _ in range(3)]
        pts.append(q)
    if rng.random() < .25:
        pts.pop(rng.randrange(len(pts)))
    # symmetries of the cube
    perm = rng.sample(range(3), 3)
    sg = [rng.choice([1, -1]) for _ in range(3)]
    pts = [[sg[i] * q[perm[i]] for i in range(3)] for q in pts]
    rng.shuffle(pts)
    return pts


def suspension_spec(rng, primes=None):
    pts = [[snap(x) for x in q] for q in suspension(rng)]
    max_r = rng.choice([1.0, 1.0, 1.0, .98, 1.05, 1.1, 1.2])
    k = rng.choice([1.0, 1.0, .5, 2.0, 8.0])
    off = [rng.choice([0, 0, 1, -3]) for _ in range(3)]
    pts = [[x * k + o for x, o in zip(q, off)] for q in pts]
    return {'kind': 'suspension', 'points': pts, 'max_r': max_r * k,
            'max_dim': rng.choice([3, 3, 3, 2, 4]), 'max_div': 2,
            'overlap': max(max_r, rng.choice([1.0, 1.0, .96, 1.04])) * k,
            'p': rng.choice(primes or PRIMES)}


def long_spec(rng, primes=None, whole=False):
    """Many points, each with few neighbours: indices of points and simplices
    beyond 127 and 255, up to 60 regions."""
    n = rng.choice([70, 130, 140, 270, 280, 300])
    k = rng.choice([1.5, 1.5, 2.5, 3.2])
    shape = rng.choice(['line', 'line', 'circle', 'uneven'])
    dim = rng.choice([1, 1, 2, 3]) if shape != 'circle' else 2
    if shape == 'circle':
        rad = n / 16.0 / math.pi / 2
        k = min(k, 2.5)
        pts = [[rad * math.cos(2 * math.pi * i / n),
                rad * math.sin(2 * math.pi * i / n)] for i in range(n)]
        step = 1 / 16.0
    else:
        step = 1 / 8.0
        pts = [[i * step] + [0.0] * (dim - 1) for i in range(n)]
        if shape == 'uneven':
            for q in pts[-5:]:
                q[0] += n * step * .9
    pts = [[snap(x + rng.choice([0, 0, 1, 2, 3]) / 256.) for x in q]
           for q in pts]
    if rng.random() < .5:
        rng.shuffle(pts)
    max_div = rng.choice([1, 2, 3, 7]) if shape == 'circle' else \
        rng.choice([1, 2, 3, 12, 40, 60])
    if whole:
        max_div = 1
    if max_div < 7:               # large regions: keep them sparse
        k = min(k, 1.5 if n > 140 and max_div < 3 else 2.5)
    max_r = k * step
    return {'kind': 'long', 'points': pts, 'max_r': max_r,
            'max_dim': rng.choice([1, 2, 2, 3]), 'max_div': max_div,
            'overlap': max_r * rng.choice([1.0, 1.01, 1.5]),
            'p': rng.choice(primes or PRIMES)}


def many_spec(rng, primes=None):
    """Few points in many regions, most of them with two or three points or
    none: many small tasks."""
    n = rng.choice([20, 34, 40, 66])
    step = 1 / 8.0
    pts = [[snap(i * step + rng.choice([0, 0, 1, 2, 3]) / 256.)]
           for i in range(n) if rng.random() < .9]
    if rng.random() < .3:
        for q in pts[-4:]:
            q[0] += n * step * rng.choice([.25, .5])
    if rng.random() < .5:
        pts = [q + [0.0] for q in pts]
    if rng.random() < .5:
        rng.shuffle(pts)
    max_r = step * rng.choice([1.5, 1.5, 2.25])
    return {'kind': 'many', 'points': pts, 'max_r': max_r,
            'max_dim': rng.choice([1, 2, 2]),
            'max_div': rng.choice([n // 2, n // 2, n, 17]),
            'overlap': max_r * rng.choice([1.0, 1.25]),
            'p': rng.choice(primes or PRIMES)}


def embed(rng, spec):
    """The same cloud in a space of higher dimension."""
    n = rng.randint(1, 3)
    c = [rng.choice([0.0, 0.0, 1.0, -3.0]) for _ in range(n)]
    perm = rng.sample(range(len(spec['points'][0]) + n),
                      len(spec['points'][0]) + n)
    spec['points'] = [[(list(q) + c)[i] for i in perm]
                      for q in spec['points']]
    return spec


def morphism(rng):
    """A morphism of persistence modules: bars of domain and range, and a
    matrix.  A bar [a, b) can map to [c, d) if c <= a < d <= b."""
    def bars(n):
        out = []
        for _ in range(n):
            a = rng.randrange(8)
            out.append([a, rng.randint(a + 1, 9)])
        return sorted(out, key=lambda x: (x[0], -x[1])) \
            if rng.random() < .5 else out
    A, B = bars(rng.randint(1, 5)), bars(rng.randint(1, 5))
    p = rng.choice([2, 3, 5, 7, 13])
    F = [[rng.randrange(p) if c <= a < d <= b and rng.random() < .8 else 0
          for a, b in A] for c, d in B]
    return {'op': 'morphism', 'A': A, 'B': B, 'matrix': F, 'p': p}


def transform(rng, pts):
    """Move, stretch and mirror: exact in binary floating point."""
    dim = len(pts[0])
    if rng.random() < .5:
        return pts
    sc = [1.0] * dim
    if rng.random() < .4:
        sc = [rng.choice([1, 1, 2, 4]) for _ in range(dim)]
    k = rng.choice([1.0, 1.0, .5, 4.0, 16.0])
    sc = [x * k * rng.choice([1, 1, -1]) for x in sc]
    off = [rng.choice([0, 0, -1, .5, -7, 100]) * k for _ in range(dim)]
    return [[x * c + o for x, c, o in zip(q, sc, off)] for q in pts]


def real_numbers(rng, pts):
    """Scale and rotate by irrational amounts: distances that were equal now
    differ by rounding errors, as in clouds users have."""
    k = rng.choice([math.pi / 3, math.sqrt(2), .1, 1 / 3., 7.3])
    th = rng.choice([0, 0, .3, 1.1])
    out = []
    for q in pts:
        q = [x * k for x in q]
        if len(q) > 1:
            c, s = math.cos(th), math.sin(th)
            q[0], q[1] = q[0] * c - q[1] * s, q[0] * s + q[1] * c
        out.append(q)
    return out


def nearly_equal(rng, pts):
    """Move a few points by a millionth or so: short bars and distances that
    are close to each other but not equal."""
    pts = [list(q) for q in pts]
    for i in rng.sample(range(len(pts)), min(len(pts), rng.choice([1, 1, 2]))):
        for c in range(len(pts[i])):
            pts[i][c] += rng.choice([0, 1, -1]) * rng.choice([1, 2, 3]) \
                * 2.0 ** -18
    return pts


def exact(pts):
    return all(x * 65536 == int(x * 65536) for q in pts for x in q)


def separated(pts, max_r):
    """Distances are equal up to rounding or clearly different."""
    v = sorted([max_r] + [rm.distance(a, b) for i, a in enumerate(pts)
                          for b in pts[:i]])
    return not any(1e-10 < b - a < 1e-6 for a, b in zip(v, v[1:])) and \
        not any(0 < abs(x - max_r) < 1e-6 or x == max_r for x in v
                if x is not max_r)


KINDS = {
    'edge': (_edge, [1, 2, 2, 3], (2, 6)),
    'uniform': (_uniform, [1, 2, 2, 2, 3], (3, 22)),
    'lattice': (_lattice, [1, 2, 2, 3], (3, 18)),
    'circle': (_circle, [2, 2, 3], (5, 16)),
    'figure8': (_figure8, [2], (8, 18)),
    'cross': (_cross, [2, 3, 3], (4, 8)),
    'clusters': (_clusters, [1, 2, 2, 3], (4, 16)),
    'line': (_line, [1, 2, 2, 3], (3, 12)),
    'sphere': (_sphere, [2, 3, 3], (6, 16)),
    'annulus': (_annulus_grid, [2, 2, 3], (8, 20)),
    'flat': (_flat, [3, 4, 4, 5], (5, 14)),
}
WEIGHTS = [('uniform', 3), ('lattice', 3), ('circle', 5), ('figure8', 3),
           ('cross', 2), ('clusters', 2), ('line', 1), ('sphere', 3),
           ('annulus', 3), ('edge', 1), ('flat', 1)]
PRIMES = [2, 2, 3, 3, 3, 5, 5, 7, 11, 13, 31] * 3 + [101, 257, 32003, 65521,
                                                     1000003]


def on_boundary(rng, spec):
    """Choose the overlap so that a point lies exactly on the side of an
    enlarged box; everything is a binary fraction, hence exact."""
    pts = spec['points']
    m = rng.choice([2, 2, 4])
    lo = [min(c) for c in zip(*pts)]
    hi = [max(c) for c in zip(*pts)]
    side = max(h - l for l, h in zip(lo, hi)) / m
    if side <= 0:
        return
    opts = set()
    for q in pts:
        for x, l, h in zip(q, lo, hi):
            for k in range(1, max(1, math.ceil((h - l) / side))):
                o = 2 * abs(x - (l + side * k))
                if 0 < o <= 4 * side:
                    opts.add(o)
    if not opts:
        return
    o = rng.choice(sorted(opts))
    spec['max_div'], spec['overlap'] = m, o
    spec['max_r'] = min(spec['max_r'], o)


def pick(rng, table):
    tot = sum(w for _, w in table)
    x = rng.randrange(tot)
    for k, w in table:
        x -= w
        if x < 0:
            return k
    raise AssertionError


def cost(spec):
    """Estimated work: per region (and intersection) quadratic in simplices."""
    pts = spec['points']
    if not pts:
        return 0
    div, boxes = rm.cover_boxes(pts, spec['max_div'], spec['overlap'])
    dim = len(pts[0])
    nerve = rm.king_nerve(div, 2 ** dim)
    inside = []
    for b in boxes:
        inside.append(frozenset(
            i for i, q in enumerate(pts)
            if all(l <= x <= h for x, (l, h) in zip(q, b))))
    dist = [[rm.distance(a, b) for b in pts] for a in pts]
    memo = {}
    tot = 0
    for lv in nerve:
        for s in lv:
            tot += 0.3
            reg = frozenset.intersection(*(inside[v] for v in s))
            if not reg:
                continue
            if reg not in memo:
                ids = sorted(reg)
                sub = [[dist[a][b] for b in ids] for a in ids]
                # cheap bound before enumerating cliques
                e = sum(1 for a in range(len(ids)) for b in range(a)
                        if sub[a][b] < spec['max_r'])
                if e > 120 and spec['max_dim'] > 1:
                    return 1e9
                ns = [len(l) for l in rm.rips(
                    sub, spec['max_r'], spec['max_dim'])]
                memo[reg] = 2 + sum(k * k for k in ns) / 100.0
            tot += memo[reg]
    return tot


def make_spec(rng, max_cost=150, kinds=None, dims=None, primes=None):
    """Draw one session spec with bounded work."""
    while True:
        kind = pick(rng, WEIGHTS) if kinds is None else rng.choice(kinds)
        fn, ds, (lo, hi) = KINDS[kind]
        dim = rng.choice(ds)
        if dims is not None and dim not in dims:
            continue
        n = rng.randint(lo, hi)
        pts = transform(rng, [[snap(x) for x in q] for q in fn(rng, dim, n)])
        whole = kind in ('lattice', 'edge', 'clusters', 'line') and \
            rng.random() < .15
        if whole:
            pts = [[float(round(x * 8)) for x in q] for q in pts]
        real = not whole and rng.random() < .12
        near = not whole and not real and rng.random() < .1
        if real:
            pts = real_numbers(rng, pts)
        if near:
            pts = nearly_equal(rng, pts)
        # r chosen on the scale of the nearest-neighbour graph
        ds_ = sorted(rm.distance(a, b) for i, a in enumerate(pts)
                     for b in pts[:i])
        ds_ = [d for d in ds_ if d > 0] or [rng.choice([.5, 1.0, 3.0])]
        k = min(len(ds_) - 1, int(rng.choice(
            [0.5, 1, 1.5, 2, 3, 4]) * len(pts)))
        max_r = ds_[k] * rng.choice([1.0, 1.0001, 1.02])
        if kind in ('cross', 'sphere') and rng.random() < .6:
            max_r = ds_[int(0.8 * (len(ds_) - 1))] * 1.001
        if near and rng.random() < .4:
            max_r = ds_[k] * 1.000005
        if real:
            max_r *= 1.00037
        if (real or near) and not separated(pts, max_r):
            continue
        spec = {
            'kind': kind, 'points': pts, 'max_r': max_r,
            'max_dim': rng.choice([1, 2, 2, 3, 3, 3, 4]),
            'max_div': rng.choice([1, 2, 2, 2, 3, 3, 4, 5]),
            'overlap': max_r * rng.choice(
                [1.0, 1.0, 1.01, 1.01, 1.3, 1.3, 2.0, 3.0]),
            'p': rng.choice(primes or PRIMES),
        }
        if dim == 3 and spec['max_div'] > 2 and rng.random() < .8:
            spec['max_div'] = 2
        if whole and rng.random() < .8:
            spec['dtype'] = rng.choice(['int64', 'int64', 'int32'])
            if rng.random() < .5:
                spec['max_r'] = rng.choice([.5, 1.01, 1.1, 1.5])
                spec['overlap'] = spec['max_r'] * rng.choice([1.0, 1.01])
        elif not real and not near and rng.random() < .03 and all(
                abs(x) < 30000 for q in pts for x in q):
            spec['dtype'] = 'float32'
        if not real and spec.get('dtype') != 'float32' and exact(pts) and \
                rng.random() < .15:
            on_boundary(rng, spec)
        if cost(spec) <= max_cost:
            return spec
