"""Small executable reference models, written independently of the library.

Nothing here imports permaviss.  Everything is pure Python over plain ints and
floats, so that a simulated schedule, fault or patched seam cannot reach it.
"""
import itertools
import math


# --------------------------------------------------------------------------
# sparse columns over Z/p : dict row -> coefficient in 1..p-1

def inv(a, p):
    return pow(int(a) % p, p - 2, p) if p > 2 else 1


def axpy(y, a, x, p):
    """y += a*x (mod p), in place."""
    for k, v in x.items():
        s = (y.get(k, 0) + a * v) % p
        if s:
            y[k] = s
        else:
            y.pop(k, None)


def reduce_columns(cols, p):
    """Left-to-right reduction.  cols: list of dicts keyed by orderable row
    keys.  Returns (reduced columns, list of pivot row or None)."""
    low = {}
    piv = []
    out = []
    for j, c in enumerate(cols):
        c = dict(c)
        while c:
            r = max(c)
            i = low.get(r)
            if i is None:
                break
            axpy(c, -c[r] * inv(out[i][r], p) % p, out[i], p)
        if c:
            r = max(c)
            low[r] = j
            piv.append(r)
        else:
            piv.append(None)
        out.append(c)
    return out, piv


def rank(cols, p):
    return sum(1 for r in reduce_columns(cols, p)[1] if r is not None)


# --------------------------------------------------------------------------
# Vietoris-Rips

def distance(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s += (x - y) * (x - y)
    return math.sqrt(s)


def merge_close(dist, eps=1e-9):
    """Distances that differ by rounding errors only count as equal."""
    vals = sorted(set(x for row in dist for x in row))
    m = {}
    prev = cur = None
    for x in vals:
        if prev is None or x - prev > eps:
            cur = x
        m[x] = cur
        prev = x
    return [[m[x] for x in row] for row in dist]


def rips(dist, max_r, max_dim):
    """All cliques of the graph {dist < max_r}: list per dimension of
    (vertex tuple, diameter)."""
    n = len(dist)
    max_dim = max(1, max_dim)
    nb = [set(j for j in range(n) if j != i and dist[i][j] < max_r)
          for i in range(n)]
    levels = [[((i,), 0.0) for i in range(n)]]
    for d in range(max_dim):
        nxt = []
        for verts, diam in levels[-1]:
            cand = set.intersection(*(nb[v] for v in verts))
            for w in sorted(cand):
                if w > verts[-1]:
                    nxt.append((verts + (w,),
                                max([diam] + [dist[v][w] for v in verts])))
        levels.append(nxt)
    return levels


def faces(verts):
    for i in range(len(verts)):
        yield (-1) ** i, verts[:i] + verts[i + 1:]


def barcodes(levels, max_r, p):
    """Persistent homology of a filtered complex, one sorted list of
    (birth, death) per degree < top dimension."""
    top = len(levels) - 1
    order = []
    for d, lv in enumerate(levels):
        for verts, r in lv:
            order.append((r, d, verts))
    order.sort()
    key = {v: i for i, (r, d, v) in enumerate(order)}
    cols = []
    for r, d, verts in order:
        c = {}
        if d > 0:
            for s, f in faces(verts):
                axpy(c, s % p, {key[f]: 1}, p)
        cols.append(c)
    red, piv = reduce_columns(cols, p)
    out = [[] for _ in range(top + 1)]
    killed = set()
    for j, r in enumerate(piv):
        if r is not None:
            killed.add(r)
            b, d = order[r][0], order[j][0]
            if b < d:
                out[order[r][1]].append((b, d))
    for j, r in enumerate(piv):
        if r is None and j not in killed and order[j][0] < max_r:
            out[order[j][1]].append((order[j][0], max_r))
    return [sorted(o) for o in out]


def cloud_barcodes(points, max_r, max_dim, p):
    dist = [[distance(a, b) for b in points] for a in points]
    return barcodes(rips(dist, max_r, max_dim), max_r, p)


# --------------------------------------------------------------------------
# cubical cover

def cover_boxes(points, max_div, overlap):
    """Boxes of the documented cubical cover in lexicographic order."""
    dim = len(points[0])
    lo = [min(q[d] for q in points) for d in range(dim)]
    hi = [max(q[d] for q in points) for d in range(dim)]
    side = max(h - l for l, h in zip(lo, hi)) / max_div
    if side <= 0:
        div = [1] * dim
    else:
        div = [max(1, math.ceil((h - l) / side)) for l, h in zip(lo, hi)]
    boxes = []
    for pos in itertools.product(*[range(k) for k in div]):
        boxes.append([(lo[d] + side * pos[d] - overlap / 2.,
                       lo[d] + side * (pos[d] + 1) + overlap / 2.)
                      for d in range(dim)])
    return div, boxes


def exact_cover(points, max_div, overlap):
    """Whether all numbers of the cover are short binary fractions, so that
    computing them in floating point, in any order, makes no error."""
    lo = [min(c) for c in zip(*points)]
    hi = [max(c) for c in zip(*points)]
    size = max(h - l for l, h in zip(lo, hi))
    side = size / max_div
    u = float(2 ** 20)
    return side * max_div == size and all(
        abs(x) < 2 ** 20 and x * u == math.floor(x * u)
        for x in [side, overlap] + [x for q in points for x in q])


def king_nerve(div, max_dim):
    """Flag complex of the king graph of a grid of hypercubes: list per
    dimension of sorted tuples."""
    cells = list(itertools.product(*[range(k) for k in div]))
    n = len(cells)
    adj = [set(j for j in range(n) if j != i and
               all(abs(a - b) <= 1 for a, b in zip(cells[i], cells[j])))
           for i in range(n)]
    levels = [[(i,) for i in range(n)]]
    for d in range(max_dim):
        nxt = []
        for s in levels[-1]:
            for w in sorted(set.intersection(*(adj[v] for v in s))):
                if w > s[-1]:
                    nxt.append(s + (w,))
        levels.append(nxt)
    return levels


# --------------------------------------------------------------------------
# Mayer-Vietoris pages at one radius, from the filtered total complex

def mv_page_dims(nerve, regions, dist, radius, max_r, max_dim, p):
    """nerve: list per dimension of sorted vertex tuples; regions: dict nerve
    simplex -> set of point ids.  Returns f(page, n, deg) = dimension of
    E^page_{n,deg} at the given filtration radius (page >= 1, deg < max_dim).
    """
    cells = []          # (total, n, deg, sigma, tau)
    for n, sims in enumerate(nerve):
        for sigma in sims:
            pts = sorted(regions[sigma])
            sub = [[dist[a][b] for b in pts] for a in pts]
            for deg, lv in enumerate(rips(sub, max_r, max_dim)):
                for verts, diam in lv:
                    if diam <= radius and deg <= max_dim:
                        cells.append((n + deg, n, deg, sigma,
                                      tuple(pts[v] for v in verts)))
    bytot = {}
    for c in cells:
        bytot.setdefault(c[0], []).append(c)
    # rows of total degree N sorted by filtration n
    alive = {}
    paired = {}
    for N, cs in bytot.items():
        cs.sort(key=lambda c: (c[1], c[3], c[4]))
        cols = []
        for (_, n, deg, sigma, tau) in cs:
            c = {}
            if n > 0:
                sg = (-1) ** deg
                for s, f in faces(sigma):
                    axpy(c, (s * sg) % p, {(n - 1, f, tau): 1}, p)
            if deg > 0:
                for s, f in faces(tau):
                    axpy(c, s % p, {(n, sigma, f): 1}, p)
            cols.append(c)
        _, piv = reduce_columns(cols, p)
        for (_, n, deg, sigma, tau), r in zip(cs, piv):
            if r is None:
                continue
            k = n - r[0]
            rdeg = len(r[2]) - 1
            if rdeg >= max_dim:
                continue
            paired[(n, sigma, tau)] = k
            paired[r] = k
    count = {}
    for (_, n, deg, sigma, tau) in cells:
        k = paired.get((n, sigma, tau), 10 ** 6)
        count.setdefault((n, deg), []).append(k)

    def f(page, n, deg):
        return sum(1 for k in count.get((n, deg), ()) if k >= page)
    return f
