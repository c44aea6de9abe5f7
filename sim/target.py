"""The code under test behind its public API, plus the oracles.

`load()` imports the library from /repo's working tree, after the simulator's
seams are in place.
"""
import ast
import hashlib
import itertools
import os
import re
import sys

from . import core, pools
from . import refmodel as rm
from .core import Sim, SimHang, SimStepLimit

SRC = os.environ.get('PERMAVISS_SRC', '/repo/src')
T = {}


def load():
    if T:
        return T
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    import numpy as np
    import scipy.spatial.distance as dist
    core.install_process_seams()
    pools.install_pool_seams()
    sys.path.insert(0, SRC)
    from permaviss.spectral_sequence.MV_spectral_seq import create_MV_ss
    from permaviss.simplicial_complexes.vietoris_rips import vietoris_rips
    from permaviss.simplicial_complexes.differentials import (
        complex_differentials)
    from permaviss.simplicial_complexes.flag_complex import flag_complex
    from permaviss.persistence_algebra.PH_classic import persistent_homology
    from permaviss.persistence_algebra.barcode_bases import barcode_basis
    from permaviss.persistence_algebra.image_kernel import image_kernel
    from permaviss.persistence_algebra.module_persistence_homology import (
        quotient)
    from permaviss.covers.cubical_cover import generate_cover
    from permaviss.gauss_mod_p.gauss_mod_p import gauss_col
    from permaviss.gauss_mod_p.functions import solve_mod_p, multiply_mod_p
    from permaviss.gauss_mod_p.arithmetic_mod_p import inv_mod_p
    from permaviss.sample_point_clouds import examples
    import permaviss
    got = os.path.realpath(permaviss.__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('wrong library: ' + got)
    T.update(np=np, dist=dist, create_MV_ss=create_MV_ss,
             vietoris_rips=vietoris_rips,
             complex_differentials=complex_differentials,
             flag_complex=flag_complex, gauss_col=gauss_col,
             solve_mod_p=solve_mod_p, multiply_mod_p=multiply_mod_p,
             inv_mod_p=inv_mod_p,
             persistent_homology=persistent_homology,
             generate_cover=generate_cover, examples=examples,
             barcode_basis=barcode_basis, image_kernel=image_kernel,
             quotient=quotient)
    # locks created while the library was imported
    for name, mod in list(sys.modules.items()):
        if name.startswith('permaviss'):
            for k, v in list(vars(mod).items()):
                t = type(v).__name__
                if type(v).__module__ == '_thread' and t in ('lock', 'RLock'):
                    setattr(mod, k, core.SimLock(t == 'RLock'))
    return T


_raises = {}


def raised_at(file, line):
    """Names of the exceptions raised explicitly in the function that holds
    a line ('permaviss/...' path)."""
    if file not in _raises:
        tab = _raises[file] = []
        try:
            with open(os.path.join(SRC, file)) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names = set()
                for x in ast.walk(fn):
                    if isinstance(x, ast.Raise) and x.exc is not None:
                        e = x.exc.func if isinstance(x.exc, ast.Call) \
                            else x.exc
                        if isinstance(e, ast.Name) and \
                                e.id in core.EXCEPTIONS:
                            names.add(e.id)
                tab.append((fn.lineno, fn.end_lineno, sorted(names)))
    best = []
    for a, b, names in _raises[file]:
        if a <= line <= b:
            best = names
    return best


# ---------------------------------------------------------------------------
# digests

DOCUMENTED = [
    'no_rows', 'no_columns', 'no_pages', 'max_r', 'p', 'nerve', 'points_IN',
    'nerve_point_cloud', 'nerve_differentials', 'subcomplexes', 'zero_diff',
    'cycle_dimensions', 'Hom', 'Im', 'PreIm', 'first_page_barcodes',
    'page_dim_matrix', 'Hom_reps', 'extensions', 'order_diagonal_basis',
    'persistent_homology']


def _feed(h, x, depth=0):
    np = T['np']
    if depth > 30:
        h.update(b'deep')
        return
    if x is None:
        h.update(b'N')
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(b'O%d' % x.size)
            for y in x.ravel():
                _feed(h, y, depth + 1)
        else:
            a = np.ascontiguousarray(x, dtype=float) + 0.0
            h.update(b'A' + repr(a.shape).encode())
            h.update(a.tobytes())
    elif isinstance(x, (bool, int, float, np.generic)):
        h.update(b'F' + repr(float(x) + 0.0).encode())
    elif isinstance(x, str):
        h.update(b'S' + x.encode())
    elif isinstance(x, (list, tuple, range)):
        h.update(b'L%d' % len(x))
        for y in x:
            _feed(h, y, depth + 1)
    elif isinstance(x, dict):
        h.update(b'D%d' % len(x))
        for k in sorted(x, key=repr):
            _feed(h, repr(k), depth + 1)
            _feed(h, x[k], depth + 1)
    elif hasattr(x, 'barcode') and hasattr(x, 'dim'):
        h.update(b'B')
        _feed(h, int(x.dim), depth + 1)
        _feed(h, x.barcode, depth + 1)
        _feed(h, x.coordinates, depth + 1)
    elif hasattr(x, 'ref') and hasattr(x, 'coord'):
        h.update(b'C')
        _feed(h, [list(map(int, r)) for r in x.ref], depth + 1)
        _feed(h, x.coord, depth + 1)
    else:
        h.update(b'?' + type(x).__name__.encode())


def digest(x):
    h = hashlib.sha256()
    _feed(h, x)
    return h.hexdigest()


def ss_parts(S):
    return {k: digest(getattr(S, k)) for k in DOCUMENTED if hasattr(S, k)}


def bases(S):
    """Digest of the bases that the bases of a result refer to."""
    h = hashlib.sha256()

    def walk(x, depth):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y, depth)
        elif hasattr(x, 'barcode') and hasattr(x, 'dim'):
            q = getattr(x, 'prev_basis', None)
            h.update(b'%d' % (q is None))
            if q is not None and depth:
                _feed(h, q)
                walk(q, depth - 1)
    for k in ('Hom', 'Im', 'persistent_homology'):
        walk(getattr(S, k, ()), 1)
    return h.hexdigest()


# ---------------------------------------------------------------------------
# operations of the public API, described by plain data

def points_of(spec):
    np = T['np']
    a = np.array(spec['points'], dtype=spec.get('dtype', 'float'))
    if len(spec['points']) == 0:
        a = a.reshape(0, spec.get('dim', 2))
    return a


def op_mv(spec, pts=None):
    pts = points_of(spec) if pts is None else pts
    return T['create_MV_ss'](pts, spec['max_r'], spec['max_dim'],
                             spec['max_div'], spec['overlap'], spec['p'])


MODIFIED = []       # calls of the current operation that changed an argument


def watched(name, *args):
    """Call a function of the library and notice changed arguments."""
    before = [digest(a) for a in args]
    out = T[name](*args)
    if [digest(a) for a in args] != before:
        MODIFIED.append(name)
    return out


def op_ph(spec, pts=None):
    pts = points_of(spec) if pts is None else pts
    D = T['dist'].squareform(T['dist'].pdist(pts))
    C, R = watched('vietoris_rips', D, spec['max_r'], spec['max_dim'])
    diff = watched('complex_differentials', C, spec['p'])
    Hom, Im, PreIm = watched('persistent_homology', diff, R, spec['max_r'],
                             spec['p'])
    return C, R, diff, Hom, Im, PreIm


def op_cover(spec, pts=None):
    pts = points_of(spec) if pts is None else pts
    return T['generate_cover'](spec['max_div'], spec['overlap'], pts)


def op_sample(spec, pts=None):
    ex = T['examples']
    if spec['fn'] == 'take_sample':
        pts = points_of(spec) if pts is None else pts
        return ex.take_sample(pts, spec['n'], seed=spec['seed'])
    return ex.random_circle(spec['n'], spec['radius'], spec['eps'],
                            center=list(spec['center']), seed=spec['seed'])


def op_noise(spec, pts=None):
    """unseeded sampling: only disturbs the global random state"""
    ex = T['examples']
    return {'random_cube': lambda: ex.random_cube(spec['n'], 2),
            'random_sphere': lambda: ex.random_sphere(spec['n'], 1., 3),
            'torus3D': lambda: ex.torus3D(spec['n']),
            'random_circle': lambda: ex.random_circle(spec['n'], 1., .1),
            'global_seed': lambda: T['np'].random.seed(spec['n']),
            }[spec['fn']]()


def op_gauss(spec, pts=None):
    return watched('gauss_col', T['np'].array(spec['matrix'], dtype=float),
                   spec['p'])


def op_flag(spec, pts=None):
    return watched('flag_complex', T['np'].array(spec['edges']), spec['n'],
                   spec['max_dim'])


def op_solve(spec, pts=None):
    np, p = T['np'], spec['p']
    A = np.array(spec['matrix'], dtype=float)
    b = np.array([sum(a * x for a, x in zip(row, spec['x'])) % p
                  for row in spec['matrix']], dtype=float)
    return (watched('solve_mod_p', A, b, p),
            watched('multiply_mod_p', A, A.T, p),
            [T['inv_mod_p'](a, p) % p for a in range(1, min(p, 8))])


def op_morphism(spec, pts=None):
    np, p = T['np'], spec['p']
    A = T['barcode_basis'](np.array(spec['A'], dtype=float))
    B = T['barcode_basis'](np.array(spec['B'], dtype=float))
    F = np.array(spec['matrix'], dtype=float)
    Im, Ker, Pre = watched('image_kernel', A, B, F, p)
    full = T['barcode_basis'](np.array(spec['B'], dtype=float), B,
                              np.identity(B.dim))
    full.sort()
    Q = watched('quotient', full, Im, p)
    return Im, Ker, Pre, Q


OPS = {'mv': op_mv, 'ph': op_ph, 'cover': op_cover, 'sample': op_sample,
       'noise': op_noise, 'gauss': op_gauss, 'flag': op_flag,
       'solve': op_solve, 'morphism': op_morphism}


def run_op(op, pts=None):
    return OPS[op['op']](op, pts)


def outcome_digest(op, res):
    if op['op'] == 'mv':
        return digest([ss_parts(res)])
    return digest(res)


# ---------------------------------------------------------------------------
# oracles: each returns None or a one-line description of the violation

def bars_of(basis):
    np = T['np']
    return [(float(a), float(b)) for a, b in
            np.array(basis.barcode, dtype=float).reshape(-1, 2)]


class Snap:
    """Maps float radii to the exact radii of the reference model."""

    def __init__(self, values):
        self.v = sorted(set(values))

    def __call__(self, x):
        import bisect
        i = bisect.bisect(self.v, x)
        for j in (i - 1, i):
            if 0 <= j < len(self.v) and abs(self.v[j] - x) < 1e-8:
                return self.v[j]
        return x

    def bars(self, bars):
        out = ((self(a), self(b)) for a, b in bars)
        return sorted(x for x in out if x[0] != x[1])


class Ref:
    """Everything the reference model says about one spec (lazily)."""

    def __init__(self, spec):
        self.spec = spec
        pts = spec['points']
        self.dist = rm.merge_close(
            [[rm.distance(a, b) for b in pts] for a in pts])
        vals = [0.0, spec['max_r']]
        for i, row in enumerate(self.dist):
            vals += row[:i]
        self.snap = Snap(vals)
        self._b = None

    @property
    def bars(self):
        if self._b is None:
            s = self.spec
            self._b = rm.barcodes(rm.rips(
                self.dist, s['max_r'], s['max_dim']), s['max_r'], s['p'])
        return self._b


def o_barcodes(S, spec, ref):
    PH = S.persistent_homology
    for d in range(spec['max_dim']):
        if d >= len(PH):
            if ref.bars[d]:
                return 'degree %d missing from the result' % d
            continue
        got = ref.snap.bars(bars_of(PH[d]))
        if got != ref.bars[d]:
            return 'degree %d barcode %s, direct computation %s' % (
                d, got[:6], ref.bars[d][:6])
        if PH[d].dim != len(PH[d].barcode):
            return 'degree %d dim %s but %d bars' % (
                d, PH[d].dim, len(PH[d].barcode))
    return None


def o_direct(res, spec, ref):
    """op_ph result against the reference"""
    Hom = res[3]
    for d in range(spec['max_dim']):
        got = ref.snap.bars(bars_of(Hom[d])) if d < len(Hom) else []
        if got != ref.bars[d]:
            return 'direct degree %d barcode %s, reference %s' % (
                d, got[:6], ref.bars[d][:6])
    return None


def int_column(col, p):
    out = {}
    for i, v in enumerate(col):
        v = float(v)
        if v != int(v):
            raise ValueError('non integer coefficient %r' % v)
        if int(v) % p:
            out[i] = int(v) % p
    return out


def o_direct_full(res, spec, ref, radii=4):
    """Everything the direct computation returns: complex, radii, boundary
    matrices, classes with representatives, boundaries, preimages."""
    C, R, diff, Hom, Im, PreIm = res
    p, max_dim, max_r = spec['p'], spec['max_dim'], spec['max_r']
    n = len(spec['points'])
    levels = rm.rips(ref.dist, max_r, max_dim)
    if int(C[0]) != n or int(diff[0]) != n:
        return 'complex has %s vertices, expected %d' % (C[0], n)
    # simplices, each once, with the diameter, in order of the diameter
    rows = [[(i,) for i in range(n)]]
    diam = [[0.0] * n]
    for d in range(1, max_dim + 1):
        sim = [tuple(int(v) for v in row) for row in C[d]]
        want = {t: x for t, x in levels[d]}
        if sorted(tuple(sorted(t)) for t in sim) != sorted(want):
            return '%d-simplices are not the cliques' % d
        if len(R[d]) != len(sim):
            return '%d radii for %d %d-simplices' % (len(R[d]), len(sim), d)
        dm = [ref.snap(float(x)) for x in R[d]]
        for t, x in zip(sim, dm):
            if x != want[tuple(sorted(t))]:
                return 'radius of %s is %r, expected %r' % (
                    t, x, want[tuple(sorted(t))])
        if any(a > b for a, b in zip(dm, dm[1:])):
            return '%d-simplices are not in order of their radius' % d
        rows.append(sim)
        diam.append(dm)
    if any(float(x) for x in R[0]) or len(R[0]) != n:
        return 'radii of the vertices'
    # boundary matrices
    cols = [None]
    for d in range(1, max_dim + 1):
        pos = {tuple(sorted(t)): i for i, t in enumerate(rows[d - 1])}
        cs = []
        for j, t in enumerate(rows[d]):
            c = int_column([diff[d][i][j] for i in range(len(pos))], p)
            if set(c) != set(pos[f] for _, f in rm.faces(tuple(sorted(t)))) \
                    or any(v not in (1, p - 1) for v in c.values()):
                return 'boundary of %s' % (t,)
            if d == 1:
                if sum(c.values()) % p:
                    return 'boundary of edge %s' % (t,)
            else:
                dd = {}
                for i, v in c.items():
                    rm.axpy(dd, v, cols[d - 1][i], p)
                if dd:
                    return 'boundary of the boundary of %s' % (t,)
            cs.append(c)
        cols.append(cs)

    def boundary(d, chain):
        out = {}
        for i, v in chain.items():
            rm.axpy(out, v, cols[d][i], p)
        return out

    def columns(basis, what, rows_n):
        b = bars_of(basis)
        if basis.dim != len(b):
            return what + ': %s classes, %d bars' % (basis.dim, len(b)), None
        if not b:
            return None, []
        co = T['np'].array(basis.coordinates, dtype=float)
        if co.shape != (rows_n, len(b)):
            return what + ': coordinates of shape %s' % (co.shape,), None
        return None, [(ref.snap(x), ref.snap(y), int_column(co[:, k], p))
                      for k, (x, y) in enumerate(b)]

    def ordered(basis):
        # radii as reported: the library rounds them before it compares, so
        # nearly equal births may fall on either side of a rounding boundary
        eps = 2e-6
        b = bars_of(basis)
        return all(x[0] < y[0] + eps and
                   (x[0] != y[0] or x[1] > y[1] - eps)
                   for x, y in zip(b, b[1:]))
    r = core.rnd(13, n, max_r)
    rads = change_radii(spec, ref, radii, r)
    for d in range(max_dim):
        got = ref.snap.bars(bars_of(Hom[d])) if d < len(Hom) else []
        if got != ref.bars[d]:
            return 'degree %d barcode %s, reference %s' % (
                d, got[:6], ref.bars[d][:6])
        m, hom = columns(Hom[d], 'degree %d' % d, len(rows[d]))
        if m:
            return m
        if not ordered(Hom[d]):
            return 'degree %d classes are not in the standard order' % d
        bd_at = {}

        def bounds(rad):
            if rad not in bd_at:
                bd_at[rad] = [cols[d + 1][j] for j, x in
                              enumerate(diam[d + 1]) if x <= rad]
            return bd_at[rad]
        for k, (b, e, z) in enumerate(hom):
            if any(diam[d][i] > b for i in z):
                return 'degree %d class %d uses a simplex born after it' % (
                    d, k)
            if not z or d and boundary(d, z):
                return 'degree %d class %d is not a cycle' % (d, k)
        fin = [(b, e, z) for b, e, z in hom if e < max_r]
        for b, e, z in (fin if len(fin) < 4 else r.sample(fin, 3)):
            _, piv = rm.reduce_columns(bounds(e) + [z], p)
            if piv[-1] is not None:
                return 'degree %d class (%r, %r) is no boundary when it ' \
                    'dies' % (d, b, e)
        m, im = columns(Im[d], 'boundaries of degree %d' % d, len(rows[d]))
        if m:
            return m
        if not ordered(Im[d]):
            return 'degree %d boundaries are not in the standard order' % d
        pre = []
        if im:
            P = T['np'].array(PreIm[d + 1], dtype=float)
            if P.shape != (len(rows[d + 1]), len(im)):
                return 'degree %d preimages of shape %s' % (d + 1, P.shape)
            pre = [int_column(P[:, k], p) for k in range(len(im))]
        for k, (b, e, z) in enumerate(im):
            if e != ref.snap(max_r) or any(diam[d][i] > b for i in z):
                return 'degree %d boundary %d has a wrong bar' % (d, k)
            if any(diam[d + 1][i] > b for i in pre[k]):
                return 'degree %d preimage %d is born too late' % (d + 1, k)
            if boundary(d + 1, pre[k]) != z:
                return 'degree %d boundary %d is not the boundary of its ' \
                    'preimage' % (d, k)
        for rad in rads:
            bd = bounds(rad)
            red, piv = rm.reduce_columns(
                bd + [z for b, e, z in hom if b <= rad < e], p)
            if any(q is None for q in piv[len(bd):]):
                return 'degree %d radius %r: classes that are alive are ' \
                    'dependent' % (d, rad)
            rk = sum(1 for q in piv[:len(bd)] if q is not None)
            act = [z for b, e, z in im if b <= rad]
            if len(act) != rk or rm.rank(act, p) != rk:
                return 'degree %d radius %r: %d boundaries of rank %d, ' \
                    'expected %d' % (d, rad, len(act), rm.rank(act, p), rk)
    return None


# -- cover and regions ------------------------------------------------------

def nerve_levels(nerve):
    out = [[(i,) for i in range(int(nerve[0]))]]
    for lv in nerve[1:]:
        out.append([tuple(int(v) for v in s) for s in lv])
    return out


def o_cover(cover, spec):
    npc, IN, nerve = cover
    pts = spec['points']
    dim = len(pts[0])
    div, boxes = rm.cover_boxes(pts, spec['max_div'], spec['overlap'])
    lev = nerve_levels(nerve)
    ref = rm.king_nerve(div, len(lev) - 1)
    for n, sims in enumerate(lev):
        if sorted(sims) != sorted(ref[n]):
            return 'nerve level %d differs from the grid neighbourhoods' % n
        if len(IN[n]) != len(sims) or len(npc[n]) != len(sims):
            return 'level %d has %d regions, %d point sets' % (
                n, len(sims), len(IN[n]))
    if len(lev) <= max(2 ** dim - 1, 1):
        more = rm.king_nerve(div, 2 ** dim)
        if any(more[k] for k in range(len(lev), len(more))):
            return 'nerve is truncated'
    eps = 1e-12 * (1 + max(abs(x) for q in pts for x in q))
    if rm.exact_cover(pts, spec['max_div'], spec['overlap']):
        # regions are closed boxes, and no rounding blurs their sides
        eps = 0
    for i, box in enumerate(boxes):
        got = [int(x) for x in IN[0][i]]
        if len(set(got)) != len(got):
            return 'region %d lists a point twice' % i
        for j, q in enumerate(pts):
            inner = all(l + eps < x < h - eps or (not eps and l <= x <= h)
                        for x, (l, h) in zip(q, box))
            outer = all(l - eps <= x <= h + eps for x, (l, h) in zip(q, box))
            if inner and j not in got:
                return 'point %d missing from region %d' % (j, i)
            if j in got and not outer:
                return 'point %d does not belong to region %d' % (j, i)
    sets = [set(int(x) for x in r) for r in IN[0]]
    for n, sims in enumerate(lev):
        for k, s in enumerate(sims):
            want = set.intersection(*(sets[v] for v in s))
            got = [int(x) for x in IN[n][k]]
            if set(got) != want or len(got) != len(want):
                return 'points of intersection %s are %s, expected %s' % (
                    s, got, sorted(want))
            co = [tuple(map(float, q)) for q in npc[n][k]]
            if co != [tuple(pts[j]) for j in got]:
                return 'coordinates of region %s do not match its points' % (
                    s,)
    return None


def global_simplices(S, n, k, deg):
    """[(sign, sorted global tuple)] of the deg-simplices of region (n,k), in
    the order of coordinates."""
    IN = [int(x) for x in S.points_IN[n][k]]
    sub = S.subcomplexes[n][k]
    if deg == 0:
        return [(1, (g,)) for g in IN[:int(sub[0])]]
    if deg >= len(sub):
        return []
    out = []
    for row in sub[deg]:
        g = [IN[int(v)] for v in row]
        sg = 1
        for a in range(len(g)):
            for b in range(a):
                if g[b] > g[a]:
                    sg = -sg
        out.append((sg, tuple(sorted(g))))
    return out


def o_regions(S, spec, ref):
    r = o_cover((S.nerve_point_cloud, S.points_IN, S.nerve), spec)
    if r:
        return r
    lev = nerve_levels(S.nerve)
    max_r, max_dim, p = spec['max_r'], spec['max_dim'], spec['p']
    weight = {}
    memo = {}
    for n, sims in enumerate(lev[:len(lev) - 1]):
        cum = [0] * max_dim
        for k, s in enumerate(sims):
            ids = tuple(sorted(int(x) for x in S.points_IN[n][k]))
            if ids not in memo:
                sub = [[ref.dist[a][b] for b in ids] for a in ids]
                lv = rm.rips(sub, max_r, max_dim)
                memo[ids] = ([sorted(tuple(ids[v] for v in t) for t, _ in l)
                              for l in lv], rm.barcodes(lv, max_r, p))
            cx, bars = memo[ids]
            for deg in range(max_dim + 1):
                g = [t for _, t in global_simplices(S, n, k, deg)]
                if sorted(g) != cx[deg]:
                    return '%d-simplices of region %s are wrong' % (deg, s)
                for t in g:
                    weight[t] = weight.get(t, 0) + (-1) ** n
            for deg in range(max_dim):
                got = ref.snap.bars(bars_of(S.Hom[0][n][k][deg]))
                if got != bars[deg]:
                    return 'local degree %d barcode of region %s is %s, ' \
                        'expected %s' % (deg, s, got[:5], bars[deg][:5])
                cum[deg] += len(bars_of(S.Hom[0][n][k][deg]))
                if int(S.cycle_dimensions[n][deg][k]) != cum[deg]:
                    return 'class numbering of region %s deg %d' % (s, deg)
        for deg in range(max_dim):
            if int(S.page_dim_matrix[1][deg][n]) != cum[deg]:
                return 'page 1 position (%d,%d) has %d classes, regions %d' \
                    % (n, deg, int(S.page_dim_matrix[1][deg][n]), cum[deg])
    # gluing: each global simplex is counted exactly once
    full = rm.rips(ref.dist, max_r, max_dim)
    want = set(t for l in full for t, _ in l)
    if len(lev) > 1:
        for t in want:
            if weight.get(t, 0) != 1:
                return 'simplex %s is glued with multiplicity %d' % (
                    t, weight.get(t, 0))
    return None


# -- pages ------------------------------------------------------------------

def regions_of(S):
    lev = nerve_levels(S.nerve)
    reg = {}
    for n, sims in enumerate(lev):
        for k, s in enumerate(sims):
            reg[s] = set(int(x) for x in S.points_IN[n][k])
    return lev, reg


def change_radii(spec, ref, limit, r):
    lv = rm.rips(ref.dist, spec['max_r'], 1)
    rad = sorted(set([0.0] + [x for _, x in lv[1]]))
    if len(rad) > limit:
        keep = set(r.sample(rad[1:-1], limit - 2)) | {rad[0], rad[-1]}
        rad = sorted(keep)
    return rad


def o_pages(S, spec, ref, limit=5):
    lev, reg = regions_of(S)
    max_dim, p = spec['max_dim'], spec['p']
    ncol = len(lev) - 1
    for k in range(1, S.no_pages + 1):
        for n in range(ncol):
            for deg in range(max_dim):
                if k == 1:
                    d = sum(h[deg].dim for h in S.Hom[0][n])
                else:
                    d = S.Hom[k - 1][n][deg].dim
                if int(S.page_dim_matrix[k][deg][n]) != d:
                    return 'page %d position (%d,%d): dimension table says ' \
                        '%d, %d classes stored' % (
                            k, n, deg, S.page_dim_matrix[k][deg][n], d)
    r = core.rnd(7, len(spec['points']), spec['max_r'])
    for rad in change_radii(spec, ref, limit, r):
        f = rm.mv_page_dims(lev[:max_dim + 3], reg, ref.dist, rad,
                            spec['max_r'], max_dim, p)
        for k in range(1, S.no_pages + 1):
            for n in range(ncol):
                for deg in range(max_dim):
                    if n + deg > max_dim:
                        continue
                    if k == 1:
                        bb = [b for h in S.Hom[0][n] for b in bars_of(h[deg])]
                    else:
                        bb = bars_of(S.Hom[k - 1][n][deg])
                    act = sum(1 for a, b in ref.snap.bars(bb)
                              if a <= rad < b)
                    want = f(k if k < S.no_pages else 10 ** 5, n, deg)
                    if act != want:
                        return 'page %d position (%d,%d) radius %r: rank ' \
                            '%d, expected %d' % (k, n, deg, rad, act, want)
    return None


# -- representatives --------------------------------------------------------

def boundary_signs(S, spec):
    """Global sign per degree of the stored vertical differentials and nerve
    differentials; raises ValueError with a message when they are not
    boundary operators."""
    p = spec['p']
    lev = nerve_levels(S.nerve)
    vs = {}
    for n in range(len(lev) - 1):
        for k in range(len(lev[n])):
            for deg in range(1, spec['max_dim'] + 1):
                dom = global_simplices(S, n, k, deg)
                cod = global_simplices(S, n, k, deg - 1)
                if not dom:
                    continue
                A = S.zero_diff[n][k][deg]
                pos = {t: (i, sg) for i, (sg, t) in enumerate(cod)}
                for j, (sg, t) in enumerate(dom):
                    want = {}
                    for s, f in rm.faces(t):
                        i, sf = pos[f]
                        want[i] = s * sf * sg % p
                    col = {i: int(A[i][j]) % p for i in range(len(cod))
                           if int(A[i][j]) % p}
                    e = None
                    if col == want:
                        e = 1
                    if col == {i: -v % p for i, v in want.items()}:
                        e = -1 if e is None else (vs.get(deg, 1))
                    if e is None:
                        raise ValueError('vertical differential of region '
                                         '(%d,%d) degree %d' % (n, k, deg))
                    if vs.setdefault(deg, e) != e:
                        raise ValueError('inconsistent orientation in region '
                                         '(%d,%d) degree %d' % (n, k, deg))
    ns = {}
    for n in range(1, len(lev)):
        pos = {s: i for i, s in enumerate(lev[n - 1])}
        A = S.nerve_differentials[n]
        for j, s in enumerate(lev[n]):
            want = {pos[f]: sg % p for sg, f in rm.faces(s)}
            col = {i: int(A[i][j]) % p for i in range(len(pos))
                   if int(A[i][j]) % p}
            e = None
            if col == want:
                e = 1
            if col == {i: -v % p for i, v in want.items()}:
                e = -1 if e is None else ns.get(n, 1)
            if e is None:
                raise ValueError('nerve differential level %d' % n)
            if ns.setdefault(n, e) != e:
                raise ValueError('nerve differential orientation')
    return vs, ns


def rep_columns(S, spec, chains, n, deg, cls):
    """Total complex chain {(n, sigma, tau): coeff} of class cls."""
    p = spec['p']
    lev = nerve_levels(S.nerve)
    out = {}
    for i, ch in enumerate(chains):
        nn, dd = n - i, deg + i
        for k in range(len(ch.ref)):
            refs = [int(x) for x in ch.ref[k]]
            if cls not in refs:
                continue
            row = ch.coord[k][refs.index(cls)]
            gs = global_simplices(S, nn, k, dd)
            if len(gs) != len(row):
                raise ValueError('chain of (%d,%d) has %d coordinates for %d '
                                 'simplices' % (nn, dd, len(row), len(gs)))
            for c, (sg, t) in zip(row, gs):
                v = float(c)
                if v != int(v):
                    raise ValueError('non integer coefficient %r' % v)
                v = int(v) * sg % p
                if v:
                    out[(nn, lev[nn][k], t)] = v
    return out


def total_d(cell, p, vs, ns):
    n, s, t = cell
    deg = len(t) - 1
    c = {}
    if n > 0:
        for sg, f in rm.faces(s):
            rm.axpy(c, sg * ns[n] * (-1) ** deg % p, {(n - 1, f, t): 1}, p)
    if deg > 0:
        for sg, f in rm.faces(t):
            rm.axpy(c, sg * vs.get(deg, 1) % p, {(n, s, f): 1}, p)
    return c


def o_reps(S, spec, ref, radii=3):
    p, max_dim = spec['p'], spec['max_dim']
    lev = nerve_levels(S.nerve)
    ncol = len(lev) - 1
    try:
        vs, ns = boundary_signs(S, spec)
    except ValueError as e:
        return str(e)
    diam = {}

    def dia(t):
        if t not in diam:
            diam[t] = max([0.0] + [ref.dist[a][b] for a, b in
                                   itertools.combinations(t, 2)])
        return diam[t]
    last = {}
    for k in range(1, S.no_pages):
        for n in range(ncol):
            for deg in range(max_dim):
                if n + deg > max_dim - 1:
                    continue
                H = S.Hom[k][n][deg]
                if H.dim == 0:
                    continue
                reps = S.Hom_reps[k][n][deg]
                if not len(reps):
                    return 'page %d (%d,%d): no representatives' % (
                        k + 1, n, deg)
                if len(reps) != min(k, n) + 1:
                    return 'page %d (%d,%d): %d entries in representatives' \
                        % (k + 1, n, deg, len(reps))
                bars = ref.snap.bars  # noqa
                for c, (b, d) in enumerate(bars_of(H)):
                    b, d = ref.snap(b), ref.snap(d)
                    try:
                        z = rep_columns(S, spec, reps, n, deg, c)
                    except ValueError as e:
                        return 'page %d (%d,%d) class %d: %s' % (
                            k + 1, n, deg, c, e)
                    for (_, _, t) in z:
                        if dia(t) > b + 1e-9:
                            return 'page %d (%d,%d) class %d uses a simplex' \
                                ' born after it' % (k + 1, n, deg, c)
                    dz = {}
                    for cell, v in z.items():
                        rm.axpy(dz, v, total_d(cell, p, vs, ns), p)
                    # entries beyond the stored tail are not determined yet
                    low = n - len(reps)
                    dz = {x: v for x, v in dz.items() if x[0] > low}
                    if dz:
                        return 'page %d (%d,%d) class %d is not a cycle of ' \
                            'the total complex' % (k + 1, n, deg, c)
                    if not any(x[0] == n for x in z):
                        return 'page %d (%d,%d) class %d has no leading ' \
                            'entry' % (k + 1, n, deg, c)
                    if k == S.no_pages - 1:
                        last.setdefault(n + deg, []).append((b, d, z))
    # on the last page the classes alive at a radius are a basis of the
    # homology of the total complex at that radius
    r = core.rnd(11, len(spec['points']), spec['max_r'])
    for rad in change_radii(spec, ref, radii, r):
        cells = {}
        for n, sims in enumerate(lev[:max_dim + 2]):
            for k, s in enumerate(sims):
                if n >= ncol:
                    continue
                for deg in range(max_dim + 1):
                    if n + deg > max_dim:
                        continue
                    for _, t in global_simplices(S, n, k, deg):
                        if dia(t) <= rad:
                            cells.setdefault(n + deg, []).append((n, s, t))
        for N, classes in last.items():
            act = [z for b, d, z in classes if b <= rad < d]
            bd = [total_d(c, p, vs, ns) for c in cells.get(N + 1, ())]
            _, piv = rm.reduce_columns(bd + act, p)
            if any(q is None for q in piv[len(bd):]):
                return 'degree %d radius %r: representatives of classes ' \
                    'that are alive are dependent' % (N, rad)
    return None


# -- console ----------------------------------------------------------------

def o_console(S, text, elapsed):
    parts = re.split(r'PAGE:\s*(\d+)', text)
    pages = [int(x) for x in parts[1::2]]
    want = [1] + list(range(2, S.no_pages))
    if pages != want:
        return 'pages printed %s, computed %s' % (pages, want)
    m = re.findall(r'Total PerMaViss time:\s*(\S+)', text)
    if len(m) != 1:
        return 'total time printed %d times' % len(m)
    x = float(m[0])
    if not (-1e-9 <= x <= elapsed + 1e-6) or abs(x - elapsed) > 2e-3:
        return 'reported %r seconds, the call took %r' % (x, elapsed)
    for k, body in zip(pages, parts[2::2]):
        body = body.split('Total')[0]
        nums = [int(v) for v in re.findall(r'-?\d+', body)]
        ref = [int(v) for row in S.page_dim_matrix[k][::-1] for v in row]
        if nums != ref:
            return 'table printed for page %d differs from the computed ' \
                'page' % k
    return None
