"""C12: cut volumes, densities, areas and centres of mass of the integration cells against exact geometry."""
import itertools
import math
from fractions import Fraction
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, close
from tight_binding_redweasel import smearing as sm

LEVEL = "exploration"
ASSUMPTIONS = ["direction components below 1e-4 of the gradient may be replaced by that value (documented EPSILON): volumes then agree to 4e-4 and densities away from the kinks",
               "tetrahedra: the documented error of 1e-8 in degenerate cases is allowed", "a completely flat cell at exactly its own energy may count as any fraction"]
TIER = "quick"


# ------------------------------------------------------------------ exact cube geometry
def cube_exact(g, a0):
    """fraction of the cube [-1/2,1/2]^3 with g.x <= a0 and its derivative; components with g=0 drop out"""
    w = np.abs(np.asarray(g, float))
    w = w[w > 0]
    a0 = np.asarray(a0, float)
    n = len(w)
    if n == 0:
        return (a0 > 0) * 1.0 + (a0 == 0) * 0.5, np.where(a0 == 0, np.inf, 0.0)
    t = a0 + w.sum() / 2
    V = np.zeros(a0.shape)
    D = np.zeros(a0.shape)
    if n == 1:
        return np.clip(t / w[0], 0, 1), np.where((t > 0) & (t < w[0]), 1 / w[0], 0.0)
    # use the smaller side for accuracy
    neg = a0 > 0
    t = np.where(neg, w.sum() / 2 - a0, t)
    fac = np.prod(w) * (2 if n == 2 else 6)
    for sub in itertools.product((0, 1), repeat=n):
        x = np.maximum(0, t - np.dot(sub, w))
        sg = (-1) ** sum(sub)
        V += sg * x ** n
        D += sg * n * x ** (n - 1)
    V, D = V / fac, D / fac
    out = np.abs(a0) >= w.sum() / 2
    V = np.where(out, 0.0, V)
    D = np.where(out, 0.0, D)
    return np.where(neg, 1 - V, V), D


def cube_rational(w, a):
    """the same with exact rational arithmetic"""
    W = [Fraction(float(x)) for x in np.abs(w) if x != 0]
    n = len(W)
    if n == 0:
        return cube_exact(w, a)
    corners = [(sum((x for x, s in zip(W, sub) if s), Fraction(0)), (-1) ** sum(sub)) for sub in itertools.product((0, 1), repeat=n)]
    fac = Fraction(math.factorial(n))
    for x in W:
        fac *= x
    half = sum(W) / 2
    V, D = [], []
    for x in np.asarray(a, float).ravel():
        t = Fraction(float(x)) + half
        if t <= 0 or t >= 2 * half:
            V.append(float(t > 0)), D.append(0.0)
            continue
        V.append(float(sum(s * (t - c) ** n for c, s in corners if c < t) / fac))
        D.append(float(sum(s * n * (t - c) ** (n - 1) for c, s in corners if c < t) / fac))
    return np.array(V).reshape(np.shape(a)), np.array(D).reshape(np.shape(a))


def polygon(g, a0):
    """cut polygon of the plane g.x=a0 with the cube: area and centroid"""
    g = np.asarray(g, float)
    C = np.array(list(itertools.product((-0.5, 0.5), repeat=3)))
    pts = []
    for a, b in itertools.combinations(range(8), 2):
        if np.sum(np.abs(C[a] - C[b])) != 1:
            continue
        fa, fb = C[a] @ g - a0, C[b] @ g - a0
        if fa * fb < 0:
            pts.append(C[a] + (C[b] - C[a]) * fa / (fa - fb))
        if fa == 0:
            pts.append(C[a])
        if fb == 0:
            pts.append(C[b])
    return poly_area(np.array(pts), g)


def poly_area(P, n):
    if len(P) < 3:
        return 0.0, None
    P = np.unique(np.round(P, 12), axis=0)
    if len(P) < 3:
        return 0.0, None
    n = n / np.linalg.norm(n)
    e1 = np.linalg.svd(n[None])[2][1]
    e2 = np.cross(n, e1)
    c = P.mean(0)
    xy = np.stack([(P - c) @ e1, (P - c) @ e2], -1)
    o = np.argsort(np.arctan2(xy[:, 1], xy[:, 0]))
    xy = xy[o]
    x, y = xy[:, 0], xy[:, 1]
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    cr = x * y2 - x2 * y
    A = cr.sum() / 2
    if abs(A) < 1e-14:
        return 0.0, None
    cx, cy = ((x + x2) * cr).sum() / (6 * A), ((y + y2) * cr).sum() / (6 * A)
    return abs(A), c + cx * e1 + cy * e2


COMP = [0.0, 1e-9, 5e-5, 2e-4, 1e-3, 0.01, 0.1, 0.25, 0.3, 0.5, 0.7, 1.0, 1.0 + 1e-9, 1.0 + 1e-5, 1.5, 2.0, 3.0]


def grads(tier):
    comp = COMP if tier != "quick" else [0.0, 1e-9, 5e-5, 2e-4, 0.05, 0.5, 1.0, 1.0 + 1e-9, 2.0]
    for w in itertools.combinations_with_replacement(comp, 3):
        yield w


def levels(w):
    """all vertex energies, in between and outside"""
    w = np.asarray(w, float)
    v = sorted({float(np.dot(s, w)) / 2 for s in itertools.product((1, -1), repeat=3)})
    n = np.linalg.norm(w) or 1.0
    a = list(v)
    for x, y in zip(v, v[1:]):
        a += [x + (y - x) * f for f in (0.125, 0.25, 0.5, 0.75, 0.875)]
    for x in v:
        a += [x + 1e-12 * n, x - 1e-12 * n, x + 1e-3 * n, x - 1e-3 * n, x + 1e-5 * n]
    a += [v[-1] + d * n for d in (0.01, 1.0, 100.0)] + [v[0] - d * n for d in (0.01, 1.0, 100.0)] + [0.0, 0.37 * n, -0.41 * n]
    return np.array(sorted(set(a)))


def ccases(tier):
    for w in grads(tier):
        for scale in (1.0, 1e-7, 1e5):
            yield {"g": list(w), "scale": scale}


def ctol(w):
    """tolerance of volumes, relative to the clamped components"""
    n = np.linalg.norm(w)
    if n == 0:
        return 1e-12
    r = np.asarray(w) / n
    return 4e-4 if np.min(r) < 1.0001e-4 else 1e-13 / np.prod(r) + 1e-11


def crun(c):
    w0 = np.array(c["g"])
    n0 = np.linalg.norm(w0)
    a = levels(w0)
    exact, dens = cube_rational(w0, a)
    tol = ctol(w0)
    flat = n0 == 0
    clamped = tol > 1e-5
    # distance to the kinks of the exact function
    v = np.array(sorted({float(np.dot(s, w0)) / 2 for s in itertools.product((1, -1), repeat=3)}))
    near = np.min(np.abs(a[:, None] - v[None]), axis=1) < 5e-4 * n0
    cnt = 0
    sgs = list(itertools.product((1.0, -1.0), repeat=3))
    ref = None
    variants = [(p, s) for p in sorted(set(itertools.permutations(range(3)))) for s in (sgs if p == (0, 1, 2) else sgs[::3])]
    for p, s in variants:
        g = w0[list(p)] * np.array(s)
        sc = c["scale"]
        comps = [np.full(a.shape, x * sc) for x in g]
        c0 = [x.copy() for x in comps]
        pre = sm.cube_precomp(*comps)
        A = a * sc
        A0 = A.copy()
        V = sm.cube_cut_volume(A, *pre)
        D = sm.cube_cut_dvolume(A, *pre)
        V2, D2 = sm.cube_cut_volume_dvolume(A, *pre)
        require(np.array_equal(A, A0) and all(np.array_equal(x, y) for x, y in zip(comps, c0)), "arguments modified")
        close(V, exact, "volume below the energy, gradient %s" % (g,), tol)
        close(V2, exact, "volume below the energy (combined), gradient %s" % (g,), tol)
        require(np.all(V >= -1e-9) and np.all(V <= 1 + 1e-9), "volume outside [0,1]: %s", (V.min(), V.max()))
        require(np.all(np.diff(V) >= -1e-8 - 1e-13 / max(np.prod(np.maximum(w0, 1e-4 * n0)) / n0 ** 3 if n0 else 1, 1e-12)), "volume is not monotone, gradient %s", g)
        out = np.abs(a) > w0.sum() / 2 + 4e-4 * n0
        require(np.all(V[out] == (a[out] > 0)) and np.all(V2[out] == (a[out] > 0)) and np.all(D[out] == 0) and np.all(D2[out] == 0), "outside of the cell")
        close(V2, V, "combined volume", max(1e-8, 10 * tol if not clamped else 1e-7))
        if not flat:
            close(D * n0 * sc, D2 * n0 * sc, "combined density", 1e-6)
            m = ~near if clamped else np.ones(a.shape, bool)
            dt = 2e-3 if clamped else 1e-12 / np.prod(w0 / n0) + 1e-10
            # box shaped densities jump at the kinks
            m &= ~near | (np.sum(w0 > 0) > 1)
            close(D[m] * n0 * sc, dens[m] * n0, "density, gradient %s" % (g,), dt)
            # the density integrates to the volume (Simpson is exact between the kinks)
            x0, x1 = A[:-1], A[1:]
            mid = (x0 + x1) / 2
            integ = (x1 - x0) / 6 * (sm.cube_cut_dvolume(x0, *[q[:-1] for q in pre]) + 4 * sm.cube_cut_dvolume(mid, *[q[:-1] for q in pre]) + sm.cube_cut_dvolume(x1, *[q[:-1] for q in pre]))
            close(integ, np.diff(V), "integral of the density", 4e-4 if clamped else 1e-6)
        # symmetric around the centre
        Vm = sm.cube_cut_volume(-A, *pre)
        nz = A != 0
        close((V + Vm)[nz], np.ones(nz.sum()), "volume below a and above -a", 1e-9)
        if ref is None:
            ref = V
        close(V, ref, "order and signs of the components", 1e-9 + 1e-3 * tol)
        # scalars
        cnt += 8 * len(a)
    # area and centre of mass
    if not flat:
        for p, s in [((0, 1, 2), (1, 1, 1)), ((2, 0, 1), (1, -1, 1)), ((1, 2, 0), (-1, -1, 1)), ((2, 1, 0), (-1, 1, -1))]:
            g = w0[list(p)] * np.array(s, float)
            comps = [np.full(a.shape, x * c["scale"]) for x in g]
            pre = sm.cube_precomp(*comps)
            ar, com = sm.cube_cut_area_com(a * c["scale"], *pre, *comps)
            require(com.shape == a.shape + (3,) and np.all(np.isfinite(com)) and np.all(np.isfinite(ar)), "shape or value of the centre of mass")
            for i, x in enumerate(a):
                if clamped and near[i] or np.min(np.abs(v - x)) < 1e-9 * n0 and np.sum(w0 > 0) == 1:
                    continue
                E, cm = polygon(g, x)
                close(ar[i], E, "area of the cut, gradient %s at %s" % (g, x), 3e-3 if clamped else 1e-12 / np.prod(w0 / n0) + 1e-9)
                if E > 1e-2 and not (clamped and np.min(np.abs(v - x)) < 5e-3 * n0):
                    r = np.min(w0) / n0
                    close(com[i], cm, "centre of mass of the cut, gradient %s at %s" % (g, x), 3e-3 if r < 1e-3 else 1e-3 if r < 0.02 else 1e-6)
                    cnt += 1
    return {"n": cnt, "nontrivial": not flat, "outcome": (tuple(np.round(exact[:: 5], 6).tolist()))}


# ------------------------------------------------------------------ tetrahedra
def tetra_exact(e, E):
    """fraction of the tetrahedron with value below E, and the derivative (exact piecewise formulas)"""
    e1, e2, e3, e4 = sorted(e)
    if E < e1 or (E == e1 and e4 > e1):
        return 0.0, 0.0
    if E >= e4:
        return 1.0, 0.0
    if E <= e2 and e1 < e2:
        f = (e2 - e1) * (e3 - e1) * (e4 - e1)
        return (E - e1) ** 3 / f, 3 * (E - e1) ** 2 / f
    if E < e3 or e3 == e4:
        if E < e3:
            c1 = (E - e1) ** 2 / ((e4 - e1) * (e3 - e1))
            c2 = (E - e1) * (E - e2) * (e3 - E) / ((e4 - e1) * (e3 - e2) * (e3 - e1))
            c3 = (E - e2) ** 2 * (e4 - E) / ((e4 - e2) * (e3 - e2) * (e4 - e1))
            d1 = 2 * (E - e1) / ((e4 - e1) * (e3 - e1))
            d2 = ((E - e2) * (e3 - E) + (E - e1) * (e3 - E) - (E - e1) * (E - e2)) / ((e4 - e1) * (e3 - e2) * (e3 - e1))
            d3 = (2 * (E - e2) * (e4 - E) - (E - e2) ** 2) / ((e4 - e2) * (e3 - e2) * (e4 - e1))
            return c1 + c2 + c3, d1 + d2 + d3
        return 1.0, 0.0
    f = (e4 - e1) * (e4 - e2) * (e4 - e3)
    return 1 - (e4 - E) ** 3 / f, 3 * (e4 - E) ** 2 / f


TV = [-2.0, 0.0, 0.5, 1.0, 1.0 + 1e-11, 1.0 + 1e-3, 3.0]


def tcases(tier):
    for v in itertools.combinations_with_replacement(TV, 4):
        yield {"v": list(v)}
    for v in itertools.combinations_with_replacement([0.0, 1.0, 2.0, 5.0], 4):
        yield {"v": [1e6 + 1e-3 * x for x in v]}
        yield {"v": [1e5 * x for x in v]}


def tlevels(v):
    s = sorted(set(v))
    w = max(s) - min(s) or 1.0
    L = list(s)
    for x, y in zip(s, s[1:]):
        L += [x + (y - x) * f for f in (0.1, 0.25, 0.5, 0.75, 0.9)]
    L += [s[0] - w, s[-1] + w, s[0] - 1e3 * w, s[-1] + 1e3 * w] + [x + d * w for x in s for d in (1e-4, -1e-4)]
    return np.array(sorted(set(L)))


def trun(c):
    v = c["v"]
    L = tlevels(v)
    w = max(v) - min(v)
    ex = np.array([tetra_exact(v, E) for E in L])
    tol = 2e-6
    wide = max(abs(x) for x in v)
    if w and wide / w > 1e3:
        tol = 1e-5
    cnt = 0
    ref = None
    # discontinuities of the density: three equal vertices
    dist = np.array([min([abs(E - x) for x in v if v.count(x) >= 1]) for E in L])
    for p in itertools.permutations(range(4)):
        q = [np.asarray(L - v[i]) for i in p]
        q0 = [x.copy() for x in q]
        V = sm.tetra_cut_volume(*q) * 6
        D = sm.tetra_cut_dvolume(*q) * 6
        require(all(np.array_equal(a, b) for a, b in zip(q, q0)), "arguments modified")
        flat = (w == 0) & (L == v[0])
        close(V[~flat], ex[~flat, 0], "volume below the energy, vertices %s" % ([v[i] for i in p],), tol)
        require(np.all(V > -1e-7) and np.all(V < 1 + 1e-7), "volume outside of [0,1]")
        require(np.all(np.diff(V) > -1e-7), "not monotone")
        if w:
            m = dist > 1e-5 * w
            close(D[m] * w, ex[m, 1] * w, "density, vertices %s" % ([v[i] for i in p],), 1e-4)
            o = (L < min(v) - 1e-7 * w) | (L > max(v) + 1e-7 * w)
            require(np.all(np.abs(D[o]) * w < 1e-9) and np.all(np.abs(V[o] - (L[o] > max(v))) < 1e-12), "outside of the tetrahedron")
        if ref is None:
            ref = V
        close(V, ref, "order of the vertices", 4 * tol)
        V2 = sm.unit_tetra_cut_volume(q[0], q[1] - q[0], q[2] - q[0], q[3] - q[0]) * 6
        close(V2, V, "unit tetrahedron", 1e-9)
        D2 = sm.unit_tetra_cut_dvolume(q[0], q[1] - q[0], q[2] - q[0], q[3] - q[0]) * 6
        close(D2, D, "unit tetrahedron density", 1e-9)
        cnt += 6 * len(L)
    return {"n": cnt, "nontrivial": w > 0, "outcome": tuple(np.round(ex[:, 0], 5).tolist())}


# ------------------------------------------------------------------ cubes split in tetrahedra
BITS = [np.array([i & 1, i >> 1 & 1, i >> 2 & 1]) for i in range(8)]


def ctcases(tier):
    for w in itertools.combinations_with_replacement([0.0, 1e-9, 1e-3, 0.5, 1.0, 2.0], 3):
        yield {"kind": "linear", "g": list(w)}
    vals = [0.0, 1.0, 2.5] if tier != "quick" else [0.0, 1.0]
    for v in itertools.product(vals, repeat=8):
        if True:
            yield {"kind": "vertex", "v": list(v)}
    for i in range(40):
        yield {"kind": "vertex", "v": [float(x) for x in gen(i, (8,))]}


def ctrun(c):
    cnt = 0
    if c["kind"] == "linear":
        w0 = np.array(c["g"])
        L = levels(w0)
        exact, dens = cube_rational(w0, L)
        n0 = np.linalg.norm(w0)
        v = np.array(sorted({float(np.dot(s, w0)) / 2 for s in itertools.product((1, -1), repeat=3)}))
        far = np.min(np.abs(L[:, None] - v), axis=1) > 1e-5 * n0
        for p in sorted(set(itertools.permutations(range(3)))):
            for s in itertools.product((1, -1), repeat=3):
                g = w0[list(p)] * np.array(s)
                a = np.array([L - g @ (b - 0.5) for b in BITS])
                V, D = sm.cube_tetra_cut_volume(a), sm.cube_tetra_cut_dvolume(a)
                fl = (n0 == 0) & (L == 0)
                close(V[~fl], exact[~fl], "volume, gradient %s" % (g,), 1e-5)
                if n0:
                    close(D[far] * n0, dens[far] * n0, "density, gradient %s" % (g,), 1e-3)
                require(np.all(np.diff(V) > -1e-6), "not monotone")
                cnt += 2 * len(L)
        return {"n": cnt, "nontrivial": n0 > 0, "outcome": tuple(np.round(exact[::7], 5).tolist())}
    v = c["v"]
    L = tlevels(v)
    a = np.array([L - x for x in v])
    V, D = sm.cube_tetra_cut_volume(a), sm.cube_tetra_cut_dvolume(a)
    ex, de = np.zeros(len(L)), np.zeros(len(L))
    for p in itertools.permutations((1, 2, 4)):
        t = [v[0], v[p[0]], v[p[0] | p[1]], v[7]]
        r = np.array([tetra_exact(t, E) for E in L])
        ex += r[:, 0] / 6
        de += r[:, 1] / 6
    w = max(v) - min(v)
    far = np.array([min(abs(E - x) for x in v) > 1e-6 for E in L])
    close(V[far], ex[far], "volume of the split cube", 1e-5)
    if w:
        close(D[far] * w, de[far] * w, "density of the split cube", 1e-3)
    return {"n": 2 * len(L), "nontrivial": w > 0, "outcome": tuple(np.round(ex, 5).tolist())}


# ------------------------------------------------------------------ spheres
def scases(tier):
    for g in itertools.product((0.0, 1e-6, 1.0, -2.0, 30.0), repeat=3):
        yield {"g": list(g)}


def srun(c):
    g = np.array(c["g"])
    n = np.linalg.norm(g)
    r = (3 / (4 * np.pi)) ** (1 / 3)
    R = r * (n or 1.0)
    L = np.concatenate([np.linspace(-1.5, 1.5, 61) * R, [-R, R, 100 * R, -100 * R]])
    L.sort()
    V, D = sm.unit_sphere_cut(L, *[np.full(L.shape, x) for x in g])
    if n == 0:
        m = L != 0
        close(V[m], (L[m] > 0) * 1.0, "volume of a flat sphere", 1e-12)
        close(D[m], 0 * L[m], "density of a flat sphere", 1e-12)
        return {"n": 2, "nontrivial": False, "outcome": "flat"}
    d = np.clip(L / (n * r), -1, 1)
    h = r * (1 + d)
    close(V, np.pi * h ** 2 * (3 * r - h) / 3, "volume of the cap", 1e-9)
    close(D * n, np.pi * h * (2 * r - h), "density (area of the cut)", 1e-8)
    require(np.all(np.diff(V) >= -1e-12), "not monotone")
    return {"n": 2 * len(L), "nontrivial": True, "outcome": tuple(np.round(V[::9], 4).tolist())}


# ------------------------------------------------------------------ smearing classes on grids
LAT = {"cubic": np.eye(3), "skew": np.array([[1.0, 0.3, 0.0], [0.0, 0.9, 0.2], [0.1, 0.0, 1.4]]), "left": np.array([[0.0, 1, 0.2], [1.0, 0, 0], [0, 0, 2.0]])}
FN = {"linear": lambda c: 0.3 + c @ np.array([0.7, -0.4, 1.1]), "axis": lambda c: c[..., 1] * 2.0, "diag": lambda c: c[..., 0] - c[..., 2], "const": lambda c: 0 * c[..., 0] + 0.25,
      "generic": None, "tie": lambda c: np.round(3 * np.cos(2 * np.pi * c[..., 0]) + np.cos(2 * np.pi * c[..., 1]))}


def gcases(tier):
    for lat in LAT:
        for fn in FN:
            for shape in ((2, 2, 2), (3, 2, 4), (4, 4, 4), (5, 3, 3)) + (((6, 6, 6), (2, 7, 3), (5, 5, 5)) if tier != 'quick' else ()):
                for wrap in (False, True):
                    for method in ("cubes", "extra", "tetra", "sphere", "cubes_grad", "sphere_grad"):
                        yield {"lat": lat, "fn": fn, "shape": list(shape), "wrap": wrap, "method": method}


def grun(c):
    A = LAT[c["lat"]]
    B = np.linalg.inv(A).T
    N = c["shape"]
    st = np.array([1 / n for n in N]) if c["wrap"] else np.array([0.9 / (n - 1) for n in N])
    ax = [np.arange(n) * s - 0.2 for n, s in zip(N, st)]
    cry = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    pos = cry @ B.T
    E = FN[c["fn"]](cry) if FN[c["fn"]] else gen(sum(N), tuple(N))
    m, wrap = c["method"], c["wrap"]
    if m == "extra" and any((n if wrap else n - 1) % 2 for n in N):
        raise Skip()
    if m.endswith("grad") and not wrap:
        gr = np.zeros(pos.shape)
        try:
            (sm.CubesSmearing(pos, A, E, gr, False) if m == "cubes_grad" else sm.SphereSmearing(pos, B, E, gr, False))
        except NotImplementedError:
            return {"n": 1, "nontrivial": True, "outcome": "refused"}
        raise Violation("gradients without wrapping were accepted")
    pos0, E0 = pos.copy(), E.copy()
    # cells
    cells = list(itertools.product(*[range(n if wrap else n - 1) for n in N]))
    vert = {ce: np.array([E[tuple((np.array(ce) + b) % np.array(N))] for b in BITS]) for ce in cells}
    lin = {ce: (v.mean(), np.array([v[[i for i in range(8) if BITS[i][d]]].mean() - v[[i for i in range(8) if not BITS[i][d]]].mean() for d in range(3)])) for ce, v in vert.items()}
    G = None
    if m.endswith("grad"):
        gk = gen(31, pos.shape)
        G = gk.copy()
        S = sm.CubesSmearing(pos, A, E, gk, True) if m == "cubes_grad" else sm.SphereSmearing(pos, B, E, gk, True)
        require(np.array_equal(gk, G), "gradients modified")
    elif m == "cubes":
        S = sm.CubesSmearing(pos, A, E, None, wrap)
    elif m == "extra":
        S = sm.ExtraCubesSmearing(pos, A, E, wrap)
    elif m == "tetra":
        S = sm.TetraSmearing(E, wrap, B)
    else:
        S = sm.SphereSmearing(pos, B, E, None, wrap)
    require(np.array_equal(pos, pos0) and np.array_equal(E, E0), "arguments modified")
    lo, hi = E.min(), E.max()
    w = hi - lo or 1.0
    cnt = 0
    Ls = [lo - w, lo, lo + 0.13 * w, lo + 0.4 * w, lo + 0.5 * w + 1e-3, lo + 0.77 * w, hi - 0.1 * w, hi, hi + w, hi + 5 * w]
    prev = None
    for L in sorted(Ls):
        V = np.asarray(S.volume(L))
        D = np.asarray(S.dvolume(L))
        V2, D2 = S.volume_dvolume(L)
        close(V2, V, "combined volume", 1e-7)
        require(np.all(np.isfinite(V)), "volume not finite")
        flat = c["fn"] == "const"
        if not (flat and L == lo):
            with np.errstate(all="ignore"):
                sc = max(1.0, float(np.max(np.abs(D)))) if D.size else 1.0
            if sc < 1e12:
                close(D2, D, "combined density", 1e-6)
        if flat and (L == lo or L == hi):
            continue
        if m == "extra":
            fine, coarse = sm.CubesSmearing(pos, A, E, None, wrap), sm.CubesSmearing(pos[::2, ::2, ::2], A, E[::2, ::2, ::2], None, wrap) if min(len(range(0, n, 2)) for n in N) > 1 else None
            fv = np.asarray(fine.volume(L))
            f8 = sum(fv[i::2, j::2, k::2] for i in (0, 1) for j in (0, 1) for k in (0, 1)) / 8
            if coarse is not None:
                cv = np.asarray(coarse.volume(L))
                close(V, f8 + (f8 - cv) / 3, "extrapolated volume", 1e-9)
            if L >= hi + w or L <= lo - w:
                close(V, np.full(V.shape, float(L > hi)), "outside the band", 1e-9)
            cnt += 1
            continue
        if m == "sphere_grad" or m == "cubes_grad":
            require(V.shape == tuple(N), "shape %s", V.shape)
            for ce in itertools.product(*map(range, N)):
                g = B.T @ G[ce] * st           # derivative along the cell edges
                if m == "cubes_grad":
                    ref = cube_exact(g, np.array(L - E[ce]))[0]
                    close(V[ce], ref, "volume of cell %s" % (ce,), 4e-4)
                else:
                    # sphere with the volume of the cell in k space
                    vol = abs(np.linalg.det(B)) / np.prod(N)
                    gs = np.linalg.norm(G[ce]) * vol ** (1 / 3)
                    rr = (3 / (4 * np.pi)) ** (1 / 3)
                    h = rr * (1 + np.clip((L - E[ce]) / (gs * rr), -1, 1))
                    close(V[ce], np.pi * h ** 2 * (3 * rr - h) / 3, "volume of sphere %s" % (ce,), 1e-8)
                cnt += 1
            continue
        require(V.shape == tuple(n if wrap else n - 1 for n in N), "shape %s", V.shape)
        for ce in cells:
            if m == "tetra":
                ref = 0.0
                for p in itertools.permutations((1, 2, 4)):
                    ref += tetra_exact([vert[ce][0], vert[ce][p[0]], vert[ce][p[0] | p[1]], vert[ce][7]], L)[0] / 6
                if min(abs(L - x) for x in vert[ce]) < 1e-9:
                    continue
                close(V[ce], ref, "volume of cell %s" % (ce,), 1e-5)
            elif m == "cubes":
                a0, g = lin[ce]
                if abs(L - a0) < 1e-9 and np.linalg.norm(g) < 1e-9:
                    continue
                g = np.where(np.abs(g) < 1e-12, 0, g)
                close(V[ce], cube_exact(g, np.array(L - a0))[0], "volume of cell %s" % (ce,), 6e-4)
            else:
                a0, g = lin[ce]
                gs = np.linalg.norm(g)
                if gs < 1e-9:
                    continue
                rr = (3 / (4 * np.pi)) ** (1 / 3)
                h = rr * (1 + np.clip((L - a0) / (gs * rr), -1, 1))
                close(V[ce], np.pi * h ** 2 * (3 * rr - h) / 3, "volume of sphere %s" % (ce,), 1e-8)
            cnt += 1
        if prev is not None:
            require(np.all(V - prev > -1e-6), "not monotone")
        prev = V
    # surface samples
    if m in ("cubes", "cubes_grad") and c["fn"] != "const":
        for L in (lo + 0.31 * w, lo + 0.62 * w):
            for rep in range(2):
                x, gk, wt = S.samples(L)
                want = []
                for ce in (cells if m == "cubes" else list(itertools.product(*map(range, N)))):
                    if m == "cubes":
                        a0, g = lin[ce]
                        cen = cry[ce] + st / 2
                    else:
                        a0, g, cen = E[ce], B.T @ G[ce] * st, cry[ce]
                    if np.linalg.norm(g) < 1e-9:
                        continue
                    g = np.where(np.abs(g) < 1e-12, 0, g)
                    ar, com = polygon(g, L - a0)
                    if ar < 3e-2:
                        continue
                    # polygon in k space
                    Lm = B @ np.diag(st)
                    nk = np.linalg.inv(Lm).T @ g
                    scale = abs(np.linalg.det(Lm)) * np.linalg.norm(nk) / np.linalg.norm(g)
                    want.append((ar * scale, B @ (cen + com * st), nk, ar))
                x, gk, wt = np.asarray(x), np.asarray(gk), np.asarray(wt)
                require(len(x) == len(gk) == len(wt) and np.all(np.isfinite(x)) and np.all(wt > 0), "samples")
                used = set()
                for ar, p, nk, a1 in want:
                    d = np.linalg.norm(x - p, axis=1) + 1e-3 * np.linalg.norm(gk - nk, axis=1)
                    j = int(np.argmin(d)) if len(d) else -1
                    require(j >= 0 and d[j] < 2e-2 * np.max(st) and j not in used, "no sample at the centre of mass of a cut cell %s", p)
                    used.add(j)
                    close(wt[j], ar, "weight (area) of a sample", 1e-2 * max(1, 1 / max(1.0, ar)), scale=ar)
                    close(gk[j], nk, "gradient of a sample", 1e-7)
                    cnt += 1
                rest = sum(wt[j] for j in range(len(wt)) if j not in used)
                require(rest <= 0.05 * max(1.0, len(cells)) * np.max(np.abs(B)) ** 2, "additional samples of weight %s", rest)
    return {"n": cnt, "nontrivial": c["fn"] != "const", "outcome": (c["lat"], m, len(cells))}


def subs(tier):
    global TIER
    TIER = tier
    return [Enum("cube", ccases, crun, "every direction from a lattice of components with zeros, ties and tiny values x scale x all permutations and signs x every vertex energy and points between and outside"),
            Enum("tetrahedron", tcases, trun, "every multiset of vertex values from a menu with exact and near ties x all 24 orders x energy grid"),
            Enum("split cube", ctcases, ctrun, "every linear function of a lattice with all signs and permutations, every 0/1 labelling of the vertices, generic values"),
            Enum("sphere", scases, srun, "every gradient of a lattice"),
            Enum("grids", gcases, grun, "every method x grid shape x lattice (also left handed) x wrapping x function: cell volumes, densities and surface samples")]
