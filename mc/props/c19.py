"""C19: interpolators on every grid shape, origin, order, method and symmetry against independent multilinear interpolation."""
import itertools
import warnings
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, close
from tight_binding_redweasel import kpaths as K, Symmetry

LEVEL = "model_checking"
ASSUMPTIONS = ["grids are rectilinear up to rounding errors of 1e-9 and have at least two samples per direction",
               "between the samples symmetry is only asserted for linear interpolation and operations that map the grid axes to each other (any other interpolation on the grid depends on the axes)"]
# scipy solves for the cubic splines iteratively, the others are exact up to rounding
TOL = {"nearest": 1e-8, "linear": 1e-8, "cubic": 2e-3}
METHODS = {"nearest": 1, "linear": 2, "cubic": 4}


def axis(n, origin):
    if origin == "qe":
        return np.arange(n) / n
    if origin == "centered":
        return np.arange(n) / n - (n // 2) / n
    if origin == "shift":
        return (np.arange(n) + 0.5) / n - 0.5
    if origin == "neg":
        return np.arange(n) / n - 1.0
    return np.arange(n) / n + 0.037


def grid_points(shape, origin):
    ax = [axis(n, origin) for n in shape]
    return np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, len(shape))


def orders(n, which):
    if which == "sorted":
        return np.arange(n)
    if which == "reversed":
        return np.arange(n)[::-1]
    if which == "stride":
        s = next(x for x in (5, 7, 11, 13, 3, 1) if np.gcd(x, n) == 1)
        return (np.arange(n) * s + 2) % n
    return np.argsort(np.sin(np.arange(n) * 12.9898), kind="stable")


def multilinear(shape, origin, vals, k):
    """periodic multilinear interpolation of vals[grid index] at k"""
    vals = vals.reshape(tuple(shape) + (-1,))
    out = np.zeros((len(k), vals.shape[-1]))
    a0 = [axis(n, origin)[0] for n in shape]
    for i, q in enumerate(k):
        t = [(q[d] - a0[d]) * shape[d] for d in range(len(shape))]
        f = [int(np.floor(x + 1e-9)) for x in t]
        for c in itertools.product((0, 1), repeat=len(shape)):
            w = np.prod([(t[d] - f[d]) if c[d] else 1 - (t[d] - f[d]) for d in range(len(shape))])
            out[i] += w * vals[tuple((f[d] + c[d]) % shape[d] for d in range(len(shape)))]
    return out


def query(dim):
    q = gen(31, (7, dim)) * 0.9
    return np.concatenate([q, q + 2, np.full((1, dim), 0.5), np.full((1, dim), -0.5), np.zeros((1, dim)), np.full((1, dim), 0.4999)])


def run_grid(c):
    shape, origin, meth, nb = tuple(c["shape"]), c["origin"], c["method"], c["nb"]
    dim = len(shape)
    k = grid_points(shape, origin)
    vals = gen(sum(shape) + nb, (len(k), nb))
    o = orders(len(k), c["order"])
    kk, vv = k[o].copy(), vals[o].copy()
    if c["noise"]:
        kk = kk + gen(77, kk.shape) * 1e-11
    k0, v0 = kk.copy(), vv.copy()
    sym = [None, Symmetry.none(dim)][c["sym"]]
    uniform = len(set(shape)) == 1
    f = K.interpolate(kk.tolist() if c["list"] else kk, vv.tolist() if c["list"] else vv, sym, method=meth, periodic=True, grid=None if uniform and not c["grid"] else shape)
    require(np.array_equal(kk, k0) and np.array_equal(vv, v0), "the data was modified")
    cnt = 0
    for T in [np.zeros(dim)] + ([np.ones(dim), -2 * np.ones(dim), np.arange(dim) + 1.0]):
        q = k + T
        got = f(q)
        require(np.shape(got) == (len(k), nb), "shape %s", np.shape(got))
        close(got, vals, f"samples at their own points moved by {T.tolist()}", TOL[meth])
        cnt += len(k)
    q = query(dim)
    if meth == "linear":
        close(f(q), multilinear(shape, origin, vals, q), "multilinear interpolation between the samples", 1e-8)
    else:
        a, b = f(q), f(q + np.arange(1, dim + 1))
        if meth == "cubic":
            close(a, b, "periodicity between the samples", 1e-7)
            m = np.max(np.abs(vals))
            require(np.all(np.abs(a) < 4.0**dim * m), "overshoot %s", np.max(np.abs(a)))
        else:
            # every value is a sample
            require(np.all(np.min(np.linalg.norm(a[:, None] - vals[None], axis=-1), axis=1) < 1e-9), "nearest value is no sample")
    # other query shapes
    close(f(q[0]), f(q[:1]), "single point", 1e-12)
    close(f(q[:4].reshape(2, 2, dim)), f(q[:4]).reshape(2, 2, nb), "array of points", 1e-12)
    require(np.array_equal(kk, k0) and np.array_equal(vv, v0), "the data was modified by an evaluation")
    # independent of the order of the samples
    g = K.interpolate(k, vals, sym, method=meth, periodic=True, grid=shape)
    q2 = q[:7] + (0 if meth != "nearest" else 0.0)
    close(f(q2), g(q2), "order of the samples", TOL[meth])
    return dict(n=cnt + 3 * len(q), nontrivial=len(k) > 1)


def poly(deg, dim, i, k):
    s = np.ones(len(k))
    for d in range(dim):
        co = gen(3 * i + d, (deg + 1,))
        s = s * sum(x * k[:, d]**p for p, x in enumerate(co))
    return s


def run_open(c):
    """not periodic: exact for multilinear/tricubic polynomials, samples at unequal distances"""
    shape, meth, nb = tuple(c["shape"]), c["method"], c["nb"]
    dim = len(shape)
    ax = [np.cumsum(0.2 + 0.1 * ((np.arange(n) * 7) % 3)) - 0.7 for n in shape]
    k = np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1).reshape(-1, dim)
    if any(n < METHODS[meth] for n in shape):
        raise Skip("too few samples for the method")
    deg = {"nearest": 0, "linear": 1, "cubic": 3}[meth]
    F = lambda q: np.stack([poly(deg, dim, i + 1, q) for i in range(nb)], axis=-1)
    o = orders(len(k), c["order"])
    f = K.interpolate(k[o], F(k[o]), None, method=meth, periodic=False, grid=shape)
    lo, hi = np.array([a[0] for a in ax]), np.array([a[-1] for a in ax])
    q = lo + (hi - lo) * (np.mod(np.abs(gen(5, (9, dim))) * 1.7, 1.0))
    close(f(q), F(q), "exactness", TOL[meth])
    close(f(k), F(k), "samples", TOL[meth])
    try:
        f(hi[None] + 0.01)
    except ValueError:
        pass
    else:
        require(False, "a point outside of the data was accepted")
    return dict(n=len(k) + 10, nontrivial=True)


def groups(dim):
    if dim == 1:
        return {"none": Symmetry.none(1), "inv": Symmetry.inv(1)}
    if dim == 2:
        return {"none": Symmetry.none(2), "inv": Symmetry.inv(2), "square": Symmetry.square(), "mx": Symmetry.mirror_x(False, 2) if hasattr(Symmetry, "mirror_x") else Symmetry.none(2)}
    return {"none": Symmetry.none(3), "inv": Symmetry.inv(3), "cubic": Symmetry.cubic(True), "o": Symmetry.cubic(False), "perm": Symmetry.even_perm3(), "td": Symmetry.tetrahedral(True), "m3": Symmetry.mirror3(True)}


CRYSTAL = {"hex6": np.array([[1, -1], [1, 0]]), "hex3": np.array([[0, -1], [1, -1]])}


def full_ops(sym):
    return [s * i for s in np.array(sym.S) for i in ([1, -1] if sym.inversion else [1])]


def run_sym(c):
    dim, n, origin, meth, nb = c["dim"], c["n"], c["origin"], c["method"], c["nb"]
    if c["sym"] in CRYSTAL:
        g = CRYSTAL[c["sym"]]
        els = [np.eye(2, dtype=int)]
        while not np.array_equal(els[-1] @ g, np.eye(2)):
            els.append(els[-1] @ g)
        sym = Symmetry(els)
        ops = els
    else:
        sym = groups(dim)[c["sym"]]
        ops = full_ops(sym)
    # also check that the grid is invariant
    k = grid_points((n,) * dim, origin)
    wrap = lambda x: np.round((x + 0.5) % 1.0 - 0.5, 9) % 1.0
    key = lambda x: tuple(np.round(np.mod(np.round(x, 9), 1.0), 6) % 1.0)
    pos = {key(x): i for i, x in enumerate(k)}
    orbit = np.arange(len(k))
    for s in ops:
        for i, x in enumerate(k):
            y = key(np.asarray(s) @ x)
            if y not in pos:
                raise Skip("the grid does not have the symmetry")
    orb = np.full(len(k), -1)
    for i, x in enumerate(k):
        orb[i] = min(pos[key(np.asarray(s) @ x)] for s in ops)
    vals = gen(9, (len(k), nb))[orb]
    # one representative per orbit, chosen in different ways
    reps = []
    for j in sorted(set(orb)):
        mem = np.flatnonzero(orb == j)
        m = mem[{"first": 0, "last": -1, "mid": len(mem) // 2}[c["pick"]]]
        reps.append(k[m] if c["pick"] != "last" else k[m] - np.round(k[m]))
    reps = np.array(reps)
    rv = np.array([vals[j] for j in sorted(set(orb))])
    o = orders(len(reps), c["order"])
    reps, rv = reps[o], rv[o]
    r0, v0 = reps.copy(), rv.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        f = K.interpolate(reps, rv, sym, method=meth, periodic=True)
    require(np.array_equal(reps, r0) and np.array_equal(rv, v0), "the data was modified")
    close(f(reps), rv, "samples", TOL[meth])
    close(f(k), vals, "samples at all images", TOL[meth])
    cnt = len(k)
    q = query(dim)
    for s in ops:
        s = np.asarray(s)
        close(f(reps @ s.T), rv, "samples under an operation", TOL[meth])
        cnt += len(reps)
        if meth == "linear" and c["sym"] not in CRYSTAL:
            close(f(q @ s.T), f(q), "invariance between the samples", 1e-8)
            cnt += len(q)
    if meth == "linear":
        close(f(q), multilinear((n,) * dim, origin, vals, q), "multilinear interpolation of the completed data", 1e-8)
    # the completed data gives the same interpolator
    g = K.interpolate(k, vals, None, method=meth, periodic=True)
    if meth != "nearest":
        close(f(q), g(q), "interpolator of the completed data", TOL[meth])
    return dict(n=cnt, nontrivial=len(reps) < len(k), outcome=len(reps))


def run_sub(c):
    """fewer grid directions than coordinates (e.g. two dimensional materials)"""
    shape, dim, meth = tuple(c["shape"]), c["dim"], c["method"]
    k2 = grid_points(shape, "qe")
    k = np.concatenate([k2, np.zeros((len(k2), dim - len(shape)))], axis=1)
    vals = gen(4, (len(k), 2))
    o = orders(len(k), c["order"])
    f = K.interpolate(k[o], vals[o], None, method=meth, periodic=True, grid=shape)
    close(f(k2), vals, "samples", TOL[meth])
    close(f(k2 + 1), vals, "periodicity", TOL[meth])
    return dict(n=2 * len(k), nontrivial=True)


def run_uns(c):
    dim, n, nb, sname = c["dim"], c["n"], c["nb"], c["sym"]
    sym = groups(dim)[sname]
    k = gen(8 + dim, (n, dim))
    if c["zero"]:
        k[0] = 0
    b = gen(12, (n, nb))
    o = orders(n, c["order"])
    kk, bb = k[o].copy(), b[o].copy()
    k0, b0 = kk.copy(), bb.copy()
    f = K.interpolate_unstructured(kk.tolist() if c["list"] else kk, bb.tolist() if c["list"] else bb, sym if sname != "none" else None, max_error=c["err"])
    cnt = 0
    for s in full_ops(sym):
        close(f(k @ s.T), b, "samples under an operation", 1e-12)
        d = np.zeros(dim)
        d[-1] = 0.5 * c["err"]
        near = k @ s.T + d
        img = np.concatenate([k @ t.T for t in full_ops(sym)])
        val = np.concatenate([b] * len(full_ops(sym)))
        dist = np.linalg.norm(near[:, None] - img[None], axis=-1)
        close(f(near), val[np.argmin(dist, axis=1)], "nearest sample within the distance", 1e-12)
        far = k @ s.T + 2.5 * d / 0.5 * 1.0
        dist = np.min(np.linalg.norm(far[:, None] - img[None], axis=-1), axis=1)
        got = f(far)
        require(np.all(np.isnan(got[dist > c["err"] * 1.001])), "values far away from every sample")
        cnt += 3 * n
    require(np.array_equal(kk, k0) and np.array_equal(bb, b0), "the data was modified")
    require(f(k[:0]).shape[0] == 0 if c["empty"] else True, "no points")
    return dict(n=cnt, nontrivial=True)


def run_smooth(c):
    """cubic interpolation of single harmonics: fourth order everywhere in the cell, also at the periodic border"""
    shape, dim = tuple(c["shape"]), len(c["shape"])
    k = grid_points(shape, c["origin"])
    h = np.array(c["harm"])

    def F(k):
        x = 2 * np.pi * k * h + c["phase"]
        return np.stack([np.prod(np.cos(x), axis=-1), np.sum(np.sin(x), axis=-1)], -1)
    f = K.interpolate(k, F(k), method="cubic", grid=shape)
    g = np.linspace(-0.5, 0.5, {1: 97, 2: 31, 3: 13}[dim])
    q = np.stack(np.meshgrid(*[g] * dim, indexing="ij"), axis=-1).reshape(-1, dim)
    err = np.max(np.abs(f(q) - F(q)))
    bound = TOL["cubic"] * 0.5 + 0.08 * sum((2 * np.pi / n)**4 for n, x in zip(shape, h) if x)
    require(err <= bound, "cubic interpolation of a smooth function on %s samples is off by %s > %s", shape, err, bound)
    return dict(n=len(q), nontrivial=bool(np.any(h)))


def subs(tier):
    th = tier == "thorough"
    shapes = [(n,) for n in (2, 3, 4, 5, 6, 8)] + [(a, b) for a in (2, 3, 4, 5) for b in (2, 3, 4, 5)] + ([(a, b, c) for a in (2, 3, 4) for b in (2, 3, 4) for c in (2, 3, 4)] + [(6, 6, 6), (5, 2, 3)] if th else [(2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4), (4, 2, 3), (3, 4, 2), (5, 2, 2)])
    grid = [dict(shape=list(s), origin=og, method=m, nb=nb, order=o, noise=z, list=l, sym=sy, grid=gr) for s in shapes for og in ("qe", "centered", "shift", "neg", "x") for m in METHODS for (nb, o, z, l, sy, gr) in
            ([(2, "sorted", 0, 0, 0, 0), (1, "reversed", 0, 1, 1, 1), (3, "stride", 1, 0, 0, 1), (2, "mix", 0, 0, 1, 0)] if th or len(s) < 3 else [(2, "mix", 0, 0, 1, 0), (1, "stride", 0, 1, 0, 1)])]
    smooth = [dict(shape=list(s), origin=og, harm=list(h), phase=p) for s in [(8,), (9,), (12,), (13,), (20,), (8, 8), (10, 8), (9, 13)] + ([(8, 8, 8), (9, 8, 10)] if th else [(8, 9, 8)]) for og in ("qe", "centered", "shift", "neg", "x")
              for h in itertools.product((0, 1), repeat=len(s)) for p in (0.0, 0.7, 1.9)]
    open_ = [dict(shape=list(s), method=m, nb=nb, order=o) for s in shapes for m in METHODS for nb in (1, 3) for o in ("sorted", "reversed", "mix")]
    symc = [dict(dim=d, n=n, origin=og, method=m, nb=2, sym=s, pick=p, order=o) for d, gs in ((1, ("inv",)), (2, ("inv", "square", "mx", "hex6", "hex3")), (3, ("inv", "cubic", "o", "perm", "td", "m3"))) for s in gs
            for n in ((2, 3, 4, 5, 6) if d < 3 or th else (2, 3, 4)) for og in ("qe", "centered", "shift", "neg") for m in METHODS for p, o in (("first", "sorted"), ("last", "mix"), ("mid", "reversed"))]
    subg = [dict(shape=list(s), dim=d, method=m, order=o) for d in (2, 3) for s in ([(4,), (5,)] + ([(4, 4), (3, 5)] if d == 3 else [])) for m in METHODS for o in ("sorted", "mix")]
    uns = [dict(dim=d, n=n, nb=nb, sym=s, order=o, list=l, err=e, zero=z, empty=0) for d in (1, 2, 3) for s in groups(d) for n in (1, 2, 7) for nb in (1, 3) for o in ("sorted", "mix") for l in (0, 1) for e in (1e-3, 1e-2) for z in (0, 1)]
    return [
        Enum("periodic", lambda t: grid, run_grid, "grid shape x origin x method x order of the samples"),
        Enum("smooth", lambda t: smooth, run_smooth, "grid shape x origin x harmonics x phase: accuracy of the cubic interpolation"),
        Enum("open", lambda t: open_, run_open, "grid shape x method x order: polynomials spanned by the method"),
        Enum("symmetric", lambda t: symc, run_sym, "group x grid x origin x method x choice of the representatives"),
        Enum("partial grid", lambda t: subg, run_sub, "fewer grid directions than coordinates"),
        Enum("unstructured", lambda t: uns, run_uns, "group x sample count x options"),
    ]
