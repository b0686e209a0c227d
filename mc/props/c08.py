"""C08: orbits: expansion, reduction, neighbour lists, classes and weights against brute force over the operation set."""
import itertools
import warnings
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, close, raises
from .c07 import menu, elements, build, HEX
from tight_binding_redweasel.symmetry import Symmetry, neighbor_function, try_neighbor_function

LEVEL = "exploration"
ASSUMPTIONS = ["points closer than 1e-6 are the same point", "reduction is documented for orthogonal operations, weights of periodic points for integer operations (crystal coordinates)"]


def pk(p):
    return tuple((np.round(np.asarray(p, float), 6) + 0.0).tolist())


def orbit(ops, k):
    out = {}
    for m in ops:
        q = m @ k
        out[pk(q)] = q
    return out


def wrap(p):
    """into [-1/2, 1/2[ with exact borders"""
    q = np.round(np.asarray(p, float), 6)
    q = q - np.floor(q + 0.5)
    return tuple((np.round(q, 6) + 0.0).tolist())


GROUPS = {1: ["none1", "inv1", "o1i"],
          2: ["none2", "inv2", "mirror_x2", "mirror2_inv", "swap2", "swap2_inv", "o2_3", "o2_4", "o2_6", "square", "hex2"],
          3: ["none3", "inv3", "mirror_x3", "mirror_xy3", "mirror3", "mirrors_inv", "mirrors_full", "c2x_inv", "perm3", "even_perm3i", "cyclic3", "cyclic4", "cyclic4i", "dihedral3", "dihedral6i", "tetra",
              "td", "cubic", "cubici", "hex3p", "hex3"]}


def sorted_for_grid(ks):
    """last coordinate most significant, as the documented grid order"""
    return [tuple(r[::-1]) for r in np.round(np.asarray(ks, float), 6) + 0.0]


def pool(dim):
    box = {1: [-1.0, -0.5, 0.0, 0.25, 1.0, 2.0], 2: [-1.0, 0.0, 0.5, 1.0], 3: [-1.0, 0.0, 1.0]}[dim]
    return [list(p) for p in itertools.product(box, repeat=dim)] + [list(gen(3 + dim, (dim,)))]


# ------------------------------------------------------------------ expansion
def ecases(tier):
    for dim in (1, 2, 3):
        P = pool(dim)
        n = len(P)
        for g in GROUPS[dim]:
            sizes = {1: (1, 2, 3, 4), 2: (1, 2, 3), 3: (1, 2)}[dim]
            for r in sizes:
                for sub in itertools.combinations(range(n), r):
                    if tier == "quick" and dim > 1 and r > 1 and (sum(sub) + r) % (1 if dim == 2 and r == 2 else 5):
                        continue
                    yield {"dim": dim, "group": g, "pts": list(sub)}
            yield {"dim": dim, "group": g, "pts": list(range(n))}
            yield {"dim": dim, "group": g, "pts": list(range(n))[::-1]}


def erun(c):
    dim = c["dim"]
    sym = build(c["group"])
    ops = list(elements(sym).values())
    P = np.array([pool(dim)[i] for i in c["pts"]])
    orbits = [orbit(ops, k) for k in P]
    src = {}
    for i, o in enumerate(orbits):
        for q in o:
            src.setdefault(q, []).append(i)
    clash = any(len(v) > 1 for v in src.values())
    cnt = 0
    for perm in (list(range(len(P))), list(range(len(P)))[::-1]):
        k = P[perm]
        back = {j: i for i, j in enumerate(perm)}
        k0 = k.copy()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            full, order = sym.realize_symmetric(k)
            warned = any("duplicate" in str(x.message) for x in w)
        require(np.array_equal(k, k0), "input points changed")
        require(len(full) == len(order), "one source index per point")
        keys = [pk(q) for q in full]
        require(len(set(keys)) == len(keys), "point listed twice")
        require(set(keys) == set(src), "%d points instead of %d", len(keys), len(src))
        for q, i in zip(keys, order):
            require(perm[i] in src[q], "point %s has source %s", q, i)
        require(warned == clash, "warning about equivalent input points: %s instead of %s", warned, clash)
        s = sorted_for_grid(full)
        require(s == sorted(s), "points are not in grid order")
        data = np.stack([np.arange(len(k)) * 1.5, -np.arange(len(k)) + 0.25], axis=-1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            full2, d2 = sym.realize_symmetric_data(k, data)
            full3, o3 = sym.realize_symmetric(k, collect_bad_duplicates=True)
            full4, d4 = sym.realize_symmetric_data(k, data, average_bad_duplicates=True)
        close(full2, full, "points with data")
        close(d2, data[np.asarray(order)], "data of the points")
        close(full3, full, "points with collected sources")
        require([sorted(back[j] for j in src[q]) for q in keys] == [sorted(int(i) for i in x) for x in o3], "collected sources")
        close(full4, full, "points with averaged data")
        close(d4, np.array([np.mean([data[back[j]] for j in src[q]], axis=0) for q in keys]), "averaged data")
        cnt += 6
    # sizes
    sz = sym.r_class_size(P)
    close(sz, np.array([float(len(o)) for o in orbits]), "orbit sizes")
    # classes
    cl = sym.find_classes(P)
    got = sorted(sorted(int(i) for i in v) for v in cl.values())
    ref = {}
    for i, o in enumerate(orbits):
        ref.setdefault(frozenset(o), []).append(i)
    require(got == sorted(sorted(v) for v in ref.values()), "classes %s instead of %s", got, sorted(ref.values()))
    require(all(k in v for k, v in cl.items()), "representative outside of its class")
    return {"n": cnt + 2, "outcome": (c["group"], len(src), clash), "nontrivial": len(src) > len(P) or clash}


# ------------------------------------------------------------------ reduction on grids
def gcases(tier):
    steps = (1.0, 0.3, 0.1, 0.05, 0.02, 0.01, 0.004)
    for dim in (1, 2, 3):
        for g in GROUPS[dim]:
            if g in ("hex2", "hex3", "hex3p"):
                continue
            for m in {1: (0, 1, 5), 2: (0, 1, 2, 4), 3: (1, 2)}[dim] if tier == "quick" else {1: (0, 1, 5, 30), 2: (0, 1, 2, 4, 7), 3: (0, 1, 2, 3)}[dim]:
                for st in steps:
                    for half in (False, True):
                        for order in ("grid", "reversed", "shuffled"):
                            if m * 2 + 1 >= 5 and dim == 3 and order == "reversed" and tier == "quick":
                                continue
                            yield {"dim": dim, "group": g, "m": m, "step": st, "half": half, "order": order}




def grun(c):
    dim = c["dim"]
    sym = build(c["group"])
    ops = list(elements(sym).values())
    ax = np.arange(-c["m"], c["m"] + 1) * c["step"]
    if c["half"]:
        ax = (np.arange(-c["m"], c["m"]) + 0.5) * c["step"] if c["m"] else np.array([-0.5, 0.5]) * c["step"]
    base = np.stack(np.meshgrid(*([ax] * dim), indexing="ij"), axis=-1).reshape(-1, dim)
    pts = {}
    for k in base:
        pts.update(orbit(ops, k))
    X = np.array(list(pts.values()))
    s = sorted_for_grid(X)
    X = X[sorted(range(len(X)), key=lambda i: s[i])]
    if c["order"] == "reversed":
        X = X[::-1].copy()
    elif c["order"] == "shuffled":
        X = X[np.argsort(gen(4, (len(X),)))]
    lab = {}
    for k in X:
        key = pk(k)
        if key not in lab:
            n = len(set(lab.values()))
            for q in orbit(ops, k):
                lab[q] = n
    data = np.array([[lab[pk(k)], lab[pk(k)] ** 2] for k in X], float)
    X0, D0 = X.copy(), data.copy()
    rk, rd = sym.reduce_symmetric_data(X, data)
    require(np.array_equal(X, X0) and np.array_equal(data, D0), "arguments changed")
    n = len(set(lab.values()))
    require(len(rk) == len(rd) == n, "%d representatives for %d orbits", len(rk), n)
    labs = [lab.get(pk(k)) for k in rk]
    require(None not in labs and len(set(labs)) == n, "representatives of other points")
    close(rd[:, 0], np.array(labs, float), "data of the representatives")
    rk2, rd2 = sym.reduce_symmetric_data(rk, rd)
    require(len(rk2) == n and sorted(map(pk, rk2)) == sorted(map(pk, rk)), "reducing again changes the points")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fk, fd = sym.realize_symmetric_data(rk, rd)
    require(sorted(map(pk, fk)) == sorted(map(pk, X)), "expanding the reduced points gives %d instead of %d points", len(fk), len(X))
    close(fd[:, 0], np.array([lab[pk(k)] for k in fk], float), "expanded data")
    close(np.sum(sym.r_class_size(rk)[:, None] * rd, axis=0), data.sum(0), "weighted sum", scale=max(1.0, abs(data).sum()))
    # asymmetric data is noticed
    if n < len(X):
        i = next(i for i in range(len(X)) if sum(lab[pk(k)] == lab[pk(X[i])] for k in X) > 1)
        bad = data.copy()
        bad[i] += 1e-3
        require(raises(lambda: sym.reduce_symmetric_data(X, bad), ValueError), "asymmetric data accepted")
        uk, ud = sym.reduce_symmetric_data(X, bad, checked=False)
        require(len(uk) == n, "unchecked reduction")
    return {"n": 8, "outcome": (len(X), n), "nontrivial": n < len(X)}


# ------------------------------------------------------------------ periodic grids
PER = {1: ["none1", "inv1"], 2: ["none2", "inv2", "mirror_x2", "mirror2_inv", "swap2", "swap2_inv", "o2_4", "square", "hex2"],
       3: ["none3", "inv3", "mirror_x3", "mirror3", "mirrors_inv", "c2x_inv", "perm3", "even_perm3i", "cyclic4i", "tetra", "td", "cubici", "hex3p", "hex3"]}


def pcases(tier):
    for dim in (1, 2, 3):
        for g in PER[dim]:
            for N in {1: range(1, 13), 2: range(1, 10), 3: range(1, 5)}[dim] if tier == "quick" else {1: range(1, 40), 2: range(1, 16), 3: range(1, 8)}[dim]:
                for shift in (0.0, 0.5):
                    for where in ("cell", "positive", "far"):
                        yield {"dim": dim, "group": g, "N": N, "shift": shift, "where": where}


def prun(c):
    dim, N = c["dim"], c["N"]
    sym = build(c["group"])
    ops = [np.round(m) for m in elements(sym).values()]
    for m, e in zip(ops, elements(sym).values()):
        if np.abs(m - e).max() > 1e-6:
            raise Skip("not integer")
    ax = (np.arange(N) + c["shift"]) / N
    grid = np.stack(np.meshgrid(*([ax] * dim), indexing="ij"), axis=-1).reshape(-1, dim)
    all_ = {wrap(k) for k in grid}
    left, reps, sizes = dict((wrap(k), k) for k in grid), [], []
    while left:
        w, k = next(iter(left.items()))
        o = {wrap(m @ k) for m in ops}
        if not o <= all_:
            raise Skip("grid without the symmetry")
        for q in o:
            left.pop(q, None)
        reps.append(k - np.floor(k + 0.5 + 1e-9) if c["where"] == "cell" else k if c["where"] == "positive" else k + np.array([1.0, -2.0, 3.0])[:dim])
        sizes.append(len(o))
    reps = np.array(reps)
    close(sym.k_weight(reps) * len(ops), np.array(sizes, float), "weights times group order are the orbit sizes")
    close(np.sum(sym.k_weight(reps)) * len(ops), float(N**dim), "sum of the weights")
    close(sym.k_weight(np.zeros((1, dim))), np.array([1 / len(ops)]), "weight of 0")
    data = np.arange(len(reps)) * 1.0
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fk, fd = sym.realize_symmetric_data(reps, data, unit_cell=True)
        require(not any("duplicate" in str(x.message) for x in w), "warning although the points are not equivalent")
    require(len(fk) == N**dim, "%d points instead of %d", len(fk), N**dim)
    require({wrap(k) for k in fk} == all_, "expanded points are not the grid")
    require(np.all(fk >= -0.5) and np.all(fk < 0.5), "point outside of [-1/2, 1/2[")
    s = sorted_for_grid(fk)
    require(s == sorted(s), "expanded points are not in grid order")
    for k, v in zip(fk, fd):
        require(any(wrap(m @ reps[int(v)]) == wrap(k) for m in ops), "data of another point")
    close(np.sum(data * np.array(sizes)), np.sum(fd), "weighted sum")
    # every member of an orbit gives the same expansion
    if len(reps) <= 30:
        alt = np.array([ops[(i + 1) % len(ops)] @ k for i, k in enumerate(reps)])
        fk2, fd2 = sym.realize_symmetric_data(alt, data, unit_cell=True)
        require([wrap(k) for k in fk2] == [wrap(k) for k in fk] and np.array_equal(fd, fd2), "expansion depends on the representative")
    return {"n": 8, "outcome": (N**dim, len(reps)), "nontrivial": len(reps) < N**dim}


# ------------------------------------------------------------------ neighbour lists
def ncases(tier):
    for dim in (1, 2, 3):
        box = list(itertools.product(range(-2, 3), repeat=dim)) if dim < 3 else [p for p in itertools.product(range(-2, 3), repeat=3) if sum(map(abs, p)) <= 3]
        full = len(box)
        for g in GROUPS[dim]:
            for r in (1, 2) if dim < 3 else (1,):
                for sub in itertools.combinations(range(full), r):
                    yield {"dim": dim, "group": g, "pts": [list(box[i]) for i in sub]}
            for a in range(0, full - 4, 2 if tier == "thorough" else 7):
                yield {"dim": dim, "group": g, "pts": [list(p) for p in box[a:a + 5]]}
            yield {"dim": dim, "group": g, "pts": [list(p) for p in box]}
            yield {"dim": dim, "group": g, "pts": [list(p) for p in sorted(box, key=lambda p: (sum(x * x for x in p), p)) if p >= tuple([0] * dim)]}


def nrun(c):
    dim = c["dim"]
    sym = build(c["group"])
    E = [m.T for m in elements(sym).values()]
    pts = [np.array(p, float) for p in c["pts"]]
    if not any(not np.any(p) for p in pts):
        pts = [np.zeros(dim)] + pts
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        nb, order = sym.complete_neighbors([tuple(p) for p in pts], return_order=True)
        nb2 = sym.complete_neighbors(np.array(pts))
    require(len(nb) == len(order) == len(nb2), "lengths")
    close(np.array(nb2), np.array(nb), "list with and without order")
    orbs = [orbit(E, p) for p in pts]
    allp = set().union(*orbs)
    neg = lambda q: pk(-np.array(q))
    keys = [pk(q) for q in nb]
    require(not np.any(np.abs(nb[0]) > 1e-9), "zero is not the first neighbour")
    require(set(keys) <= allp, "invented neighbours")
    require(len(set(keys)) == len(keys), "neighbour listed twice")
    for q in keys:
        require(q == neg(q) or neg(q) not in set(keys), "%s and its negative are both listed", q)
    for q in allp:
        require(q in set(keys) or neg(q) in set(keys), "image %s is lost", q)
    for q, i in zip(keys, order):
        require(q in orbs[i] or neg(q) in orbs[i], "source index of %s", q)
    nn = np.linalg.norm(np.array(nb), axis=-1)
    require(np.all(np.diff(nn) > -1e-9), "neighbours are not sorted by length")
    # completeness test
    n = 8
    if dim == 3:
        sym.check_neighbors(np.array(nb))
        if len(nb) <= 40:
            sym.check_neighbors(np.array(nb)[::-1])
            for i in range(1, len(nb)):
                rest = nb[:i] + nb[i + 1:]
                closed = all(pk(m @ p) in {pk(x) for x in rest} or neg(pk(m @ p)) in {pk(x) for x in rest} for m in E for p in rest)
                bad = raises(lambda: sym.check_neighbors(np.array(rest)), ValueError)
                require(bad != closed, "list without %s is %s", keys[i], "rejected" if bad else "accepted")
                n += 1
    # lookup functions
    f, t = neighbor_function(np.array(nb)), try_neighbor_function(np.array(nb))
    for j, q in enumerate(nb):
        require(f(q + 1e-6)[0] == j and not f(q)[1] and t(q)[0] == j and not t(q)[1], "lookup of a neighbour")
        if j:
            i, m = f(-q)
            require(i == j and m and t(-q) == (i, m), "lookup of a mirrored neighbour")
    far = nb[-1] + 0.3
    require(raises(lambda: f(far), ValueError) and t(far) == (None, None), "lookup of something else")
    return {"n": n, "outcome": (c["group"], len(nb)), "nontrivial": len(nb) > len(pts)}


# ------------------------------------------------------------------ symmetry test of functions
def fcases(tier):
    for dim in (1, 2, 3):
        for g in GROUPS[dim]:
            for h in GROUPS[dim]:
                for out in ((), (2,)):
                    if len(elements(build(h))) <= (12 if tier == "quick" else 200) or g in ("cubic", "cubici", "inv3", "c2x_inv", "hex3"):
                        yield {"dim": dim, "group": g, "invariance": h, "out": len(out)}


def frun(c):
    sym, dim = build(c["group"]), c["dim"]
    H = np.array(list(elements(build(c["invariance"])).values()))
    w, v = 6 * gen(41, (3, dim)), 5 * gen(42, (3, dim))  # (the lowest polynomials which tell the groups apart have degree 9)

    def f(r):
        x = H @ r
        y = np.sum(np.sin(x @ w.T) + np.cos(1.7 * (x @ v.T)), axis=0)
        return y[:2] if c["out"] else y[2]
    hs = {pk(np.ravel(m)) for m in H}
    want = all(pk(np.ravel(m)) in hs for m in elements(sym).values())
    got = sym.check_symmetry(f, verbose=False)
    require(bool(got) == want, "check_symmetry says %s for a function that has the symmetry %s, tested for %s", got, c["invariance"], c["group"])
    return {"n": 1, "outcome": (c["group"], want), "nontrivial": len(H) > 1}


def subs(tier):
    return [Enum("functions", fcases, frun, "every group tested with functions that have exactly the symmetry of every other group"),
            Enum("expansion", ecases, erun, "every group x point subsets x orders: images, sources, warnings, averages, sizes, classes"),
            Enum("reduction", gcases, grun, "every orthogonal group x grid size x spacing x order"),
            Enum("periodic grids", pcases, prun, "every integer group x grid x shift x representative cell: expansion into the unit cell and weights"),
            Enum("neighbour lists", ncases, nrun, "every group x small lattice point subsets: completion, completeness test, lookup")]
