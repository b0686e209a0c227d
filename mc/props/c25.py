"""C25: Slater-Koster models: independent parameters, histories of parameter changes, two-centre integrals of one atom in a cubic crystal."""
import itertools
import numpy as np
from ..core import Enum, BFS, Skip, Violation, require
from ..util import gen, genc, close
from .c11 import groups
from tight_binding_redweasel.slater_koster import SlaterKoster
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry as HS

LEVEL = "model_checking"
ASSUMPTIONS = ["completeness of the parameters only for representations of signed permutation matrices (s, p and t2g orbitals in cubic axes), the orbitals have different names",
               "parameters whose value has to be imaginary are set to imaginary values",
               "orbital integrals: the cubic groups, one atom per cell, s and p orbitals (the other cases are unfinished in the source)"]

# orbital lists: (kind, position)
O3 = np.zeros(3)
H3 = np.full(3, 0.5)
ORB = {
    3: [[("s", 0)], [("p", 0)], [("s", 0), ("p", 0)], [("s", 0), ("s", 1)], [("d3", 0), ("s", 0)], [("p", 0), ("d3", 1)], [("s", 0), ("p", 1)], [("s", 1), ("s", 2)]],
    2: [[("s", 0)], [("p", 0)], [("s", 0), ("p", 0)], [("s", 0), ("s", 1)], [("p", 1), ("s", 2)]],
    1: [[("s", 0)], [("p", 0)], [("s", 0), ("p", 0)], [("s", 0), ("s", 1)], [("s", 0), ("s", 2)], [("s", 0), ("p", 1), ("s", 2)]],
}
POSN = [lambda d: np.zeros(d), lambda d: np.full(d, 0.5), lambda d: np.array([0.25, 0.0, 0.0][:d])]
NB = {1: [[(0,), (1,)], [(0,), (1,), (2,)]], 2: [[(0, 0), (1, 0)], [(0, 0), (1, 0), (1, 1)]], 3: [[(0, 0, 0), (0, 0, 1)], [(0, 0, 0), (0, 0, 1), (0, 1, 1)]]}
GROUPS = ["none1", "inv1", "none2", "inv2", "mx2", "o2_4", "square", "none3", "inv3", "mx3", "mx3i", "c4", "c4i", "s4", "c3", "c3i", "mirror3", "mirror3i", "td", "o", "oh"]


def make(c):
    sym = groups()[c["group"]]()
    d = sym.dim()
    hs = HS(sym)
    for n, (kind, p) in enumerate(ORB[d][c["orbs"]]):
        getattr(hs, "append_" + kind)(POSN[p](d), "abc"[n])
    nb = sym.complete_neighbors([tuple(map(float, r)) for r in NB[d][c["nb"]]])
    nb = np.array(sorted((tuple(r) for r in nb), key=lambda r: (np.round(np.linalg.norm(r), 6), r)))
    return hs, nb, SlaterKoster(hs, nb)


def names(hs):
    out = []
    for u, n in zip(hs.U, hs.names):
        out += [n] if u.dim() == 1 else ["%s%d" % (n, i) for i in range(u.dim())]
    return out


def basis(sym, L, N):
    """symmetrised unit matrices"""
    rows = []
    for u in range(L * N * N):
        for ph in (1.0, 1j):
            e = np.zeros(L * N * N, complex)
            e[u] = ph
            x = sym(e.reshape(L, N, N)).ravel()
            rows.append(np.concatenate([x.real, x.imag]))
    return np.array(rows)


def cases(tier):
    for g in GROUPS:
        d = int(groups()[g]().dim())
        for o in range(len(ORB[d])):
            for n in range(len(NB[d])):
                yield dict(group=g, orbs=o, nb=n)


def run_params(c):
    hs, nb, sk = make(c)
    N = hs.dim()
    L = len(nb)
    if L * N * N > 1000:
        raise Skip
    P = sk.parameters()
    R = sk.parameters(real=True)
    B = basis(hs.symmetrizer(nb), L, N)
    dim = np.linalg.matrix_rank(B, tol=1e-6)
    nm = names(hs)
    close(np.array(sk.model.params), np.zeros((L, N, N)), "asking for the parameters does not change the model", 0)
    dirs = []
    kinds = {}
    for label, (k, i, j, fac) in P.items():
        require(0 <= k < L and 0 <= i < N and 0 <= j < N, "indices of %s", label)
        require(label == ("E" if k == 0 else "V%d" % k) + nm[i] + nm[j], "label %s of the element %d %d %d", label, k, i, j)
        require(abs(fac) > 1e-9, "factor %s of %s", fac, label)
        u = ((k * N + i) * N + j)
        kind = [ph for ph, row in zip((1.0, 1j), (B[2 * u], B[2 * u + 1])) if np.linalg.norm(row) > 1e-6]
        require(kind, "%s vanishes by symmetry", label)
        kinds[label] = kind
        require((len(kind) == 2) == isinstance(fac, complex), "%s: factor %r of a parameter with %d real degrees of freedom", label, fac, len(kind))
        # a single change from zero
        for ph in kind:
            _, _, s2 = (hs, nb, SlaterKoster(hs, nb))
            v = 0.7 * ph
            s2.set_parameter((k, i, j, fac), v)
            close(s2.model.params[k, i, j], v, "%s after it was set" % label, 1e-9)
            x = s2.model.params.ravel()
            dirs.append(np.concatenate([x.real, x.imag]))
    got = np.linalg.matrix_rank(np.array(dirs), tol=1e-6) if dirs else 0
    require(got == len(dirs), "%d real parameters, only %d are independent", len(dirs), got)
    require(got == dim, "%d independent real parameters instead of %d", got, dim)
    # with real matrices
    for label, (k, i, j, fac) in R.items():
        require(isinstance(fac, float), "real parameter %s has the factor %r", label, fac)
        require(label in P and 1.0 in kinds[label], "real parameter %s", label)
    require(set(R) == {l for l in P if 1.0 in kinds[l]}, "real parameters %s", sorted(R))
    return dict(n=len(P) + 3, nontrivial=len(P) > 0, outcome=(c["group"], N, dim))


# ---------------------------------------------------------------- histories
HIST = [dict(group="oh", orbs=2, nb=0), dict(group="o", orbs=1, nb=1), dict(group="c4", orbs=1, nb=0), dict(group="inv1", orbs=3, nb=1), dict(group="none1", orbs=3, nb=0), dict(group="square", orbs=2, nb=1), dict(group="td", orbs=6, nb=0), dict(group="mirror3", orbs=4, nb=0)]


PCACHE = {}


def hmake(root):
    hs, nb, sk = make(root)
    rk = str(sorted(root.items()))
    if rk not in PCACHE:
        PCACHE[rk] = hpar(hs, nb, SlaterKoster(hs, nb))
    P, kinds = PCACHE[rk]
    return dict(sk=sk, hs=hs, nb=nb, P=P, kinds=kinds, val={l: 0.0 for l in P})


def hpar(hs, nb, sk):
    P = sk.parameters()
    f = hs.symmetrizer(nb)
    kinds = {}
    for label, (k, i, j, fac) in P.items():
        kinds[label] = []
        for ph in (1.0, 1j):
            e = np.zeros(sk.model.params.shape, complex)
            e[k, i, j] = ph
            if np.max(np.abs(f(e))) > 1e-6:
                kinds[label].append(ph)
    return P, kinds


def hops(root, st, tier):
    labels = list(st["P"])
    if tier == "quick":
        labels = sorted(set(labels[:3] + labels[-2:]), key=labels.index)
    out = [(l, v) for l in labels for v in (0, 1, 2)]
    return [list(o) for o in out]


def hstep(st, op):
    l, v = op
    kind = st["kinds"][l]
    val = [0.0, 1.5 * kind[0], (-0.25 * kind[0]) if len(kind) == 1 else 0.5 - 0.75j][v]
    st["sk"].set_parameter(st["P"][l], val)
    st["val"][l] = val


def hcheck(st):
    p = st["sk"].model.params
    for l, (k, i, j, fac) in st["P"].items():
        require(abs(p[k, i, j] - st["val"][l]) < 1e-9, "%s is %s, it was set to %s", l, p[k, i, j], st["val"][l])
    close(st["sk"].symmetrizer(p), p, "the parameters keep the symmetry", 1e-9)
    k = gen(4, (2, st["nb"].shape[1]))
    H = st["sk"].model.f(k)
    want = p[0] + sum(np.exp(2j * np.pi * (k @ r))[:, None, None] * h + np.conj(np.exp(2j * np.pi * (k @ r))[:, None, None]) * np.conj(h.T) for r, h in zip(st["nb"][1:], p[1:]))
    close(H, want, "Hamiltonian", 1e-9)
    for s in list(st["hs"].sym.S)[-3:]:
        close(st["sk"].model.bands(k @ np.linalg.inv(s)), st["sk"].model.bands(k), "symmetric bands", 1e-8)


def hcanon(st):
    return np.round(st["sk"].model.params.ravel(), 6).tobytes()


# ---------------------------------------------------------------- orbital integrals
LAT = {"sc": np.eye(3), "bcc": np.array([[-1.0, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2 * 1.2, "fcc": np.array([[0.0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2 * 1.4, "sc2": np.eye(3) * 0.8}


def radial(i):
    return lambda r: (0.9, 0.7, 0.5, -0.2)[i] / (1 + (0.5, 1.0, 0.3, 0.8)[i] * r * r)


def integral(a, b):
    """two centre integral between orbital a and b, x is the offset"""
    def f(x):
        x = np.asarray(x, float)
        r = np.linalg.norm(x)
        if r < 1e-9:
            return (1.0 if a == "s" else 2.5) if a == b else 0.0
        u = x / r
        if a == "s" and b == "s":
            return radial(0)(r)
        if a == "s":
            return radial(1)(r) * u["xyz".index(b[1])]
        if b == "s":
            return -radial(1)(r) * u["xyz".index(a[1])]
        i, j = "xyz".index(a[1]), "xyz".index(b[1])
        return radial(2)(r) * u[i] * u[j] + radial(3)(r) * ((i == j) - u[i] * u[j])
    return f


def vectors(A, dist):
    R = range(-6, 7)
    n = np.array(list(itertools.product(R, R, R))) @ A.T
    return n[np.linalg.norm(n, axis=1) <= dist + 1e-9]


def run_orbitals(c):
    A, orb, dist, inv = LAT[c["lat"]], c["orb"], c["dist"], c["inv"]
    sub = {"s": ["s"], "p": ["px", "py", "pz"]}
    allo = [x for o in orb for x in sub[o]]
    # which integrals are given: one representative of each class, or all of them
    reps = {}
    if "s" in orb:
        reps["ss"] = [("s", "s")]
    if "p" in orb:
        reps["pp"] = [("px", "px"), ("py", "py"), ("pz", "pz")]
        reps["pq"] = [(a, b) for a in sub["p"] for b in sub["p"] if a != b]
    if "s" in orb and "p" in orb:
        reps["sp"] = [(a, b) for p in sub["p"] for a, b in (("s", p), (p, "s"))]
    pick = [r[c["rep"] % len(r)] for r in reps.values()]
    if c["all"]:
        pick = [x for r in reps.values() for x in r]
    ints = {}
    V = vectors(A, dist)
    for a, b in pick:
        f = integral(a, b)
        if c["form"] == "list" and a == b == "s":
            ds = sorted({float(np.round(np.linalg.norm(v), 5)) for v in V})
            ints["X/X:V_s_s"] = [f(np.array([d, 0, 0])) for d in ds][:c["cut"]]
        elif c["form"] == "dict":
            ints["X/X:V_%s_%s" % (a, b)] = {tuple(v): f(v) for v in V}
        else:
            ints["X/X:V_%s_%s" % (a, b)] = f
    sk = SlaterKoster.from_orbitals(A, Symmetry.cubic(inv), [("X", orb, (0, 0, 0))], ints, dist)
    require(sk.hsym.dim() == len(allo), "%d orbitals", sk.hsym.dim())

    def want(v):
        h = np.array([[integral(a, b)(v) for b in allo] for a in allo])
        if c["form"] == "list" and c["cut"] is not None:
            ds = sorted({float(np.round(np.linalg.norm(v), 5)) for v in V})
            if ds.index(float(np.round(np.linalg.norm(v), 5))) >= c["cut"]:
                h[0, 0] = 0
        return h
    tol = 1e-9 if c["form"] != "list" else 1e-5     # (the distances are rounded)
    have = {}
    for r, h in zip(sk.neighbors, sk.model.params):
        close(h, want(r), "coefficient at %s" % (r,), tol)
        for s in (1, -1):
            have[tuple((np.round(s * np.asarray(r), 6) + 0.0).tolist())] = 1
    for v in V:
        if np.any(want(v)):
            require(tuple((np.round(v, 6) + 0.0).tolist()) in have, "the neighbour %s is missing", v)
    # Hamiltonian: Fourier sum over all lattice vectors
    k = gen(6, (3, 3))
    H = sum(np.exp(2j * np.pi * (k @ v))[:, None, None] * want(v) for v in V)
    close(sk.model.f(k), H, "Hamiltonian", tol * 30)
    f = sk.hsym.symmetrizer(sk.neighbors)
    close(f(sk.model.params), sk.model.params, "symmetric coefficients", 1e-9)
    for s in Symmetry.cubic(inv).S:
        close(sk.model.bands(k @ s), sk.model.bands(k), "symmetric bands", 1e-8)
    return dict(n=len(V) + 5, nontrivial=True, outcome=(c["lat"], orb, len(V)))


def subs(tier):
    th = tier == "thorough"
    orb = []
    for lat in LAT:
        for inv in (True, False):
            for dist in (1.01, 1.5, 2.01):
                for o in ("s", "p", "sp", "ps"):
                    for rep in range(6):
                        if rep and o == "s":
                            continue
                        orb.append(dict(lat=lat, inv=inv, dist=dist, orb=o, rep=rep, all=False, form="func", cut=None))
                    orb.append(dict(lat=lat, inv=inv, dist=dist, orb=o, rep=0, all=True, form="func", cut=None))
                    if o != "p":
                        for cut in (1, 2, None):
                            if cut is None or o == "s":
                                orb.append(dict(lat=lat, inv=inv, dist=dist, orb=o, rep=0, all=False, form="list", cut=cut))
                    for rep in (0, 1):
                        orb.append(dict(lat=lat, inv=inv, dist=dist, orb=o, rep=rep, all=False, form="dict", cut=None))
    return [
        Enum("independent parameters", cases, run_params, "groups x orbital lists x neighbour shells"),
        BFS("parameter histories", lambda t: HIST, hmake, hops, hstep, hcheck, hcanon, lambda root, t: 4 if th else 3, "roots x sequences of set_parameter(label, one of 3 values)"),
        Enum("orbital integrals", lambda t: orb, run_orbitals, "lattices x groups x distances x orbitals x given integrals x form of the integrals"),
    ]
