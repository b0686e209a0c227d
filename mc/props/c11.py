"""C11: symmetrised Hamiltonian coefficients: projection onto exactly the symmetric models for orbitals at any position."""
import itertools
import numpy as np
from ..core import Enum, BFS, Skip, Violation, require
from ..util import gen, genc, close, raises
from .c07 import elements, key, build as bgroup, closure
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry as HS

LEVEL = "exploration"
ASSUMPTIONS = ["the representations are real orthogonal matrices (stated in the implementation); p and d orbitals only in orthogonal coordinates",
               "the element (1,2) of the coefficient at r belongs to the displacement d = r + r2 - r1 between the orbitals, an orbital pair whose orbit of displacements leaves the neighbour list cannot be non-zero",
               "the orbital called d3 transforms like p without the sign under inversion (as documented)"]
TIER = "quick"


def from_gens(gens, inv, dim):
    return Symmetry(np.array([np.eye(dim)] + [m for k, m in closure(gens).items() if not np.allclose(m, np.eye(dim))]) if gens else np.array([np.eye(dim)]), inv)


C4 = np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])
C3 = np.roll(np.eye(3), 1, axis=0)
H3 = 3**.5 / 2
ROT6 = np.array([[0.5, -H3], [H3, 0.5]])


def groups():
    G = {"none1": lambda: Symmetry.none(1), "inv1": lambda: Symmetry.inv(1),
         "none2": lambda: Symmetry.none(2), "inv2": lambda: Symmetry.inv(2), "mx2": lambda: Symmetry.mirror_x(False, 2), "o2_4": lambda: Symmetry.o2(4), "square": lambda: Symmetry.square(),
         "hex2": lambda: from_gens([np.array([[0.0, -1], [1, 1]])], False, 2),
         "hexo": lambda: from_gens([ROT6], False, 2), "tri_o": lambda: from_gens([ROT6 @ ROT6], False, 2), "tri_m": lambda: from_gens([ROT6 @ ROT6, np.diag([1.0, -1])], False, 2), "hexo_m": lambda: from_gens([ROT6, np.diag([1.0, -1])], False, 2),
         "none3": lambda: Symmetry.none(3), "inv3": lambda: Symmetry.inv(3), "mx3": lambda: Symmetry.mirror_x(False, 3), "mx3i": lambda: Symmetry.mirror_x(True, 3), "c4": lambda: from_gens([C4], False, 3), "c4i": lambda: from_gens([C4], True, 3),
         "s4": lambda: from_gens([-C4], False, 3), "c3": lambda: from_gens([C3], False, 3), "c3i": lambda: from_gens([C3], True, 3), "mirror3": lambda: Symmetry.mirror3(False), "mirror3i": lambda: Symmetry.mirror3(True),
         "td": lambda: from_gens([-C4, C3], False, 3), "o": lambda: Symmetry.cubic(False), "oh": lambda: Symmetry.cubic(True)}
    return G


# orbital lists: (kind, position index)
POS = {1: [(0.0,), (0.5,), (-0.5,), (0.25,)], 2: [(0.0, 0.0), (0.5, 0.5), (0.5, 0.0), (0.2, -0.3), (1.0, 0.0)],
       3: [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5), (0.5, 0.0, 0.0), (0.25, 0.25, 0.25), (0.0, 0.0, 0.3), (1.0, 0.0, -1.0)]}
NB = {1: [[(0,)], [(0,), (1,)], [(1,), (0,), (2,), (3,)]],
      2: [[(0, 0), (1, 0)], [(0, 0), (1, 0), (1, 1)], [(1, 1), (0, 0)], [(0, 0), (1, 0), (2, 1)]],
      3: [[(0, 0, 0)], [(0, 0, 0), (1, 0, 0)], [(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 1, 1)], [(0, 0, 0), (1, 1, 1), (2, 1, 0)], [(1, 0, 0), (0, 0, 1)], [(0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1), (1, 1, 2)],
          [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (1, 1, 2)]]}
# orthogonal coordinates of a hexagonal lattice: other positions and neighbours
HEXO = ("hexo", "tri_o", "tri_m", "hexo_m")
for _g in HEXO:
    POS[_g] = [(0.0, 0.0), (0.5, H3 / 3), (0.5, 0.0), (0.2, -0.3), (1.0, 0.0)]
    NB[_g] = [[(0, 0), (1, 0)], [(0, 0), (1, 0), (1.5, H3)], [(0.5, H3), (0, 0)], [(0, 0), (1, 0), (0.5, H3), (2.5, H3)]]


def tabs(gname, dim):
    g = gname if gname in HEXO else dim
    return POS[g], NB[g]


def lists(dim):
    """orbital lists [(kind, position)]"""
    P = range(len(POS[dim]))
    out = [[("s", p)] for p in P] + [[("p", p)] for p in (0, 1)]
    out += [[("s", p), ("s", q)] for p in P for q in P]
    out += [[("s", p), ("p", q)] for p in (0, 1, 3) for q in (0, 1, 3 if dim > 1 else 2)]
    out += [[("p", 1), ("s", 0)], [("s", 0), ("u", 1), ("s", 1)], [("u", 0), ("p", 1)], [("u", 1), ("s", 0), ("u", 2)]]
    if dim == 3:
        out += [[("d3", 0), ("s", 1)], [("d3", 1), ("p", 0)], [("d2", 0), ("s", 0)], [("d2", 0), ("p", 1)], [("d2", 1), ("d3", 0)], [("s", 0), ("s", 1), ("s", 2)], [("s", 0), ("s", 4), ("p", 0)]]
        # two orbitals on the diamond sites that are swapped by the operations with an odd number of minus signs
        out += [[("Ds", 0)], [("Dp", 0)], [("Dd", 0)], [("Ds", 0), ("s", 0)], [("s", 1), ("Ds", 0)], [("Dp", 0), ("s", 0)], [("p", 0), ("Dp", 0)], [("Dd", 0), ("p", 0)], [("d3", 0), ("Dd", 0)],
                [("Ds", 0), ("Dp", 0)], [("Ds", 0), ("Dd", 0)], [("u", 1), ("Ds", 0)], [("Ds", 1), ("Ds", 0)]]
    return out


def swaps(s):
    """the operation exchanges the two sublattices: an odd number of minus signs (90 degree rotations, inversion)"""
    return int(np.sum(np.asarray(s) < -0.5)) % 2 == 1


def expand(orbs, inversion):
    """orbital blocks: with inversion the two sites become their sum and their difference"""
    out = []
    for k, p in orbs:
        if k[0] != "D":
            out.append((k, p))
        elif inversion:
            out += [(dict(s="s", p="p", d="d3")[k[1]], p), ("-" + k[1], p)]
        else:
            out.append((k, p))
    return out


def make(sym, orbs, P=None):
    hs = HS(sym)
    dim = sym.dim()
    for n, (kind, p) in enumerate(orbs):
        pos = (P or POS[dim])[p]
        name = "%s%d" % (kind, n)
        if kind == "s":
            hs.append_s(pos, name)
        elif kind == "p":
            hs.append_p(pos, name)
        elif kind == "d3":
            hs.append_d3(pos, name)
        elif kind == "d2":
            hs.append_d2(pos, name)
        elif kind[0] == "D":
            getattr(hs, "append_diamond_" + dict(s="s", p="p", d="d3")[kind[1]])(pos, name)
        elif kind == "u":   # one dimensional, odd under inversion
            u = UR(sym, 1)
            u.inv_split = 0
            hs.append(u, pos, name)
    return hs


def expected_U(kind, s, dim):
    """s: element of the proper half (or of the group without inversion)"""
    if kind in ("s", "u"):
        return np.eye(1)
    if kind == "p":
        return s
    if kind[0] == "-":
        return expected_U(dict(s="s", p="p", d="d3")[kind[1]], s, dim) * (-1 if swaps(s) else 1)
    if kind[0] == "D":
        return np.kron(np.array([[0.0, 1], [1, 0]]) if swaps(s) else np.eye(2), expected_U(dict(s="s", p="p", d="d3")[kind[1]], s, dim))
    if kind == "d3":
        return s / np.linalg.det(s)
    A = np.diag([-1.0, -1.0, 2.0]) / np.sqrt(6)
    B = np.diag([1.0, -1.0, 0.0]) / np.sqrt(2)
    return np.array([[np.sum(a * (s @ b @ s.T)) for b in (A, B)] for a in (A, B)])


PAR = {"s": 1, "u": -1, "p": -1, "d3": 1, "d2": 1, "-s": -1, "-p": 1, "-d": -1}


def hamiltonian(nb, H):
    def f(k):
        out = np.zeros(H.shape[1:], complex)
        for r, h in zip(nb, H):
            ph = np.exp(2j * np.pi * (k @ r))
            out += h * ph
            if np.any(r):
                out += np.conj(h.T) * np.conj(ph)
        return out
    return f


class Ref:
    """group mean over the full group, straight from the definition"""

    def __init__(self, sym, orbs, nb, d2flip, P=None):
        self.sym, self.orbs, self.nb = sym, orbs, np.asarray(nb, float)
        dim = sym.dim()
        self.pos = [np.array((P or POS[dim])[p]) for _, p in orbs]
        self.ops = []
        for s in sym.S:
            s = np.asarray(s, float)
            us = []
            for k, _ in orbs:
                u = expected_U(k, s, dim)
                if k == "d2" and d2flip:
                    u = np.diag([1.0, -1.0]) @ u @ np.diag([1.0, -1.0])
                us.append(u)
            self.ops.append((s, us))
            if sym.inversion:
                self.ops.append((-s, [PAR[k] * u for (k, _), u in zip(orbs, us)]))
        self.idx = {}
        for j, r in enumerate(self.nb):
            self.idx.setdefault(tuple((np.round(r, 4) + 0.0).tolist()), (j, False))
        for j, r in enumerate(self.nb):
            self.idx.setdefault(tuple((np.round(-r, 4) + 0.0).tolist()), (j, True))
        dims = [len(u) for u in self.ops[0][1]]
        o = np.concatenate([[0], np.cumsum(dims)]).astype(int)
        self.sl = [slice(a, b) for a, b in zip(o, o[1:])]
        self.N = int(o[-1])
        self.tab = {}
        self.orbital_ok = 0
        for i, r in enumerate(self.nb):
            for a in range(len(orbs)):
                for b in range(len(orbs)):
                    d = r + self.pos[b] - self.pos[a]
                    t = [self.idx.get(tuple((np.round(s @ d + self.pos[a] - self.pos[b], 4) + 0.0).tolist())) for s, _ in self.ops]
                    self.tab[i, a, b] = None if any(x is None for x in t) else t
                    self.orbital_ok += self.tab[i, a, b] is not None

    def mean(self, H):
        H = np.array(H, complex)
        for i, r in enumerate(self.nb):
            if not np.any(r):
                H[i] = (H[i] + np.conj(H[i].T)) / 2
        Hm = np.conj(np.swapaxes(H, -1, -2))
        out = np.zeros_like(H)
        for (i, a, b), t in self.tab.items():
            if t is None:
                continue
            acc = 0
            for (j, mirror), (s, us) in zip(t, self.ops):
                acc = acc + us[a].T @ (Hm if mirror else H)[j][self.sl[a], self.sl[b]] @ us[b]
            out[i][self.sl[a], self.sl[b]] = acc / len(self.ops)
        return out

    def U(self, us):
        M = np.zeros((self.N, self.N))
        for sl, u in zip(self.sl, us):
            M[sl, sl] = u
        return M

    def law(self, k, H, s, us):
        """H(s^-T k) from H(k)"""
        M = self.U(us) @ H @ self.U(us).T
        si = np.linalg.inv(s)
        for a in range(len(self.orbs)):
            for b in range(len(self.orbs)):
                M[self.sl[a], self.sl[b]] = M[self.sl[a], self.sl[b]] * np.exp(2j * np.pi * k @ ((si - np.eye(len(s))) @ (self.pos[a] - self.pos[b])))
        return M


def ok_combo(gname, orbs, dim):
    kinds = {k for k, _ in orbs}
    if gname == "hex2" and kinds & {"p", "d3", "d2"}:
        return False
    if "d2" in kinds and gname not in ("o", "oh"):
        return False
    return True


def cases(tier):
    for gname, ctor in groups().items():
        dim = ctor().dim()
        for li, orbs in enumerate(lists(dim)):
            if not ok_combo(gname, orbs, dim):
                continue
            for ni in range(len(tabs(gname, dim)[1])):
                D = any(o[0][0] == "D" for o in orbs)
                if D and tier == "quick" and ni not in (0, 2):
                    continue
                if tier == "quick" and dim == 3 and not (D and gname in ("oh", "o", "td", "c4i") and ni == 0) and (li * 5 + ni * 3 + len(gname)) % 6 and not (gname == "c4i" and len(orbs) == 2 and ni >= 5):
                    continue
                for complete in (True, False):
                    yield {"group": gname, "orbs": [list(o) for o in orbs], "nb": ni, "complete": complete}


def run(c):
    sym = groups()[c["group"]]()
    dim = sym.dim()
    orbs = [tuple(o) for o in c["orbs"]]
    P, NBS = tabs(c["group"], dim)
    hs = make(sym, orbs, P)
    orbs = expand(orbs, sym.inversion)
    nb = [tuple(map(float, r)) for r in NBS[c["nb"]]]
    if c["complete"]:
        nb = [tuple(r) for r in sym.complete_neighbors(nb)]
    nb = np.array(nb)
    if len(nb) > 40 and TIER == "quick":
        raise Skip()
    d2flip = False
    for k, u in zip([k for k, _ in orbs], hs.U):
        if k == "d2":
            d2flip = np.linalg.norm(np.array([expected_U("d2", np.asarray(s, float), 3) for s in u.sym.S]) - u.U) > 1e-6
    ref = Ref(sym, orbs, nb, d2flip, P)
    require(hs.dim() == ref.N and len(hs) == len(ref.ops), "dimension %d, length %d", hs.dim(), len(hs))
    # representations as specified
    for (kind, p), u, pos, n in zip(orbs, hs.U, hs.pos, range(99)):
        require(np.array_equal(np.asarray(pos), np.array(P[p])), "position")
        require(u.inv_split in (0, u.dim()) and (not sym.inversion or (u.inv_split > 0) == (PAR[kind] > 0)), "parity")
        for m, (s, x) in zip(range(len(sym.S)), zip(sym.S, u.U)):
            close(x, ref.ops[m * (2 if sym.inversion else 1)][1][n], "representation of orbital %d" % n, 1e-7)
    N = ref.N
    fast = hs.symmetrizer(nb)
    size = len(nb) * N * N
    limit = 3 if TIER == "quick" else 200
    units = sorted(set(np.linspace(0, size - 1, min(limit, size)).astype(int)))
    tests = []
    for u in units:
        for ph in (1.0, 1j):
            e = np.zeros(size, complex)
            e[u] = ph
            tests.append(e.reshape(len(nb), N, N))
    X, Y = genc(1, (len(nb), N, N)), genc(2, (len(nb), N, N))
    tests += [X, Y]
    n = 0
    slow = len(ref.ops) * len(nb) * len(orbs) ** 2 > 3000
    for t, C in enumerate(tests):
        C0 = C.copy()
        want = ref.mean(C)
        got = fast(C)
        require(np.array_equal(C, C0), "coefficients modified")
        close(got, want, "prepared symmetrisation (group mean)")
        if not slow or t >= len(tests) - 1:
            close(hs.symmetrize(C, nb), want, "reference symmetrisation (group mean)")
            require(np.array_equal(C, C0), "coefficients modified")
            n += 1
        close(fast(got), got, "idempotent")
        n += 2
    sx, sy = fast(X), fast(Y)
    close(fast(X - 2 * Y), sx - 2 * sy, "linear")
    close(fast(X.real), ref.mean(X.real), "real coefficients")
    if slow:
        close(hs.symmetrize(X, nb), sx, "reference symmetrisation")
    # Hamiltonian
    f = hamiltonian(nb, sx)
    for k in (gen(3, (dim,)), gen(4, (dim,)) * 2):
        H = f(k)
        close(H, np.conj(H.T), "hermitian")
        E = np.linalg.eigvalsh(H)
        for m, (s, us) in enumerate(ref.ops):
            k2 = np.linalg.inv(s).T @ k
            H2 = f(k2)
            close(np.linalg.eigvalsh(H2), E, "bands at the image of k under operation %d" % m)
            close(H2, ref.law(k, H, s, us), "matrix at the image of k under operation %d" % m)
            i, inv = (m // 2, bool(m % 2)) if sym.inversion else (m, False)
            A = hs.apply(k, H, i, inv)
            close(A, H2, "invariance operation applied to the symmetric matrix (operation %d, inversion %s)" % (i, inv))
            close(hs.apply(k, X[0], i, inv), ref.law(k, X[0], s, us), "invariance operation on a generic matrix")
            n += 4
    # from reduced points to all points
    red = np.array([gen(5, (dim,)), gen(6, (dim,)) * 0.5, np.zeros(dim)])
    ks, Hs, order = hs.realize_symmetric(red, np.array([f(k) for k in red]))
    want = {}
    for i, k in enumerate(red):
        for s, _ in ref.ops:
            want[tuple((np.round(np.linalg.inv(s).T @ k, 5) + 0.0).tolist())] = i
    require(len(ks) == len(want) and len(Hs) == len(want) and len(order) == len(want), "%d realised points instead of %d", len(ks), len(want))
    for k, H, i in zip(ks, Hs, order):
        kk = tuple((np.round(k, 5) + 0.0).tolist())
        require(kk in want, "unexpected point %s", kk)
        require(want[kk] == i, "source index")
        close(H, f(k), "realised matrix")
        n += 1
    return {"n": n, "nontrivial": len(ref.ops) > 1 and ref.orbital_ok > 0, "outcome": (c["group"], N, len(nb), ref.orbital_ok)}


# ------------------------------------------------------------------ construction histories
OPSLIST = ["s", "p", "d3", "d2", "ds", "dp", "dd3", "copy", "bad_dim", "bad_mix", "mutate_src", "odd"]


def cmake(root):
    sym = Symmetry.cubic(root == "oh")
    hs = HS(sym)
    return {"h": hs, "root": root, "exp": [], "copies": []}


def rep_ok(u, sym):
    S = [np.asarray(s, float) for s in u.sym.S]
    idx = {key(s): i for i, s in enumerate(S)}
    for a in range(0, len(S)):
        for b in (1, 4, 7, 12, 19):
            c = idx[key(S[a] @ S[b])]
            require(np.linalg.norm(u.U[a] @ u.U[b] - u.U[c]) < 1e-7, "the appended matrices are no representation of the group")
    require(np.linalg.norm(np.einsum("nij,nkj->nik", u.U, u.U) - np.eye(u.dim())) < 1e-7, "not orthogonal")


def ops(root, st, tier):
    return OPSLIST


def cstep(st, op):
    h, n = st["h"], len(st["exp"])
    sym = h.sym
    pos = [0.25 * n, 0.0, -0.5]
    nm = "o%d" % n
    if op in ("s", "p", "d3", "d2"):
        getattr(h, "append_" + op)(pos, nm)
        dim = {"s": 1, "p": 3, "d3": 3, "d2": 2}[op]
        st["exp"].append((nm, dim, PAR[op], tuple(pos)))
    elif op in ("ds", "dp", "dd3"):
        kind = {"ds": "s", "dp": "p", "dd3": "d3"}[op]
        getattr(h, "append_diamond_" + kind)(pos, nm)
        dim = 1 if kind == "s" else 3
        if sym.inversion:
            par = {"s": (1, -1), "p": (-1, 1), "d3": (1, -1)}[kind]
            st["exp"].append((nm + "0", dim, par[0], tuple(pos)))
            st["exp"].append((nm + "1", dim, par[1], tuple(pos)))
        else:
            st["exp"].append((nm, 2 * dim, None, tuple(pos)))
    elif op == "copy":
        old = h
        new = h.copy()
        st["copies"].append((old, list(st["exp"])))
        # the copy owns everything it has
        require(new.sym == old.sym and new.sym is not old.sym, "copied group")
        for a, b in zip(new.U, old.U):
            require(a is not b and not np.shares_memory(a.U, b.U), "copied representation shares memory")
        for a, b in zip(new.pos, old.pos):
            require(not np.shares_memory(a, b), "copied position shares memory")
        st["h"] = new
    elif op == "bad_dim":
        require(raises(lambda: h.append_s([0.0, 0.0], "x"), ValueError), "a position of the wrong dimension is accepted")
        require(raises(lambda: h.append(UR(Symmetry.none(3), 1), pos, "x"), ValueError), "a representation of another group is accepted")
    elif op == "bad_mix":
        u = UR(sym, 2)
        u.inv_split = 1
        require(raises(lambda: h.append(u, pos, "x"), ValueError), "a representation with mixed parity is accepted")
    elif op == "mutate_src":
        u = UR(sym, 1)
        p = np.array(pos)
        h.append(u, p, nm)
        u.U[...] = -1
        u.inv_split = 0
        p += 1
        st["exp"].append((nm, 1, 1, tuple(pos)))
    elif op == "odd":
        u = UR(Symmetry(np.array(sym.S)[[0] + list(range(len(sym.S) - 1, 0, -1))], sym.inversion), 3)
        u.U = np.array(u.sym.S, float)
        u.inv_split = 0
        h.append(u, pos)
        st["exp"].append(("", 3, -1, tuple(pos)))
    return st


def one(h, exp, root):
    require(len(h.U) == len(h.pos) == len(h.names) == len(exp), "%d orbitals instead of %d", len(h.U), len(exp))
    require(h.dim() == sum(e[1] for e in exp), "dimension %d", h.dim())
    require(len(h) == (48 if root == "oh" else 24), "length %d", len(h))
    i = 0
    for (nm, dim, par, pos), u, p, name in zip(exp, h.U, h.pos, h.names):
        require(name == nm and u.dim() == dim and np.allclose(p, pos), "orbital %s", nm)
        close(np.asarray(u.sym.S, float), np.asarray(h.sym.S, float), "order of the operations")
        if root == "oh":
            require((u.inv_split == dim) if par > 0 else u.inv_split == 0, "parity of %s", nm)
        rep_ok(u, h.sym)
        for j in range(dim):
            require(h.get_band_name(i + j) == (nm if dim == 1 else "%s%d" % (nm, j)), "name of band %d is %s", i + j, h.get_band_name(i + j))
        i += dim
    require(raises(lambda: h.get_band_name(i), IndexError), "no IndexError for the band after the last one")


def ccheck(st):
    one(st["h"], st["exp"], st["root"])
    for h, e in st["copies"]:
        one(h, e, st["root"])


def canon(st):
    return (st["root"], tuple(st["exp"]), len(st["copies"]), tuple(tuple(e) for _, e in st["copies"]))


def subs(tier):
    global TIER
    TIER = tier
    return [Enum("symmetrisation", cases, run, "group x orbital list with up to three sites x neighbour list (complete for the group or not) on a basis of coefficients, generic k"),
            BFS("construction", lambda t: ["o", "oh"], cmake, ops, cstep, ccheck, canon, lambda r, t: 3 if t == "quick" else 4, "every sequence of appends, copies and refused appends")]
