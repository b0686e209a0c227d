"""C10: unitary representations: algebra of representations, consistency check, symmetrisation of coefficients."""
import itertools
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, genc, close, raises
from .c07 import elements, key, closure
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
import contextlib
import io

LEVEL = "exploration"
ASSUMPTIONS = ["neighbour lists hold one of ±r and are complete for the group; for groups without inversion flag no operation maps a listed vector to the negative of a listed one (asserted by the implementation)",
               "coefficients follow the hermitian sine/cosine convention of this class: C(Sr)=U C(r) U^+ and C(-r)=U_I C(r) U_I",
               "direct sums and products of two representations that are both mixed under inversion are refused (documented ValueError)"]


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


# ------------------------------------------------------------------ menu of representations: name -> (rep, {op key: matrix}) with the map written down independently
C4 = np.array([[0, -1], [1, 0]])
C3 = np.array([[0, -1], [1, -1]])      # crystal coordinates (integer)


def emb(m):
    r = np.eye(3)
    r[:2, :2] = m
    return r


def by_sym(sym, fn, invsign):
    """expected representation: operation -> matrix"""
    out = {}
    for s in sym.S:
        s = np.asarray(s, float)
        out[key(s)] = fn(s)
        if sym.inversion:
            out[key(-s)] = invsign[:, None] * fn(s)
    return out


def d3_expected(s):
    """action on (2z²-x²-y²)/√12-like and (x²-y²)/2-like quadratic functions, sign conventions of the class resolved by the caller"""
    # basis functions as symmetric matrices
    A = np.diag([-1.0, -1.0, 2.0]) / np.sqrt(6)
    B = np.diag([1.0, -1.0, 0.0]) / np.sqrt(2)
    out = np.zeros((2, 2))
    for j, b in enumerate((A, B)):
        img = s @ b @ s.T
        for i, a in enumerate((A, B)):
            out[i, j] = np.sum(a * img)
    return out


def menu():
    M = {}

    def cubic(name, rep, fn, par, inv):
        M[name] = (rep, fn, par, inv)
    perm_sign = lambda s: np.linalg.det(np.abs(s))      # +1 for even permutations of the axes (90° rotations: odd)
    for inv in (True, False):
        for neg in (False, True):
            for odd in (False, True):
                M["one_%d%d%d" % (odd, neg, inv)] = (lambda odd=odd, neg=neg, inv=inv: UR.one_dim(odd, neg, inv), lambda s, odd=odd: np.array([[perm_sign(s) * np.linalg.det(s) ** 0 if odd else 1.0]]), [-1 if neg and inv else 1], inv)
            M["d3_%d%d" % (neg, inv)] = (lambda neg=neg, inv=inv: UR.d3(neg, inv), d3_expected, [-1 if neg and inv else 1] * 2, inv)
    M["o3"] = (lambda: UR.o3(), lambda s: s, [-1] * 3, True)
    M["so3"] = (lambda: UR.so3(), lambda s: s, [1] * 3, True)
    M["o3ri"] = (lambda: UR.o3ri(), lambda s: s * perm_sign(s), [-1] * 3, True)
    M["o3r"] = (lambda: UR.o3r(), lambda s: s * perm_sign(s), [1] * 3, True)
    M["triv_h"] = (lambda: UR(Symmetry.cubic(True), 2), lambda s: np.eye(2), [1, 1], True)
    M["triv_o"] = (lambda: UR(Symmetry.cubic(False), 1), lambda s: np.eye(1), [1], False)
    M["gen_o"] = (lambda: UR.from_generator([np.eye(3), emb(C4), np.roll(np.eye(3), 1, axis=0)], [np.eye(3), emb(C4), np.roll(np.eye(3), 1, axis=0)], inversion=False), lambda s: s, [1] * 3, False)
    return M


# other groups: vector representations from generators
def genmenu():
    G = {}
    mx, my, mz = np.diag([-1., 1, 1]), np.diag([1., -1, 1]), np.diag([1., 1, -1])
    c4, c3z = emb(C4), np.roll(np.eye(3), 1, axis=0)
    G["mirrors"] = [mx, my]
    G["mirror_c2"] = [mx, np.diag([-1., -1, 1])]
    G["c4"] = [c4]
    G["c4v"] = [c4, mx]
    G["c4h"] = [c4, mz]
    G["c3"] = [c3z]
    G["c2"] = [np.diag([-1., -1, 1])]
    G["ci"] = [-np.eye(3)]
    G["c3i"] = [-c3z]
    G["d2h"] = [mx, my, mz]
    G["s4"] = [-c4]
    G["td"] = [-c4, c3z]
    G["o"] = [c4, c3z]
    G["oh"] = [c4, c3z, -np.eye(3)]
    G["c4_2"] = [C4.astype(float)]
    G["c4v_2"] = [C4.astype(float), np.diag([-1., 1])]
    G["m_2"] = [np.diag([-1., 1])]
    G["swap_2"] = [np.array([[0., 1], [1, 0]])]
    G["c2_2"] = [-np.eye(2)]
    G["c4_4"] = [np.kron(np.eye(2), C4)]
    G["i_1"] = [np.array([[-1.]])]
    G["none_1"] = []
    return G


def reps_of(name):
    """one dimensional and vector representations of the generated group, as functions on operations"""
    R = {"vec": lambda s: s, "det": lambda s: np.array([[np.linalg.det(s)]]), "triv": lambda s: np.eye(2), "axial": lambda s: s * np.linalg.det(s),
         "sum": lambda s: np.block([[s, np.zeros((len(s), 1))], [np.zeros((1, len(s))), np.ones((1, 1))]]),
         "rsum": lambda s: np.block([[np.ones((1, 1)), np.zeros((1, len(s)))], [np.zeros((len(s), 1)), s]])}
    if name in ("c3",):
        w = np.exp(2j * np.pi / 3)
        R["complex"] = lambda s: np.array([[w ** (0 if np.trace(s) > 2 else 1 if s[1, 0] == 1 else 2)]])
    if name in ("c4", "c4_2", "c4_4"):
        R["complex"] = lambda s: np.array([[complex(s[0, 0], s[1, 0])]])
    return R


def check_rep(rep, expected, label):
    """expected: dict op key -> unitary for all operations (inversion included)"""
    ops = elements(rep.sym)
    require(len(rep.U) == len(rep.sym.S), "%s: %d matrices for %d operations", label, len(rep.U), len(rep.sym.S))
    require(set(ops) == set(expected), "%s: the operations of the group differ (%d instead of %d)", label, len(ops), len(expected))
    N = rep.dim()
    inv = np.array([1.0] * rep.inv_split + [-1.0] * (N - rep.inv_split))
    got = {}
    for s, u in zip(rep.sym.S, rep.U):
        s = np.asarray(s, float)
        got[key(s)] = np.asarray(u)
        if rep.sym.inversion:
            got[key(-s)] = inv[:, None] * np.asarray(u)
    for k, u in expected.items():
        require(k in got, "%s: operation missing", label)
        close(got[k], u, "%s: matrix of an operation" % label, 1e-7)
    return got


def is_rep(rep):
    """the definition: homomorphism on the listed operations, inversion commutes"""
    S = [np.asarray(s, float) for s in rep.sym.S]
    U = [np.asarray(u) for u in rep.U]
    idx = {key(s): i for i, s in enumerate(S)}
    for a in range(len(S)):
        for b in range(len(S)):
            c = idx.get(key(S[a] @ S[b]))
            if c is None or np.linalg.norm(U[a] @ U[b] - U[c]) > 1e-7:
                return False
    if rep.sym.inversion:
        inv = np.diag([1.0] * rep.inv_split + [-1.0] * (rep.dim() - rep.inv_split))
        return all(np.linalg.norm(inv @ u - u @ inv) < 1e-7 for u in U)
    return True


def good(rep, expected, label):
    got = check_rep(rep, expected, label)
    require(quiet(rep.check), "%s: the built-in check rejects it", label)
    for u in rep.U:
        close(u @ u.conj().T, np.eye(rep.dim()), "%s: unitary" % label, 1e-7)
    require(is_rep(rep), "%s: not a homomorphism", label)
    return len(got)


# full expected maps --------------------------------------------------
OPS = {}


def cubic_ops(inv):
    if inv not in OPS:
        OPS[inv] = [np.array(m) for m in (np.diag(sg)[list(p)] for p in itertools.permutations(range(3)) for sg in itertools.product((1.0, -1.0), repeat=3)) if inv or np.linalg.det(m) > 0]
    return OPS[inv]


def expected(name):
    _, fn, par, inv = menu()[name]
    par = np.array(par, float)
    out = {}
    for m in cubic_ops(inv):
        d = np.linalg.det(m)
        u = np.asarray(fn(m * d), float)      # proper part
        out[key(m)] = par[:, None] * u if d < 0 else u
    return out


def build(name):
    return menu()[name][0]()


def orderings(A, B, invA, invB):
    """block order of a direct sum/product: + entries first"""


def bcases(tier):
    for n in menu():
        yield {"rep": n}


def d3_fix(name, rep, exp):
    return exp


def brun(c):
    rep = build(c["rep"])
    exp = expected(c["rep"])
    if c["rep"].startswith("d3"):
        # the class fixes the two d functions up to the sign of the second one
        flip = np.diag([1.0, -1.0])
        try:
            check_rep(rep, exp, c["rep"])
        except Violation:
            exp = {k: flip @ u @ flip for k, u in exp.items()}
    n = good(rep, exp, c["rep"])
    N = rep.dim()
    # copies are independent
    cp = rep.copy()
    cp.U[...] = 7
    cp.sym.S[...] = 3
    good(rep, exp, c["rep"] + " after its copy changed")
    # permutation of the basis
    for order in itertools.permutations(range(N)):
        r = build(c["rep"])
        P = np.eye(N)[list(order)]
        r.permute(list(order))
        n += good(r, {k: P @ u @ P.T for k, u in exp.items()}, "permuted by %s" % (order,))
        r = build(c["rep"])
        r.permute(np.array(order))
        good(r, {k: P @ u @ P.T for k, u in exp.items()}, "permuted by %s" % (order,))
    # reordered group
    for sh in (1, 5, len(rep.sym.S) - 1):
        idx = [0] + list(np.roll(np.arange(1, len(rep.sym.S)), sh))
        sym = Symmetry(np.array(rep.sym.S)[idx], rep.sym.inversion)
        r = build(c["rep"])
        r.match_sym(sym)
        close(np.asarray(r.sym.S, float), np.asarray(sym.S, float), "order of the matched group")
        n += good(r, exp, "matched to another order")
    for other in (Symmetry.none(3), Symmetry.cubic(not rep.sym.inversion), Symmetry.mirror_x(False, 3), Symmetry.none(2), Symmetry([np.eye(3)] + [emb(C3)] * 0 + list(np.array(rep.sym.S)[1:-1]) + [np.diag([-1.0, 1, 1])], False) if not rep.sym.inversion else Symmetry.none(1)):
        r = build(c["rep"])
        require(raises(lambda: r.match_sym(other), ValueError), "matched to a different group of %d operations", len(other.S))
        good(r, exp, "after a refused match")
    # the built-in check rejects everything that is not a homomorphism
    for i in range(len(rep.U)):
        for kind in range(4):
            r = build(c["rep"])
            r.U = np.array(r.U, float)
            if kind == 0:
                r.U[i] = -r.U[i]
            elif kind == 1:
                r.U[i] = r.U[(i + 1) % len(r.U)]
            elif kind == 2:
                r.U[i, 0, 0] += 0.01
            elif kind == 3:
                r.U[:, :, :] = r.U[np.r_[i, 0:i, i + 1:len(r.U)]]
            require(quiet(r.check) == is_rep(r), "the built-in check says %s for matrices changed at operation %d (kind %d)", quiet(r.check), i, kind)
            n += 1
    if rep.sym.inversion and N > 1:
        for k in range(N + 1):
            r = build(c["rep"])
            r.inv_split = k
            require(quiet(r.check) == is_rep(r), "the built-in check says %s for an inversion with %d positive entries", quiet(r.check), k)
    return {"n": n, "nontrivial": True, "outcome": (c["rep"], n)}


# ------------------------------------------------------------------ sums, repetitions, products
CUB = [n for n in ("one_000", "one_001", "one_101", "one_011", "one_111", "d3_01", "d3_11", "o3", "so3", "o3ri", "o3r", "triv_h", "d3_00", "one_100", "gen_o", "triv_o", "one_010")]


def acases(tier):
    for a in CUB:
        for n in (1, 2, 3):
            yield {"op": "rep", "a": a, "n": n}
        for b in CUB:
            for op in ("add", "mul", "add3", "addmul", "muladd"):
                if op in ("add3", "muladd") and tier == "quick" and (len(a) + len(b)) % 2:
                    continue
                yield {"op": op, "a": a, "b": b}


def parity(rep):
    return np.array([1] * rep.inv_split + [-1] * (rep.dim() - rep.inv_split))


def sortedU(D, par):
    """reorder a representation so that + comes first, stable"""
    order = np.r_[np.where(par > 0)[0], np.where(par < 0)[0]]
    return {k: u[np.ix_(order, order)] for k, u in D.items()}, par[order]


def dsum(A, B):
    return {k: np.block([[A[k], np.zeros((len(A[k]), len(B[k])))], [np.zeros((len(B[k]), len(A[k]))), B[k]]]) for k in A}


def repmap(rep):
    inv = parity(rep)
    out = {}
    for s, u in zip(rep.sym.S, rep.U):
        out[key(np.asarray(s, float))] = np.array(u)
        if rep.sym.inversion:
            out[key(-np.asarray(s, float))] = inv[:, None] * np.array(u)
    return out


def characters(D):
    return {k: np.trace(u) for k, u in D.items()}


def same_character(rep, D, label):
    """equal characters = equivalent representations (blocks may be ordered differently)"""
    got = repmap(rep)
    require(set(got) == set(D), "%s: group", label)
    for k in D:
        close(np.trace(got[k]), np.trace(D[k]), "%s: character" % label, 1e-7)
    require(quiet(rep.check) and is_rep(rep), "%s: not a representation", label)
    for u in rep.U:
        close(u @ np.conj(u.T), np.eye(rep.dim()), "%s: unitary" % label, 1e-7)
    require(len(rep.U) == len(rep.sym.S), "%s: length", label)


def subspace_check(rep, label):
    try:
        groups, counts = rep.subspaces()
    except AssertionError:
        # refused: only allowed if the occupancies are not a clean partition
        occ = np.sum(np.abs(rep.U), axis=0) > 1e-7
        comp = (np.linalg.matrix_power(occ.astype(float), rep.dim()) > 1e-9)
        require(not np.array_equal(comp, occ), "%s: subspaces refused although the blocks are clean", label)
        return 0
    groups = np.asarray(groups)
    require(np.array_equal(groups.sum(0), np.ones(rep.dim())), "%s: the subspaces are no partition of the basis", label)
    close(counts, groups.sum(1), "%s: dimensions of the subspaces" % label)
    for g in groups:
        for u in rep.U:
            require(np.max(np.abs(np.asarray(u)[np.ix_(g, ~g)]), initial=0) < 1e-7, "%s: subspace not invariant", label)
    return len(groups)


def arun(c):
    A = build(c["a"])
    Ad = repmap(A)
    n = 0
    if c["op"] == "rep":
        r = A * c["n"]
        D = {k: np.kron(u, np.eye(c["n"])) for k, u in Ad.items()}
        same_character(r, D, "%d times %s" % (c["n"], c["a"]))
        close(repmap(A)[key(np.eye(3))], np.eye(A.dim()), "operand")
        require(subspace_check(r, "repeated") == c["n"] * subspace_check(A, "single"), "number of subspaces")
        require(r.dim() == A.dim() * c["n"], "dimension")
        return {"n": 3, "nontrivial": True, "outcome": ("rep", c["a"], c["n"])}
    B = build(c["b"])
    # the two groups list their operations in different order
    if len(B.sym.S) > 3:
        B.match_sym(Symmetry(np.array(B.sym.S)[[0] + list(range(len(B.sym.S) - 1, 0, -1))], B.sym.inversion))
    Bd = repmap(B)
    Apar, Bpar = parity(A), parity(B)
    uniform = lambda p: np.all(p == p[0])
    if A.sym.inversion != B.sym.inversion:
        require(raises(lambda: A + B, ValueError), "direct sum over different groups accepted")
        require(raises(lambda: A * B, ValueError), "product over different groups accepted")
        return {"n": 2, "nontrivial": True, "outcome": "refused"}
    before = [np.array(A.U), np.array(A.sym.S), A.inv_split, np.array(B.U), np.array(B.sym.S), B.inv_split]
    if c["op"] == "add":
        r, D = A + B, dsum(Ad, Bd)
    elif c["op"] == "mul":
        r, D = A * B, {k: np.kron(Ad[k], Bd[k]) for k in Ad}
    elif c["op"] == "add3":
        X = A + A
        r = (X + B) + A
        D = dsum(dsum(dsum(Ad, Ad), Bd), Ad)
    elif c["op"] == "addmul":
        X = A + B
        Y = build("one_001" if A.sym.inversion else "one_100")
        r = X * Y * 2
        D = {k: np.kron(np.kron(dsum(Ad, Bd)[k], v), np.eye(2)) for k, v in repmap(Y).items()}
    else:
        X = A + B
        if not uniform(parity(X)):
            require(raises(lambda: X * X, ValueError) and raises(lambda: X + X, ValueError), "two mixed representations must be refused")
            r = A * X
            D = {k: np.kron(Ad[k], v) for k, v in dsum(Ad, Bd).items()}
        else:
            r = X * A
            D = {k: np.kron(v, Ad[k]) for k, v in dsum(Ad, Bd).items()}
    same_character(r, D, c["op"])
    for name, x, y in zip(("U", "S", "split", "U", "S", "split"), before, [np.array(A.U), np.array(A.sym.S), A.inv_split, np.array(B.U), np.array(B.sym.S), B.inv_split]):
        require(np.array_equal(x, y), "operand changed (%s)", name)
    subspace_check(r, c["op"])
    # permutation inside the parity blocks
    p = parity(r)
    order = list(np.where(p > 0)[0][::-1]) + list(np.where(p < 0)[0][::-1])
    P = np.eye(r.dim())[order]
    full = {k: P @ u @ P.T for k, u in repmap(r).items()}
    r.permute(order)
    n += good(r, full, c["op"] + " permuted")
    if len(set(p)) == 2:
        bad = list(range(r.dim()))
        bad[0], bad[-1] = bad[-1], bad[0]
        require(raises(lambda: r.permute(bad), AssertionError), "a permutation that mixes the parities is accepted")
        good(r, full, "after a refused permutation")
    return {"n": n + 8, "nontrivial": True, "outcome": (c["op"], r.dim(), r.inv_split)}


# ------------------------------------------------------------------ generators
def gcases(tier):
    for g in genmenu():
        for rname in reps_of(g):
            for inv in (False, True):
                for neg in (False, True):
                    for withid in (False, True):
                        yield {"group": g, "rep": rname, "inv": inv, "neg": neg, "id": withid}
    for g in ("c4", "mirrors", "o", "c3"):
        yield {"group": g, "rep": "vec", "inv": False, "neg": False, "id": True, "break": True}


def grun(c):
    gens = genmenu()[c["group"]]
    fn = reps_of(c["group"])[c["rep"]]
    dim = 1 if c["group"].endswith("_1") else 2 if c["group"].endswith("_2") else 4 if c["group"].endswith("_4") else 3
    G = ([np.eye(dim)] if c["id"] or not gens else []) + [g.copy() for g in gens]
    D = [np.asarray(fn(g)) for g in G]
    if c.get("break"):
        D[1] = -2 * D[1] if c["group"] != "c3" else -D[1]
        require(raises(lambda: UR.from_generator(G, D, inversion=False)), "generators that do not close were accepted")
        return {"n": 1, "nontrivial": True, "outcome": "refused"}
    full = list(closure(G).values()) if True else None
    hasinv = any(np.allclose(m, -np.eye(dim)) for m in full)
    N = len(D[0])
    if hasinv:
        if dim % 2:
            par = np.real(np.diagonal(fn(-np.eye(dim))))
            if np.any(np.diff(par) > 0):
                require(raises(lambda: UR.from_generator(G, D, c["inv"], c["neg"]), ValueError), "inversion with unsorted parity accepted")
                return {"n": 1, "nontrivial": True, "outcome": "refused"}
        exp = {key(m): fn(m) for m in full}
        if c["inv"] and c["neg"]:
            raise Skip()    # contradicting specification: the generated inversion decides
    else:
        exp = {key(m): np.asarray(fn(m)) for m in full}
        if c["inv"]:
            for m in full:
                exp[key(-m)] = np.asarray(fn(m)) * (-1 if c["neg"] else 1)
    rep = UR.from_generator(G, D, c["inv"], c["neg"])
    n = good(rep, exp, "generated")
    require(rep.dim() == N, "dimension")
    # sums and products of the generated representation
    s = rep + rep if rep.inv_split in (0, N) else None
    if s is not None:
        same_character(s, {k: np.kron(np.eye(2), u) for k, u in exp.items()}, "sum with itself")
        same_character(rep * rep, {k: np.kron(u, u) for k, u in exp.items()}, "product with itself")
    same_character(rep * 2, {k: np.kron(u, np.eye(2)) for k, u in exp.items()}, "twice")
    return {"n": n, "nontrivial": len(full) > 1, "outcome": (c["group"], c["rep"], len(full))}


# ------------------------------------------------------------------ symmetrisation
def srep(name):
    if name == "mix1":
        return UR.one_dim(True, True) + UR.d3(True) + UR.so3()
    if name == "mix2":
        return UR.one_dim(True, False) + UR.d3(False) + UR.o3()
    if name == "d3":
        return UR.d3(False) + UR.one_dim(False, True)
    if name == "prod":
        return UR.o3() * UR.one_dim(True, True) + UR.one_dim(False, True)
    if name == "o_d3":
        return UR.d3(False, False) + UR.one_dim(True, False, False)
    if name == "o_vec":
        return build("gen_o") + UR.one_dim(False, False, False)
    g, r, inv, neg = name.split(":")
    fn = reps_of(g)[r]
    gens = genmenu()[g]
    dim = len(gens[0])
    rep = UR.from_generator([np.eye(dim)] + gens, [np.asarray(fn(x)) for x in [np.eye(dim)] + gens], inv == "1", neg == "1")
    if r in ("vec", "axial", "sum", "rsum"):
        return rep + UR(rep.sym, 1) if rep.inv_split == 0 or rep.inv_split == rep.dim() else rep
    return rep


SREPS = ["mix1", "mix2", "d3", "prod", "o_d3", "o_vec", "c4:vec:0:0", "c4:vec:1:1", "c4:complex:0:0", "c4:complex:1:1", "c4v:vec:0:0", "mirrors:vec:1:1", "mirrors:axial:0:0", "c3:vec:0:0", "c3:complex:1:0", "c3:vec:1:1", "ci:triv:0:0",
         "ci:rsum:1:0", "d2h:rsum:0:0", "c3i:vec:0:0", "s4:vec:0:0", "td:vec:0:0", "o:vec:0:0", "oh:vec:0:0", "d2h:vec:0:0", "m_2:vec:0:0", "m_2:vec:1:1", "c4_2:vec:0:0", "swap_2:vec:0:0", "c2:sum:0:0", "c2:vec:1:1"]
NS = {3: [[(0, 0, 0)], [(0, 0, 0), (0, 0, 1)], [(0, 0, 0), (1, 0, 0), (1, 1, 0)], [(0, 0, 0), (1, 1, 1), (2, 1, 0)], [(1, 1, 0), (0, 0, 0), (2, 0, 0)], [(1, 0, 0)], [(0, 0, 0), (1, 2, 3)], [(0, 0, 0), (2, 1, 3), (0, 0, 1)]],
      2: [[(0, 0)], [(0, 0), (1, 0)], [(0, 0), (1, 0), (1, 1)], [(2, 1), (0, 0)], [(1, 1)], [(0, 0), (1, 2), (0, 1)]],
      1: [[(0,)], [(0,), (1,)]], 4: []}


def scases(tier):
    for r in SREPS:
        dim = 2 if "_2:" in r else 3
        for i in range(len(NS[dim])):
            yield {"rep": r, "nb": i}


def srun(c):
    rep = srep(c["rep"])
    require(quiet(rep.check), "menu")
    N = rep.dim()
    dim = rep.sym.dim()
    nb = np.array(rep.sym.complete_neighbors([tuple(map(float, r)) for r in NS[dim][c["nb"]]]))
    par = parity(rep)
    sgn = par[:, None] * par[None, :]
    idx = {}
    for j, r in enumerate(nb):
        idx[tuple((np.round(r, 6) + 0.0).tolist())] = (j, False)
    for j, r in enumerate(nb):
        idx.setdefault(tuple((np.round(-r, 6) + 0.0).tolist()), (j, True))
    # reference action of every full operation on coefficients:  C'(r) = U^+ C(S r) U
    acts = []
    for s, u in zip(rep.sym.S, rep.U):
        m = []
        mir = False
        for r in nb:
            j, mirror = idx[tuple((np.round(s @ r, 6) + 0.0).tolist())]
            m.append((j, mirror))
            mir |= mirror
        if mir and not rep.sym.inversion:
            raise Skip()
        acts.append((m, np.asarray(u)))
    full = []
    for m, u in acts:
        full.append((m, u))
        if rep.sym.inversion:
            inv = np.diag(par.astype(float))
            # -S r: mirrored exactly if S r is not (and the centre maps onto itself)
            full.append(([(j, not mirror) if np.any(nb[j]) else (j, False) for j, mirror in m], inv @ u))

    def act(C, op):
        m, u = op
        out = np.zeros(C.shape, complex)
        for i, (j, mirror) in enumerate(m):
            h = C[j] * (sgn if mirror and rep.sym.inversion else 1)
            out[i] = np.conj(u.T) @ h @ u
        return out

    def mean(C):
        return sum(act(C, op) for op in full) / len(full)

    fast = rep.symmetrizer(nb)
    n = 0
    size = len(nb) * N * N
    units = range(size) if size <= (18 if TIER == "quick" else 4000) else sorted(set(np.linspace(0, size - 1, 7 if TIER == "quick" else 600).astype(int)))
    tests = []
    for k in units:
        for ph in (1.0, 1j):
            e = np.zeros(size, complex)
            e[k] = ph
            tests.append(e.reshape(len(nb), N, N))
    tests.append(genc(3, (len(nb), N, N)))
    imgs = 0
    for C in tests:
        C0 = C.copy()
        a, b, ref = rep.symmetrize(C, nb), fast(C), mean(C)
        require(np.array_equal(C, C0), "coefficients modified")
        close(a, ref, "reference implementation (group mean)")
        close(b, ref, "prepared implementation (group mean)")
        for op in full:
            close(act(b, op), b, "result not invariant")
        close(fast(b), b, "idempotent")
        close(rep.symmetrize(a, nb), a, "idempotent")
        n += 5
        imgs += np.linalg.norm(ref) > 1e-9
    # linearity and hermiticity on generic coefficients
    X, Y = genc(11, (len(nb), N, N)), genc(12, (len(nb), N, N))
    for f in (fast, lambda C: rep.symmetrize(C, nb)):
        close(f(2 * X - 0.5 * Y), 2 * f(X) - 0.5 * f(Y), "linear")
        H = X + np.conj(np.swapaxes(X, -1, -2))
        h = f(H)
        close(h, np.conj(np.swapaxes(h, -1, -2)), "hermitian")
    # Hamiltonian from the coefficients: the built-in test of an operator accepts exactly symmetric ones (orthogonal operations)
    H = X + np.conj(np.swapaxes(X, -1, -2))
    if rep.sym.inversion and all(np.allclose(s @ s.T, np.eye(dim)) for s in rep.sym.S):
        even = (sgn > 0).astype(float)

        def op(C):
            def f(k):
                ph = 2 * np.pi * np.asarray(k, float) @ nb.T
                return np.einsum("kr,rij->kij", np.cos(ph), C * even) + np.einsum("kr,rij->kij", np.sin(ph), C * (1 - even))
            return f
        require(quiet(rep.check_symmetry, op(fast(H))), "the symmetrised operator is not recognised as symmetric")
        g = genc(13, (len(nb), N, N))
        Hb = fast(H) + 0.1 * (g + np.conj(np.swapaxes(g, -1, -2)))
        # direct decision on a generic point
        k = gen(17, (dim,))
        sym = True
        for s, u in zip(rep.sym.S, rep.U):
            for sg in (1, -1):
                uu = (np.diag(par) if sg < 0 else np.eye(N)) @ u
                sym &= np.linalg.norm(op(Hb)([sg * s @ k])[0] - uu @ op(Hb)([k])[0] @ np.conj(uu.T)) < 1e-9
        require(quiet(rep.check_symmetry, op(Hb)) == sym, "the test of an operator says %s", not sym)
        # matrices on reduced points
        red = np.array([gen(18, (dim,)), 0.5 * gen(19, (dim,)), np.zeros(dim)])
        f = op(fast(H))
        for srt in (False, True):
            ks, Ms = rep.realize_symmetric_matrices(red, f(red), sorted=srt)
            close(np.asarray(Ms), f(ks), "realised matrices on all symmetric points")
            want = {tuple((np.round(sg * s @ k, 6) + 0.0).tolist()) for k in red for s in rep.sym.S for sg in (1, -1)}
            require(len(ks) == len(want) and {tuple((np.round(k, 6) + 0.0).tolist()) for k in ks} == want, "realised points")
            ks, Ms = rep.realize_symmetric_matrices(red, f(red), sorted=srt, inverse=True)
            n += 2
    # matrices on points, each symmetrised with the little group
    pts = np.concatenate([nb, gen(21, (2, dim)), 0.5 * np.eye(dim)[:1]], axis=0)
    M = genc(22, (len(pts), N, N))
    M0 = M.copy()
    if rep.sym.inversion or True:
        R = rep.symmetrize2(pts, M)
        require(np.array_equal(M, M0), "matrices modified")
        for p, m, r in zip(pts, M, R):
            acc, cnt = np.zeros((N, N), complex), 0
            for s, u in zip(rep.sym.S, rep.U):
                for sg in (1, -1) if rep.sym.inversion else (1,):
                    if np.linalg.norm(sg * s @ p - p) < 1e-6:
                        uu = (np.diag(par.astype(float)) if sg < 0 else np.eye(N)) @ u
                        acc = acc + uu @ m @ np.conj(uu.T)
                        cnt += 1
            close(r, acc / cnt, "little group mean at %s" % (p,))
            n += 1
    return {"n": n, "nontrivial": len(full) > 1 and imgs > 0, "outcome": (c["rep"], len(nb), N)}


TIER = "quick"


def subs(tier):
    global TIER
    TIER = tier
    return [Enum("built-in", bcases, brun, "every built-in representation against independently written matrices; every permutation, reordering of the group; every single-operation corruption against the built-in check"),
            Enum("algebra", acases, arun, "every ordered pair of representations x sum, product, triple sum, mixed sums and products, repetitions"),
            Enum("generators", gcases, grun, "every generator set x representation x inversion choice x with/without identity"),
            Enum("symmetrisation", scases, srun, "every representation x neighbour list on a basis of coefficients")]
