"""C03: BandStructureModel in every coefficient basis against orbit-summed Fourier matrices, all edit histories."""
import itertools
import warnings
import numpy as np
import scipy.linalg as sl
from ..core import BFS, Enum, Skip, require
from ..util import gen, genc, herm, gen_k, close, raises, shells
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.symmetry import Symmetry

LEVEL = "model_checking"
ASSUMPTIONS = ["coefficient matrices are hermitian where the code documents it (cosine/sine bases, inversion symmetric groups)",
               "fixed generic matrices and k points"]


def groups(dim):
    I = np.eye(dim)
    g = {"none": Symmetry.none(dim), "inv": Symmetry.inv(dim)}
    if dim == 2:
        g["square"] = Symmetry.square()
        g["mirror"] = Symmetry([I, np.diag([-1.0, 1.0])], inversion=False)
        g["mirror_inv"] = Symmetry([I, np.diag([-1.0, 1.0])], inversion=True)
        g["c4"] = Symmetry.from_generator([[[0, -1], [1, 0]]], False)
    if dim == 3:
        g["cubic"] = Symmetry.cubic(True)
        g["cubic_rot"] = Symmetry.cubic(False)
        g["tetra"] = Symmetry.tetrahedral()
        g["c3"] = Symmetry.even_perm3()
        g["mirror_x"] = Symmetry.mirror_x()
        g["mirror3"] = Symmetry.mirror3(True)
    return g


def reps(sym, nb):
    """one representative per orbit (up to sign)"""
    out = []
    for r in nb:
        r = np.array(r, float)
        if not any(np.linalg.norm(sgn * s @ r - q) < 1e-9 for q in out for s in sym.S for sgn in (1, -1)):
            out.append(r)
    return np.array(out)


class Ref:
    def __init__(self, S, inv, cell, H):
        self.S, self.inv, self.cell, self.H = S, inv, cell, H   # cell = [neighbours], shared between copies

    def f(self, k):
        nb = self.cell[0]
        out = self.H[0].astype(complex)
        for r, m in zip(nb[1:], self.H[1:]):
            c = sum(np.exp(2j * np.pi * np.dot(k, s @ r)) for s in self.S)
            out = out + c * m + np.conj(c) * m.conj().T
        return out

    def n(self):
        return len(self.H[0])

    def copy(self):
        return Ref(self.S, self.inv, self.cell, [m.copy() for m in self.H])


class State:
    def __init__(self, real, ref):
        self.fam, self.cur, self.derived = [(real, ref)], 0, []

    real = property(lambda s: s.fam[s.cur][0])
    ref = property(lambda s: s.fam[s.cur][1])

    def derive(self, real, ref, kind):
        self.fam.append((real, ref))
        self.cur = len(self.fam) - 1
        self.derived.append(kind)


def coeffs(tag, ref_inv, n, count):
    return [herm(tag + i, n) if i == 0 or ref_inv else genc(tag + i, (n, n)) for i in range(count)]


def make(root):
    dim, n = root["dim"], root["n"]
    sym = groups(dim)[root["sym"]]
    nb = reps(sym, shells(dim, root["nn"]))
    real = BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=root["cos"], exp=root["exp"])
    H = coeffs(3, sym.inversion, n, len(nb))
    real.set_params_complex(np.array(H))
    return State(real, Ref([np.array(s, float) for s in sym.S], sym.inversion, [nb.copy()], H))


BASES = [[c, e] for c in (False, True) for e in (False, True)]


def ops(root, st, tier):
    n = st.ref.n()
    dim = len(st.ref.cell[0][0])
    out = [["shift", 0.75], ["scale", -0.5], ["setc", 30]]
    if n > 1:
        out += [["perm", list(range(1, n)) + [0]], ["perm", list(range(n))[::-1]]]
    out += [["transform", "scale"]]
    if len(st.ref.S) == 1 and dim > 1:
        out += [["transform", "gen"]]
    if len(st.derived) < 3:
        out += [["copy"]] + [["convert"] + b for b in BASES]
        if n <= 2:
            out += [["dsum"]]
    if len(st.fam) > 1:
        out += [["swap"]]
    out += [["normalize"]]
    return out


def tmat(dim, name):
    return 2.0 * np.eye(dim) if name == "scale" else np.eye(dim) + 0.3 * gen(51, (dim, dim))


def step(st, op):
    real, ref = st.real, st.ref
    k = op[0]
    if k == "shift":
        H = ref.copy()
        H.H[0] = H.H[0] + op[1] * np.eye(ref.n())
        st.derive(real + op[1], H, "shift")
        st.derived.pop()
    elif k == "scale":
        r = ref.copy()
        r.H = [m * op[1] for m in r.H]
        st.derive(real * op[1], r, "scale")
        st.derived.pop()
    elif k == "setc":
        ref.H = coeffs(op[1], ref.inv, ref.n(), len(ref.H))
        arg = np.array(ref.H)
        arg0 = arg.copy()
        real.set_params_complex(arg)
        require(np.array_equal(arg, arg0), "setting coefficients modified the argument")
        arg[:] = 77   # the caller keeps using its array
    elif k == "perm":
        real.permute(op[1])
        ref.H = [m[op[1]][:, op[1]] for m in ref.H]
    elif k == "transform":
        A = tmat(len(ref.cell[0][0]), op[1])
        real.transform(A)
        ref.cell[0] = ref.cell[0] @ A.T
    elif k == "copy":
        st.derive(real.copy(), ref.copy(), "copy")
    elif k == "convert":
        new = BandStructureModel.init_tight_binding(real.sym, real.neighbors, ref.n(), cos_reduced=op[1], exp=op[2])
        new.set_params_complex(real.params_complex())
        r = ref.copy()
        r.cell = [ref.cell[0].copy()]
        st.derive(new, r, "convert%d%d" % (op[1], op[2]))
    elif k == "dsum":
        other = real * 0.5
        r2 = ref.copy()
        r2.H = [m * 0.5 for m in r2.H]
        st.fam.append((other, r2))
        r = ref.copy()
        r.H = [sl.block_diag(a, b) for a, b in zip(ref.H, r2.H)]
        st.derive(real + other, r, "dsum")
    elif k == "swap":
        st.cur = (st.cur - 1) % len(st.fam)
    elif k == "normalize":
        ks = gen_k(len(ref.cell[0][0]), 3)
        before = np.array([np.linalg.eigvalsh(ref.f(q)) for q in ks])
        real.normalize()
        close(real.bands(ks), before, "bands after normalise", tol=1e-8)
        ref.H = [np.array(m) for m in real.params_complex()]
    else:
        raise AssertionError(op)


def check(st):
    for idx, (real, ref) in enumerate(st.fam):
        who = "current model" if idx == st.cur else "model the current one was derived from/with"
        dim = len(ref.cell[0][0])
        ks = gen_k(dim, 2 if idx != st.cur else 3)
        want = np.array([ref.f(k) for k in ks])
        got = real.f(ks)
        close(got, want, who + ": H(k)")
        if idx != st.cur:
            continue
        close(real.params_complex(), np.array(ref.H), who + ": complex coefficients")
        close(got, np.conj(np.swapaxes(got, -1, -2)), "hermitian matrix", tol=1e-11)
        wb = np.linalg.eigvalsh(want)
        close(real.bands(ks), wb, "bands(k)", tol=1e-8)
        close(real(ks), wb, "model(k)", tol=1e-8)
        close(real.f(ks[0]), want[0], "H(k) for a single k")
        n = ref.n()
        close(real.f(ks[:4].reshape(2, 2, dim)), want[:4].reshape(2, 2, n, n), "H(k) on a grid")
        close(real.bands(ks[0]), wb[0], "bands of a single k", tol=1e-8)
        require(real.band_count() == n, "band_count")
        for s in ref.S:
            for sgn in (1, -1) if ref.inv else (1,):
                close(real.f(sgn * ks[:1] @ s), want[:1], "invariance under the symmetry operation %s" % (sgn * s).tolist(), tol=1e-8)


def canon(st):
    r = st.ref
    return (tuple(tuple(np.round(m, 6).ravel() + 0) for m in r.H), tuple(np.round(r.cell[0], 6).ravel()), st.real.cos_reduced, st.real.exp,
            tuple(st.derived), st.cur, len(st.fam))


def roots(tier):
    out = []
    for dim in (1, 2, 3):
        for sym in groups(dim):
            for n in (1, 2, 3):
                for b in BASES:
                    if tier == "quick" and n == 3 and not (sym in ("none", "square") and dim == 2):
                        continue
                    if tier == "quick" and n == 1 and sym not in ("none", "cubic_rot", "mirror"):
                        continue
                    out.append({"dim": dim, "sym": sym, "n": n, "cos": b[0], "exp": b[1], "nn": {1: 3, 2: 4, 3: 5}[dim]})
    return out


def depth(root, tier):
    if tier == "quick":
        return 2
    return 3


# models with user defined coefficient functions
def custom_cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            for cnt in (1, 2, 3):
                yield {"dim": dim, "n": n, "cnt": cnt}


def custom_run(c):
    dim, n, cnt = c["dim"], c["n"], c["cnt"]
    w = gen(5, (cnt, dim))
    f_i = lambda k, i: np.ones_like(np.asarray(k)[..., 0]) if i == 0 else (np.asarray(k) @ w[i]) ** i * (1 + 0.5j)
    df_i = lambda k, i: np.zeros_like(np.asarray(k)) if i == 0 else (1 + 0.5j) * i * ((np.asarray(k) @ w[i]) ** (i - 1))[..., None] * w[i]
    P = np.array([herm(1, n) if i == 0 else genc(10 + i, (n, n)) for i in range(cnt)])
    m = BandStructureModel(f_i, df_i, P.copy())
    ks = gen_k(dim)
    for q, k in enumerate(ks):
        want = P[0].copy()
        for i in range(1, cnt):
            t = f_i(k, i) * P[i]
            want = want + t + t.conj().T
        close(m.f(ks)[q], want, "matrix of a model with custom functions")
        dw = np.zeros((dim, n, n), complex)
        for i in range(1, cnt):
            t = df_i(k, i)[:, None, None] * P[i]
            dw += t + np.conj(np.swapaxes(t, -1, -2))
        close(m.df(ks)[q], dw, "derivative of a model with custom functions")
    m2 = m.copy()
    m2.params[0] += np.eye(n)
    close(m.params, P, "copy shares its parameters")
    close((m * 2.0).f(ks), 2 * m.f(ks), "scaled custom model")
    close((m + 0.25).bands(ks), m.bands(ks) + 0.25, "shifted custom model")
    require(raises(m.params_complex, ValueError) and raises(lambda: m.transform(np.eye(dim)), ValueError), "neighbour functions of a custom model must be refused")
    return {"n": 2 * len(ks) + 4}


# models initialised from reference data: exact at k=0
def ref_cases(tier):
    for dim in (1, 2, 3):
        for sym in groups(dim):
            for exp in (False, True):
                for nb in (1, 2, 3):
                    for add in (0, 1, 2):
                        for off in range(add + 1):
                            yield {"dim": dim, "sym": sym, "exp": exp, "nb": nb, "add": add, "off": off}


def ref_run(c):
    dim = c["dim"]
    sym = groups(dim)[c["sym"]]
    ks = gen_k(dim, 3)
    ref = np.sort(gen(9, (len(ks), c["nb"])), axis=-1)
    m = BandStructureModel.init_tight_binding_from_ref(sym, reps(sym, shells(dim, 4)), ks, ref, c["off"], c["add"], cos_reduced=True, exp=c["exp"])
    require(m.band_count() == c["nb"] + c["add"], "band count")
    b = m.bands(ks)
    k0 = int(np.argmin(np.linalg.norm(ks, axis=-1)))
    close(b[k0][c["off"]:c["off"] + c["nb"]], ref[k0], "bands at k=0 of a model initialised from data")
    close(m.f(ks), np.conj(np.swapaxes(m.f(ks), -1, -2)), "hermitian")
    return {"n": 3}


def sum_cases(tier):
    for a, b in itertools.product(("float", "complex"), repeat=2):
        for na, nb in itertools.product((1, 2), repeat=2):
            for cos in (False, True):
                for exp in (False, True):
                    for dim in (1, 2, 3):
                        yield {"a": a, "b": b, "na": na, "nb": nb, "cos": cos, "exp": exp, "dim": dim}


def sum_run(c):
    """direct sums of models whose coefficients have different number types, in both orders"""
    ks = gen_k(c["dim"])
    nb = shells(c["dim"], 3)

    def mk(dt, n, tag):
        m = BandStructureModel.init_tight_binding(Symmetry.none(c["dim"]), nb, n, cos_reduced=c["cos"], exp=c["exp"])
        P = np.array([herm(tag + i, n) for i in range(len(m.params))])
        m.params = P if dt == "complex" else np.real(P).copy()
        return m
    A, B = mk(c["a"], c["na"], 3), mk(c["b"], c["nb"], 30)
    fa, fb = A.f(ks), B.f(ks)
    want = np.array([np.block([[x, np.zeros((c["na"], c["nb"]))], [np.zeros((c["nb"], c["na"])), y]]) for x, y in zip(fa, fb)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        close((A + B).f(ks), want, "direct sum of a %s and a %s model" % (c["a"], c["b"]))
    close(A.f(ks), fa, "the first summand changed")
    close(B.f(ks), fb, "the second summand changed")
    return {"n": 3}


# direct sums of models with different groups, bases or neighbours: refused, or correct
def mix_cases(tier):
    for dim in (1, 2, 3):
        names = list(groups(dim))
        for a in names:
            for b in names:
                for ba in itertools.product((False, True), repeat=2):
                    for bb in itertools.product((False, True), repeat=2):
                        yield {"dim": dim, "a": a, "b": b, "ba": list(ba), "bb": list(bb), "nb": "same"}
                    for nb in ("order", "other", "short"):
                        yield {"dim": dim, "a": a, "b": b, "ba": list(ba), "bb": list(ba), "nb": nb}


def mix_run(c):
    dim = c["dim"]
    nb = shells(dim, 4)[:3]
    nb2 = {"same": nb, "order": nb[:1] + nb[:0:-1], "other": [tuple(2 * x for x in r) for r in nb], "short": nb[:2]}[c["nb"]]

    def mk(name, nbs, basis, n, tag):
        m = BandStructureModel.init_tight_binding(groups(dim)[name], nbs, n, cos_reduced=basis[0], exp=basis[1])
        m.params = np.array([herm(tag + i, n) for i in range(len(m.params))]).astype(complex)
        return m
    ks = gen_k(dim)
    A, B = mk(c["a"], nb, c["ba"], 2, 5), mk(c["b"], nb2, c["bb"], 1, 25)
    fa, fb = A.f(ks), B.f(ks)
    try:
        s = A + B
    except (AssertionError, ValueError):
        s = None
    require(s is not None or c["a"] != c["b"] or c["ba"] != c["bb"] or nb != nb2, "the direct sum of models of the same kind is refused")
    if s is not None:
        close(s.f(ks), np.array([np.block([[x, np.zeros((2, 1))], [np.zeros((1, 2)), y]]) for x, y in zip(fa, fb)]), "direct sum of models which are not of the same kind")
        close(s.bands(ks), np.sort(np.concatenate([A.bands(ks), B.bands(ks)], axis=-1), axis=-1), "bands of the direct sum")
    close(A.f(ks), fa, "the first summand changed")
    close(B.f(ks), fb, "the second summand changed")
    return {"n": 3, "nontrivial": s is not None, "outcome": s is not None}


def subs(tier):
    return [Enum("mixed sums", mix_cases, mix_run, "all ordered pairs of groups and bases, equal and unequal neighbours"),
            BFS("edit histories", roots, make, ops, step, check, canon, depth, "all edit sequences in all coefficient bases and groups"),
            Enum("custom functions", custom_cases, custom_run, "all sizes"),
            Enum("number types", sum_cases, sum_run, "all pairs of number types, sizes and bases"),
            Enum("from reference", ref_cases, ref_run, "all groups, band counts and offsets")]
