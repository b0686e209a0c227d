"""C01: AsymTightBindingModel / HermitianFourierSeries against a dictionary {R: matrix}, all edit histories."""
import itertools
import warnings
import numpy as np
import scipy.linalg as sl
from ..core import BFS, Enum, Skip, Violation, require
from ..util import gen, genc, herm, gen_k, close, raises, shells
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries

LEVEL = "model_checking"
ASSUMPTIONS = ["matrix entries and k points are fixed generic reals: two Fourier sums that agree at 5 generic k for the "
               "explored neighbour sets are treated as equal", "numpy/scipy eigen solvers are trusted"]


class Ref:
    """boring reference: dict R -> matrix for H and for S"""

    def __init__(self, H, S=None):
        self.H, self.S = H, S

    def copy(self):
        return Ref({r: m.copy() for r, m in self.H.items()}, None if self.S is None else {r: m.copy() for r, m in self.S.items()})

    def n(self):
        return len(self.H[self.zero()])

    def dim(self):
        return len(next(iter(self.H)))

    def zero(self):
        return (0.0,) * self.dim()

    @staticmethod
    def ev(d, k):
        out = 0
        for r, m in d.items():
            t = np.exp(2j * np.pi * np.dot(k, r)) * m
            out = out + (t if not any(r) else t + t.conj().T)
        return out

    def f(self, k):
        return self.ev(self.H, k)

    def s(self, k):
        return np.eye(self.n()) if self.S is None else self.ev(self.S, k)

    def bands(self, k):
        return sl.eigh(self.f(k), self.s(k), eigvals_only=True)


def key(r):
    return tuple(round(float(x), 12) + 0.0 for x in r)


def neigh_sets(dim):
    a = [tuple(map(float, r)) for r in shells(dim, 3)]
    # generic (non lattice) positions, as used after a transformation to cartesian coordinates
    b = [(0.0,) * dim, tuple(gen(31, (dim,))), tuple(gen(32, (dim,)) * 2)]
    # both r and -r listed
    c = [(0.0,) * dim, tuple([1.0] + [0.0] * (dim - 1)), tuple([-1.0] + [0.0] * (dim - 1))]
    return [a, b, c]


def make_pair(root):
    dim, nset, n, skind = root["dim"], root["nset"], root["bands"], root["S"]
    nb = neigh_sets(dim)[nset]
    Hr = np.array([herm(3, n) if i == 0 else genc(10 + i, (n, n)) for i in range(len(nb))])
    S = Sd = None
    if skind:
        snb = nb if skind == "same" else nb[:1] if skind == "const" else [nb[0], tuple(-x for x in nb[1]), tuple(np.array(nb[1]) * 2)]
        Sr = np.array([np.eye(n) + 0.2 * herm(5, n) if i == 0 else 0.05 * genc(20 + i, (n, n)) for i in range(len(snb))])
        S = HermitianFourierSeries(np.array(snb), Sr.astype(complex))
        Sd = {key(r): m.copy() for r, m in zip(snb, Sr)}
    real = AsymTightBindingModel(HermitianFourierSeries(np.array(nb), Hr.copy()), S)
    return real, Ref({key(r): m.copy() for r, m in zip(nb, Hr)}, Sd)


class State:
    def __init__(self, real, ref):
        self.fam = [(real, ref)]   # every model object that exists, the current one is self.cur
        self.cur = 0
        self.derived = []

    @property
    def real(self):
        return self.fam[self.cur][0]

    @property
    def ref(self):
        return self.fam[self.cur][1]

    def derive(self, real, ref, kind):
        self.fam.append((real, ref))
        self.cur = len(self.fam) - 1
        self.derived.append(kind)


def transforms(dim):
    A = np.eye(dim) + 0.3 * gen(51, (dim, dim))
    return {"gen": A, "scale2": 2 * np.eye(dim), "shear": np.eye(dim) + np.eye(dim, k=1)}


def ops(root, st, tier):
    dim, n = st.ref.dim(), st.ref.n()
    e = np.zeros(dim)
    e[0] = 3
    f = np.zeros(dim)
    f[-1] = 4
    g = -e
    out = [["add", [e.tolist()]], ["add", [f.tolist(), (e + f).tolist()]], ["limit", 1.0], ["limit", 0.0], ["count", 1], ["count", 2], ["count", 99],
           ["cleanup", 1e-9], ["cleanup", 0.6], ["scale", -0.5], ["shift", 0.75], ["set", 5]]
    if dim == 1:
        out[1] = ["add", [[4.0], [7.0]]]
    out += [["limit", float(np.median([np.linalg.norm(r) for r in st.ref.H]))]]
    if len(st.ref.H) > 1:
        first = [list(r) for r in st.ref.H if any(r)][0]
        out += [["add", [first]], ["add", [first, [9.0] * dim]]]
    if n > 1:
        out += [["perm", list(range(1, n)) + [0]], ["perm", list(range(n))[::-1]]]
    out += [["transform", t] for t in transforms(dim)]
    if len(st.derived) < 2:
        out += [["copy"], ["mulcopy", 2.0], ["setfrom"]]
        if n <= 2:
            out += [["dsum"]]
        if st.ref.S is None:
            out += [["hsum"]] if n <= 2 else []
    if len(st.fam) > 1:
        out += [["swap"]]
    if st.ref.S is not None:
        out += [["saddlimit", 0.0]]
    return out


def step(st, op):
    real, ref = st.real, st.ref
    kind = op[0]
    if kind == "add":
        new = [key(r) for r in op[1]]
        dup = [r for r in new if any(np.linalg.norm(np.subtract(r, q)) < 1e-5 for q in ref.H)]
        if dup and len(new) > 1:
            require(raises(lambda: real.H.add_neighbors(np.array(op[1])), ValueError), "duplicate among several new neighbours was accepted")
        else:
            real.H.add_neighbors(np.array(op[1]) if sum(op[1][0]) > 3.5 else [tuple(r) for r in op[1]])
            if not dup:
                for r in new:
                    ref.H[r] = np.zeros((ref.n(), ref.n()), complex)
    elif kind in ("limit", "cleanup", "count"):
        before = len(ref.H)
        if kind == "limit":
            got = real.H.limit_neighbors(op[1])
            ref.H = {r: m for r, m in ref.H.items() if np.linalg.norm(r) <= op[1] + 1e-8}
        elif kind == "cleanup":
            got = real.H.cleanup_neighbors(op[1])
            ref.H = {r: m for r, m in ref.H.items() if not any(r) or np.linalg.norm(m) >= op[1]}
        else:
            got = real.H.limit_neighbor_count(op[1])
            want = sorted(np.linalg.norm(r) for r in ref.H)[:op[1]]
            kept = [min(ref.H, key=lambda q: np.linalg.norm(np.subtract(r, q))) for r in real.H.neighbors]
            close(real.H.neighbors, kept, "kept neighbours")
            close(sorted(np.linalg.norm(r) for r in kept), want, "lengths of the neighbours kept by count")
            require(len(set(kept)) == len(kept) and all(r in ref.H for r in kept), "neighbour count limit invents neighbours %s", kept)
            ref.H = {r: ref.H[r] for r in kept}
        require(got == before - len(ref.H), "%s reports %s removed neighbours instead of %s", kind, got, before - len(ref.H))
    elif kind == "scale":   # in place scaling of the stored coefficients
        real.set_from_complex(real.params_complex() * op[1])
        ref.H = {r: m * op[1] for r, m in ref.H.items()}
    elif kind == "set":
        new = {r: (herm(op[1], ref.n()) if not any(r) else genc(op[1] + i, (ref.n(), ref.n()))) for i, r in enumerate(ref.H)}
        real.set_from_complex([new[min(new, key=lambda q: np.linalg.norm(np.subtract(r, q)))] for r in real.H.neighbors])
        ref.H = new
    elif kind == "perm":
        o = op[1]
        real.permute(o)
        ref.H = {r: m[o][:, o] for r, m in ref.H.items()}
        if ref.S is not None:
            ref.S = {r: m[o][:, o] for r, m in ref.S.items()}
    elif kind == "transform":
        A = transforms(ref.dim())[op[1]]
        A2 = A.copy()
        real.transform(A)
        require(np.array_equal(A, A2), "transform modified its argument")
        ref.H = {key(A @ np.array(r)): m for r, m in ref.H.items()}
        if ref.S is not None:
            ref.S = {key(A @ np.array(r)): m for r, m in ref.S.items()}
    elif kind == "saddlimit":
        real.S.limit_neighbors(op[1])
        ref.S = {r: m for r, m in ref.S.items() if np.linalg.norm(r) <= op[1] + 1e-8}
    elif kind == "shift":
        st.derive(real + op[1], Ref(shifted(ref, op[1]), ref.copy().S), "shift")
    elif kind == "mulcopy":
        st.derive(real * op[1], Ref({r: m * op[1] for r, m in ref.H.items()}, ref.copy().S), "mul")
    elif kind == "copy":
        st.derive(real.copy(), ref.copy(), "copy")
    elif kind == "setfrom":
        c = real.copy()
        c.set_from_complex(real.params_complex())
        st.derive(c, ref.copy(), "setfrom")
    elif kind in ("dsum", "hsum"):
        other = (real * 0.5).copy()
        oref = Ref({r: m * 0.5 for r, m in ref.H.items()}, ref.copy().S)
        H = {r: sl.block_diag(m, oref.H[r]) for r, m in ref.H.items()}
        S = None if ref.S is None else {r: sl.block_diag(m, oref.S[r]) for r, m in ref.S.items()}
        if kind == "dsum":
            new = real + other
        else:
            new = AsymTightBindingModel(real.H.direct_sum(other.H))
        st.fam.append((other, oref))
        st.derive(new, Ref(H, S), kind)
    elif kind == "swap":
        st.cur = (st.cur - 1) % len(st.fam)
    else:
        raise AssertionError(op)


def shifted(ref, e):
    H = {r: m.copy() for r, m in ref.H.items()}
    for r, m in (ref.S or {ref.zero(): np.eye(ref.n())}).items():
        H[r] = H.get(r, 0) + e * m
    return H


def check(st):
    for idx, (real, ref) in enumerate(st.fam):
        who = "current model" if idx == st.cur else "model the current one was derived from/with"
        dim, n = ref.dim(), ref.n()
        require(real.dim() == dim and real.band_count() == n, "%s: dim/band_count %s/%s instead of %s/%s", who, real.dim(), real.band_count(), dim, n)
        ks = gen_k(dim, 3)
        want = np.array([ref.f(k) for k in ks])
        close(real.H.f(ks), want, who + ": H(k)")
        close(real.S.f(ks), np.array([ref.s(k) for k in ks]), who + ": S(k)")
        require(len(real.params_complex()) == len(real.H.neighbors), "%s: %s coefficients for %s neighbours", who, len(real.params_complex()), len(real.H.neighbors))
        require(np.linalg.norm(real.H.neighbors[0]) == 0, "%s: first neighbour is not 0", who)
        if idx == st.cur:
            wb = np.array([ref.bands(k) for k in ks])
            close(real.bands(ks), wb, who + ": bands(k)", tol=1e-8)
            close(real(ks), wb, who + ": model(k)", tol=1e-8)
            close(real.H.f(ks[0]), want[0], who + ": H(k) for a single k")
            k2 = ks[:4].reshape(2, 2, dim)
            close(real.H.f(k2), want[:4].reshape(2, 2, n, n), who + ": H(k) for a grid of k")
            close(real.bands(ks[0]), wb[0], who + ": bands of a single k", tol=1e-8)
            close(real.bands(k2), wb[:4].reshape(2, 2, n), who + ": bands of a grid of k", tol=1e-8)
            close(real.bands([list(k) for k in ks]), wb, who + ": bands of a list of k", tol=1e-8)


def canon(st):
    def c(d):
        return None if d is None else tuple(sorted((tuple(np.round(r, 6) + 0), tuple(np.round(m, 6).ravel() + 0)) for r, m in d.items()))
    order = tuple(tuple(np.round(r, 6) + 0) for r in st.real.H.neighbors)
    return (c(st.ref.H), c(st.ref.S), order, tuple(st.derived), st.cur)


def roots(tier):
    out = []
    for dim in (1, 2, 3):
        for nset in (0, 1, 2):
            for n in (1, 2, 3):
                for s in (None, "const", "same", "other"):
                    if tier == "quick":
                        if s is None and (dim, nset, n) not in [(1, 0, 1), (1, 0, 2), (2, 0, 2), (3, 0, 2), (2, 1, 2), (3, 1, 1), (1, 2, 1), (2, 2, 2), (2, 0, 3)]:
                            continue
                        if s is not None and (dim, nset, n) not in [(1, 0, 2), (2, 0, 2)] and (s, dim, nset, n) != ("other", 3, 0, 1):
                            continue
                    out.append({"dim": dim, "nset": nset, "bands": n, "S": s})
    return out


def make(root):
    return State(*make_pair(root))


# unit matrix series and empty models, for every size
def basic_cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            for cnt in (1, 2, 4):
                yield {"dim": dim, "n": n, "neighbors": cnt}


def basic_run(c):
    nb = shells(c["dim"], c["neighbors"])
    ks = gen_k(c["dim"])
    u = HermitianFourierSeries.unit_matrix(nb, c["n"])
    close(u.f(ks), np.array([np.eye(c["n"])] * len(ks)), "unit matrix series")
    require(u.dim() == c["dim"], "dimension of the series")
    m = AsymTightBindingModel.new(nb, c["n"])
    close(m.bands(ks), np.zeros((len(ks), c["n"])), "bands of an empty model")
    m2 = AsymTightBindingModel.new(nb, c["n"])
    m.H.H_r[0] += np.eye(c["n"])
    close(m2.bands(ks), np.zeros((len(ks), c["n"])), "bands of a second empty model")
    require(raises(lambda: HermitianFourierSeries([(1.0,) * c["dim"]] * 2, np.zeros((2, 1, 1)))), "a series without leading zero neighbour is accepted")
    # each single coefficient on its own: f_i and f are the same thing
    for i in range(len(nb)):
        close(u.f_i(ks, i), np.exp(2j * np.pi * ks @ np.array(nb[i], float)), "f_i")
    return {"n": 4 + len(nb)}


DERIVE = {"copy": lambda m: m.copy(), "shift": lambda m: m + 0.5, "scale": lambda m: m * 2.0, "sum": lambda m: m + m.copy(), "series": lambda m: AsymTightBindingModel(m.H.copy(), m.S.copy())}
WRITE = {"H": lambda m: m.H.H_r, "S": lambda m: m.S.H_r, "H neighbors": lambda m: m.H.neighbors, "S neighbors": lambda m: m.S.neighbors}


def write_cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2):
            for overlap in (False, True):
                for d in DERIVE:
                    for w in WRITE:
                        if "neighbors" in w and d not in ("copy", "series"):
                            continue
                        for back in (False, True):
                            yield {"dim": dim, "n": n, "overlap": overlap, "derive": d, "write": w, "back": back}


def write_run(c):
    """writing into the arrays of a model leaves the models it was derived from (or which were derived from it) alone"""
    dim, n = c["dim"], c["n"]
    nb = shells(dim, 3)
    S = HermitianFourierSeries(np.array(nb, float), np.array([np.eye(n) + 0j] + [0.05 * genc(17 + i, (n, n)) for i in range(1, len(nb))])) if c["overlap"] else None
    m = AsymTightBindingModel(HermitianFourierSeries(np.array(nb, float), np.array([herm(3, n)] + [genc(3 + i, (n, n)) for i in range(1, len(nb))])), S)
    d = DERIVE[c["derive"]](m)
    ks = gen_k(dim, 3)
    a, b = (d, m) if c["back"] else (m, d)
    want = b.bands(ks), b.H.f(ks), b.S.f(ks)
    WRITE[c["write"]](a)[...] *= 3.0
    for got, w, what in zip((b.bands(ks), b.H.f(ks), b.S.f(ks)), want, ("bands", "H(k)", "S(k)")):
        close(got, w, f"{what} after an in-place edit of the {'derived' if c['back'] else 'original'} model")
    return {"n": 3}


def sum_cases(tier):
    for a, b in itertools.product(("int", "float", "complex"), repeat=2):
        for na, nb in itertools.product((1, 2), repeat=2):
            for how in ("add", "direct_sum"):
                for ov in ("none", "both", "second"):
                    for dim in (1, 2):
                        if ov == "none" or how == "add":
                            yield {"a": a, "b": b, "na": na, "nb": nb, "how": how, "S": ov, "dim": dim}


def sum_run(c):
    """direct sums of series with different number types"""
    ks = gen_k(c["dim"])
    nb = shells(c["dim"], 3)

    def mk(dt, n, tag):
        P = np.array([herm(tag, n)] + [genc(tag + i, (n, n)) for i in (1, 2)])
        P = {"int": np.rint(10 * P.real).astype(int), "float": P.real.copy(), "complex": P}[dt]
        S = None
        if c["S"] == "both" or (c["S"] == "second" and tag == 30):
            Q = np.array([np.eye(n) + 0j] + [0.05 * genc(tag + 7 + i, (n, n)) for i in (1, 2)])
            S = HermitianFourierSeries(nb, Q if dt == "complex" else Q.real)
        elif c["S"] != "none":
            S = HermitianFourierSeries.unit_matrix(nb, n)
        return AsymTightBindingModel(HermitianFourierSeries(nb, P), S)
    A, B = mk(c["a"], c["na"], 3), mk(c["b"], c["nb"], 30)
    ba, bb = A.bands(ks), B.bands(ks)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = A + B if c["how"] == "add" else AsymTightBindingModel(A.H.direct_sum(B.H))
        close(res.bands(ks), np.sort(np.concatenate([ba, bb], axis=-1), axis=-1), "bands of the direct sum of a %s and a %s model" % (c["a"], c["b"]))
    close(A.bands(ks), ba, "the first summand changed")
    close(B.bands(ks), bb, "the second summand changed")
    return {"n": 3}


NBSETS = {"same": lambda n: n, "reversed order": lambda n: [n[0]] + n[:0:-1], "negated": lambda n: [tuple(-x for x in r) for r in n],
          "fewer": lambda n: n[:-1], "only zero": lambda n: n[:1], "one differs": lambda n: n[:-1] + [tuple(2 * x for x in n[-1])], "scaled": lambda n: [tuple(1.5 * x for x in r) for r in n]}


def mix_cases(tier):
    for dim in (1, 2, 3):
        for first, second in itertools.product(NBSETS, repeat=2):
            for ov in (False, True):
                for n in (1, 2):
                    yield {"dim": dim, "first": first, "second": second, "overlap": ov, "n": n}


def mix_run(c):
    """direct sums of models with different neighbours: refused or exact"""
    ks = gen_k(c["dim"])
    nb = [tuple(map(float, r)) for r in shells(c["dim"], 4)]

    def mk(sel, n, tag):
        b = np.array(NBSETS[sel](nb), float)
        P = np.array([herm(tag, n)] + [genc(tag + i, (n, n)) for i in range(1, len(b))])
        S = HermitianFourierSeries(b.copy(), np.array([np.eye(n) + 0j] + [0.05 * genc(tag + 7 + i, (n, n)) for i in range(1, len(b))])) if c["overlap"] else None
        return AsymTightBindingModel(HermitianFourierSeries(b, P), S)
    A, B = mk(c["first"], 1, 3), mk(c["second"], c["n"], 30)
    ba, bb = A.bands(ks), B.bands(ks)
    res = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for how in ("add", "direct_sum"):
            try:
                got = A + B if how == "add" else A.H.direct_sum(B.H)
            except (NotImplementedError, ValueError, AssertionError):
                require(c["first"] != c["second"], "the same neighbours are refused")
                res = "refused"
                continue
            if how == "add":
                close(got.bands(ks), np.sort(np.concatenate([ba, bb], axis=-1), axis=-1), "bands of the direct sum")
            else:
                close(got.f(ks), np.array([sl.block_diag(x, y) for x, y in zip(A.H.f(ks), B.H.f(ks))]), "direct sum of the series")
            res = "summed"
    close(A.bands(ks), ba, "the first summand changed")
    close(B.bands(ks), bb, "the second summand changed")
    return {"n": 4, "nontrivial": True, "outcome": res}


def subs(tier):
    return [BFS("edit histories", roots, make, ops, step, check, canon, lambda r, t: 3 if t == "quick" else 4,
                "all sequences of edits of one model and of the models derived from it, compared after every edit"),
            Enum("in-place edits of derived models", write_cases, write_run, "derivations x arrays x directions"),
            Enum("number types", sum_cases, sum_run, "all pairs of number types, sizes, overlaps"),
            Enum("different neighbours", mix_cases, mix_run, "all pairs of neighbour sets: equal, permuted, negated, shorter, other"),
            Enum("empty and unit models", basic_cases, basic_run, "all sizes")]
