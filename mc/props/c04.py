"""C04: normalisation keeps the bands and is repeatable; all model shapes x short edit histories."""
import itertools
import numpy as np
import scipy.linalg as sl
from ..core import Enum, require
from ..util import gen, genc, herm, gen_k, close, shells
from .c03 import groups, reps
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry

LEVEL = "exploration"
ASSUMPTIONS = ["fixed generic matrices; the alphabet of structures is generic, diagonal, degenerate, block diagonal, zero and real"]

STRUCT = ("generic", "diagonal", "degenerate", "blocks", "zero", "real", "nonherm", "double")


def matrices(struct, n, cnt):
    M = [herm(3, n) if i == 0 else genc(10 + i, (n, n)) for i in range(cnt)]
    if struct == "diagonal":
        M[0] = np.diag(gen(4, (n,))).astype(complex)
    elif struct == "degenerate":
        M[0] = np.eye(n, dtype=complex)
    elif struct == "blocks":
        mask = sl.block_diag(np.ones((n // 2, n // 2)), np.ones((n - n // 2, n - n // 2)))
        M = [m * mask for m in M]
    elif struct == "zero":
        M[0] = np.zeros((n, n), complex)
        M = [m if i != 1 else 0 * m for i, m in enumerate(M)]
    elif struct == "real":
        M = [m.real.copy() for m in M]
    elif struct == "nonherm":   # the constant matrix is only hermitian after symmetrisation
        M[0] = M[0] + 0
    elif struct == "double":
        M = [np.kron(m[:(n + 1) // 2, :(n + 1) // 2], np.eye(2)) for m in M]
    return np.array(M)


EDITS = ((), ("perm",), ("scale",), ("shift",), ("transform",), ("copy",), ("perm", "scale"), ("shift", "perm"), ("normalize", "perm"), ("normalize", "scale"),
         ("transform", "normalize", "shift"))


def edit(m, e, n):
    for x in e:
        if x == "perm":
            m.permute(list(range(1, n)) + [0])
        elif x == "scale":
            m = m * -0.5
        elif x == "shift":
            m = m + 0.7
        elif x == "transform":
            m.transform(2 * np.eye(len(m.neighbors[0]) if hasattr(m, "neighbors") else m.dim()))
        elif x == "copy":
            m = m.copy()
        elif x == "normalize":
            m.normalize()
    return m


def cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
            for struct in STRUCT:
                for S in (None, "const", "kdep"):
                    if struct == "real" and S == "kdep":
                        continue
                    for e in EDITS:
                        yield {"dim": dim, "n": n, "struct": struct, "S": S, "edits": list(e)}


def run(c):
    dim, n = c["dim"], c["n"]
    nb = shells(dim, 4 if dim > 1 else 3)
    M = matrices(c["struct"], n, len(nb))
    n = len(M[0])
    S = None
    if c["S"]:
        snb = nb[:1] if c["S"] == "const" else nb
        Sr = [np.eye(n) + 0.2 * herm(5, n) if i == 0 else 0.03 * genc(20 + i, (n, n)) for i in range(len(snb))]
        if c["struct"] == "blocks":
            Sr = [s * (np.abs(M[1]) > 0) for s in Sr]
        S = HermitianFourierSeries(np.array(snb), np.array(Sr))
    m = edit(AsymTightBindingModel(HermitianFourierSeries(np.array(nb), M), S), c["edits"], n)
    twin = m.copy()
    ks = gen_k(dim, 4)
    k0 = np.zeros((1, dim))
    before = m.bands(ks)
    Hb = twin.H.f(ks)
    nbb = m.H.neighbors.copy()
    blocks = None
    if c["struct"] == "blocks" and "perm" not in c["edits"]:
        blocks = np.abs(M[1]) > 0
    m.normalize()
    sc = max(1.0, float(np.max(np.abs(before))))
    close(m.bands(ks), before, "bands after normalise", tol=1e-8)
    H0 = m.H.f(k0)[0]
    close(H0, np.diag(np.diag(H0)), "H(0) is diagonal", tol=1e-8)
    close(np.sort(np.diag(H0).real), m.bands(k0)[0], "diagonal of H(0)", tol=1e-8)
    close(m.S.f(k0)[0], np.eye(n), "S(0) is the identity", tol=1e-8)
    close(m.H.neighbors, nbb, "neighbours")
    Hk = m.H.f(ks)
    close(Hk, np.conj(np.swapaxes(Hk, -1, -2)), "hermitian", tol=1e-9)
    close(twin.H.f(ks), Hb, "normalising changed a copy")
    close(twin.bands(ks), before, "normalising changed the bands of a copy")
    if blocks is not None:
        close(Hk * ~blocks, 0 * Hk, "block structure of a direct sum", tol=1e-7)
    m.normalize()
    H1 = m.H.f(k0)[0]
    # eigenvectors of a degenerate H(0) may mix, which may reorder the (equal set of) diagonal elements
    close(np.sort(np.diag(H1).real), np.sort(np.diag(H0).real), "second normalise changes the diagonal at k=0", tol=1e-7)
    if n > 1 and np.min(np.diff(np.sort(np.diag(H0).real))) > 1e-3:
        close(np.diag(H1), np.diag(H0), "second normalise changes the diagonal at k=0", tol=1e-7)
    close(H1, np.diag(np.diag(H1)), "H(0) is diagonal after the second normalise", tol=1e-8)
    close(m.bands(ks), before, "bands after second normalise", tol=1e-8)
    if n > 1 and np.min(np.diff(np.sort(np.diag(H0).real))) > 1e-3:
        close(np.abs(m.H.f(ks)), np.abs(Hk), "second normalise changes more than phases", tol=1e-7)
    return {"n": 12, "outcome": np.round(before.sum(), 6)}


def bcases(tier):
    for dim in (1, 2, 3):
        for sym in groups(dim):
            for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                for struct in ("generic", "diagonal", "degenerate", "zero", "double"):
                    for cos in (False, True):
                        for exp in (False, True):
                            for e in EDITS:
                                if len(e) > 1 and sym not in ("none", "inv", "square") and tier == "quick":
                                    continue
                                yield {"dim": dim, "sym": sym, "n": n, "struct": struct, "cos": cos, "exp": exp, "edits": list(e)}


def brun(c):
    dim, n = c["dim"], c["n"]
    sym = groups(dim)[c["sym"]]
    nb = reps(sym, shells(dim, {1: 3, 2: 4, 3: 5}[dim]))
    M = matrices(c["struct"], n, len(nb))
    if sym.inversion:
        M = (M + np.conj(np.swapaxes(M, -1, -2))) / 2
    n = len(M[0])
    m = BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=c["cos"], exp=c["exp"])
    m.set_params_complex(M)
    m = edit(m, c["edits"], n)
    twin = m.copy()
    ks = gen_k(dim, 4)
    before = m.bands(ks)
    Hb = m.f(ks)
    nbb = np.array(m.neighbors)
    m.normalize()
    close(m.bands(ks), before, "bands after normalise", tol=1e-8)
    Hk = m.f(ks)
    close(Hk, np.conj(np.swapaxes(Hk, -1, -2)), "hermitian", tol=1e-9)
    close(twin.f(ks), Hb, "normalising changed a copy")
    close(m.neighbors, nbb, "neighbours")
    D = m.f(np.zeros((1, dim)))[0] if c["cos"] else m.params_complex()[0]
    close(D, np.diag(np.diag(D)), "constant matrix (k=0 matrix of a cosine-reduced model) is diagonal", tol=1e-8)
    m.normalize()
    close(m.bands(ks), before, "bands after second normalise", tol=1e-8)
    D2 = m.f(np.zeros((1, dim)))[0] if c["cos"] else m.params_complex()[0]
    close(D2, D, "second normalise changes the diagonal", tol=1e-7)
    if n > 1 and np.min(np.diff(np.sort(np.diag(D).real))) > 1e-3:
        close(np.abs(m.f(ks)), np.abs(Hk), "second normalise changes more than phases", tol=1e-7)
    return {"n": 8, "outcome": np.round(before.sum(), 6)}


def scases(tier):
    for dim in (2, 3):
        for sym in groups(dim):
            for tag in range(2):
                yield {"dim": dim, "sym": sym, "tag": tag}


def srun(c):
    """with a symmetriser, normalisation is exactly that symmetriser"""
    dim = c["dim"]
    sym = groups(dim)[c["sym"]]
    hs = HamiltonianSymmetry(sym)
    hs.append_s((0,) * dim, "a")
    if dim == 3:
        hs.append_p((0,) * dim, "a")
    else:
        hs.append_s((0,) * dim, "b")
    nb = sym.complete_neighbors(shells(dim, 4))
    n = hs.dim()
    m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, n, cos_reduced=False, exp=True)
    m.set_params_complex(np.array([herm(3 + i, n) if i == 0 else genc(9 + i + c["tag"], (n, n)) for i in range(len(nb))]))
    m.symmetrizer = hs.symmetrizer(nb)
    want = m.symmetrizer(m.params.copy())
    m.normalize()
    close(m.params, want, "normalise of a model with symmetriser")
    ks = gen_k(dim)
    b = m.bands(ks)
    m.normalize()
    close(m.bands(ks), b, "bands after the second normalise", tol=1e-8)
    m2 = m.copy()
    m2.normalize()
    close(m2.params, want, "copy keeps the symmetriser", tol=1e-8)
    return {"n": 3}


SEDITS = ("copy", "perm", "rev", "shift", "scale", "transform", "sum_plain", "sum_sym", "sum_self", "plain_sum", "normalize")


def sh_cases(tier):
    for dim in (2, 3):
        for sym in groups(dim):
            for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                if d > 1 and dim == 3 and (tier == "quick" or d > 2):
                    continue
                if d == 3 and (sym not in ("square", "c4") if tier == "quick" else sym in ("none",)):
                    continue
                if d == 4 and sym != "square":
                    continue
                for e in itertools.product(SEDITS, repeat=d):
                    if sum("sum" in x for x in e) <= (1 if d < 3 else 2):
                        yield {"dim": dim, "sym": sym, "edits": list(e)}


_SH = {}


def sh_models(dim, name):
    """(model with symmetriser and matching parameters, a different one, model without symmetriser)"""
    if (dim, name) not in _SH:
        sym = groups(dim)[name]
        nb = sym.complete_neighbors(shells(dim, 4))
        out = []
        for tag in range(2):
            hs = HamiltonianSymmetry(sym)
            hs.append_s((0,) * dim, "a")
            if tag or dim == 3:
                hs.append_p((0,) * dim, "a")
            if dim == 2:
                hs.append_s((0,) * dim, "b")
            n = hs.dim()
            out.append((n, hs.symmetrizer(nb), np.array([herm(3 + i, n) if i == 0 else genc(9 + i + 50 * tag, (n, n)) for i in range(len(nb))])))
        out.append((2, None, np.array([herm(60 + i, 2) if i == 0 else genc(60 + i, (2, 2)) for i in range(len(nb))])))
        _SH[dim, name] = nb, [(n, f, M if f is None else f(M.copy())) for n, f, M in out]
    nb, data = _SH[dim, name]
    ms = []
    for n, f, M in data:
        m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, n, cos_reduced=False, exp=True)
        m.set_params_complex(M.copy())
        m.symmetrizer = f
        ms.append(m)
    return ms


def sh_run(c):
    """a symmetric model stays symmetric under every edit, so that normalising it changes nothing at all; a part without symmetriser stays too"""
    dim = c["dim"]
    m, other, plain = sh_models(dim, c["sym"])
    twin = m
    tb = m.f(gen_k(dim, 3))
    for x in c["edits"]:
        n = m.band_count()
        if x == "copy":
            m = m.copy()
        elif x == "perm":
            m = m.copy()
            m.permute(list(range(1, n)) + [0])
        elif x == "rev":
            m = m.copy()
            m.permute(np.arange(n)[::-1])
        elif x == "shift":
            m = m + 0.7
        elif x == "scale":
            m = m * -0.5
        elif x == "transform":
            A = np.eye(dim)
            A[0, 1] = 1.0
            # the neighbours of all models of one sum have to agree; models derived from each other share them
            for q in {id(q.neighbors): q for q in (m, twin, other, plain)}.values():
                q.transform(A)
            tb = None
        elif x == "sum_plain":
            m = m + plain
        elif x == "sum_sym":
            m = m + other
        elif x == "sum_self":
            m = m + m
        elif x == "plain_sum":
            m = plain + m
        elif x == "normalize":
            m = m.copy()
            m.normalize()
    ks = gen_k(dim, 3)
    before = m.bands(ks)
    Hb = m.f(ks)
    n = m.band_count()
    for rep in ("", " (second)"):
        m.normalize()
        require(m.band_count() == n, "normalise%s changes the number of bands: %s", rep, m.band_count())
        close(m.bands(ks), before, "bands after normalise" + rep, tol=1e-8)
        close(m.f(ks), Hb, "Hamiltonian of a symmetric model after normalise" + rep, tol=1e-8)
    if tb is not None and m is not twin:
        close(twin.f(ks), tb, "the original model", tol=1e-10)
    return {"n": 3 + len(c["edits"]), "outcome": np.round(before.sum(), 6)}


def subs(tier):
    return [Enum("asymmetric models", cases, run, "structures x overlaps x edit histories"),
            Enum("band structure models", bcases, brun, "structures x bases x groups x edit histories"),
            Enum("models with symmetriser", scases, srun, "groups"),
            Enum("edit histories of models with symmetriser", sh_cases, sh_run, "groups x edit histories (copy, permutation, shift, scaling, transformation, direct sums)")]
