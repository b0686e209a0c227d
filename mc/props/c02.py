"""C02: every analytic derivative equals the derivative of the function the same model returns."""
import itertools
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, genc, herm, gen_k, close, shells
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries, free_electron_model_orthogonal
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.bulk_properties import FreeElectrons
from tight_binding_redweasel.symmetry import Symmetry
from tight_binding_redweasel.linalg import eigh_grad_hess

LEVEL = "exploration"
ASSUMPTIONS = ["8th order central differences (h=0.004) stand for the true derivative, compared to 1e-6 relative",
               "coefficient matrices and k points are fixed generic reals or special points"]

C1 = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])
C2 = np.array([-1 / 560, 8 / 315, -1 / 5, 8 / 5, -205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560])


def d1(fun, ks, d, h):
    """derivative of fun (batch of k -> array) in direction d"""
    e = np.zeros(ks.shape[-1])
    e[d] = h
    return sum(c * np.asarray(fun(ks + j * e)) for c, j in zip(C1, range(-4, 5)) if c) / h


def d2(fun, ks, a, b, h):
    if a == b:
        e = np.zeros(ks.shape[-1])
        e[a] = h
        return sum(c * np.asarray(fun(ks + j * e)) for c, j in zip(C2, range(-4, 5))) / h**2
    return d1(lambda k: d1(fun, k, a, h), ks, b, h)


def fd(fun, ks, tol=1e-7):
    """first derivatives (N, dim, ...), with a mask of the entries where the difference quotient is converged"""
    dim = ks.shape[-1]
    a, b = (np.stack([d1(fun, ks, d, h) for d in range(dim)], axis=1) for h in (H, H / 3))
    return b, np.abs(a - b) < tol * max(1.0, np.max(np.abs(b)))


def fd2(fun, ks, tol=1e-6):
    dim = ks.shape[-1]
    a, b = (np.stack([np.stack([d2(fun, ks, p, q, h) for p in range(dim)], axis=1) for q in range(dim)], axis=1) for h in (H, H / 2))
    return b, np.abs(a - b) < tol * max(1.0, np.max(np.abs(b)))


def agree(got, want_ok, msg, tol, sel=None):
    want, ok = want_ok
    require(np.shape(got) == want.shape, "%s: shape %s instead of %s", msg, np.shape(got), want.shape)
    if sel is not None:
        ok = ok & sel
    close(np.where(ok, got, 0), np.where(ok, want, 0), msg, tol)
    return int(ok.sum())


def build(c):
    kind, dim, n = c["kind"], c["dim"], c["n"]
    nb = shells(dim, 4 if dim > 1 else 3)
    rng = 40 + 7 * c.get("tag", 0)
    Hr = np.array([herm(rng, n) + np.diag(np.arange(n)) * c.get("gap", 1.0) if i == 0 else 0.3 * genc(rng + i, (n, n)) for i in range(len(nb))])
    if c.get("deg"):
        Hr = np.array([np.kron(m, np.eye(2)) for m in Hr]) if c["deg"] == "double" else Hr
        if c["deg"] == "graph":   # graphene like touching
            Hr = np.zeros((len(nb), 2, 2), complex)
            Hr[0, 0, 1] = Hr[0, 1, 0] = 1
            for i in (1, 2):
                Hr[i, 0, 1] = 1
    if kind == "asym":
        S = None
        m = len(Hr[0])
        if c["S"]:
            snb = nb[:1] if c["S"] == "const" else nb
            Sr = np.array([np.eye(m) + 0.2 * herm(5, m) if i == 0 else 0.04 * genc(20 + i, (m, m)) for i in range(len(snb))])
            if c.get("deg") == "double":
                Sr = np.array([np.kron(x[::2, ::2], np.eye(2)) for x in Sr])
                # a basis in which the equal bands are not separate blocks
                B = np.eye(m) + 0.3 * genc(33, (m, m))
                Sr, Hr = B.conj().T @ Sr @ B, B.conj().T @ Hr @ B
            S = HermitianFourierSeries(np.array(snb), Sr)
        elif c.get("deg") == "double":
            B = np.linalg.qr(genc(33, (m, m)))[0]
            Hr = B.conj().T @ Hr @ B
        model = AsymTightBindingModel(HermitianFourierSeries(np.array(nb), Hr), S)
        if c.get("norm"):
            model.normalize()
        if c.get("cart"):
            model.transform(np.eye(dim) + 0.3 * gen(51, (dim, dim)))
        return model
    if kind == "tb":
        if c.get("deg"):
            B = np.linalg.qr(genc(33, (len(Hr[0]),) * 2))[0]
            Hr = B.conj().T @ Hr @ B
        m = TightBindingModel(UnitaryRepresentation(Symmetry.none(dim), len(Hr[0])), np.array(nb, float), None)
        m.set_from_complex(Hr)
        return m
    if kind == "tbrep":
        from .c26 import setup, params
        r, _, nbs = setup(c)
        m = TightBindingModel(r, nbs, 0.5 * params(r, nbs, 90))
        m.normalize()
        return m
    if kind == "band":
        sym = SYMS[c["sym"]](dim)
        m = BandStructureModel.init_tight_binding(sym, orbit_reps(sym, nb), len(Hr[0]), cos_reduced=c["cos"], exp=c["exp"])
        for i in range(len(m.params)):
            m.params[i] = herm(rng + i, len(Hr[0])) * (1 if i == 0 else 0.3)
        if c["exp"]:
            for i in range(1, len(m.params)):
                m.params[i] += 0.1j * herm(rng + 50 + i, len(Hr[0]))
        m.params[0] += np.diag(np.arange(len(Hr[0])) * c.get("gap", 1.0))
        if c.get("deg"):
            m.params = np.array([np.kron(p[:n // 2 or 1, :n // 2 or 1], np.eye(2)) for p in m.params])
        return m
    raise AssertionError


SYMS = {"none": Symmetry.none, "inv": lambda d: Symmetry.inv(d),
        "mirror": lambda d: Symmetry.mirror_x() if d == 3 else Symmetry([np.eye(d), np.diag([-1.0] + [1.0] * (d - 1))], inversion=False),
        "cubic": lambda d: Symmetry.cubic(True) if d == 3 else Symmetry.square(),
        "cubic_noinv": lambda d: Symmetry.cubic(False) if d == 3 else Symmetry([np.eye(2), np.array([[0., -1], [1, 0]]), -np.eye(2), np.array([[0., 1], [-1, 0]])], inversion=False)}


def orbit_reps(sym, nb):
    out = []
    for r in nb:
        if not any(np.linalg.norm(sgn * s @ np.array(r, float) - q) < 1e-9 for q in out for s in sym.S for sgn in (1, -1)):
            out.append(np.array(r, float))
    return np.array(out)


def cases(tier):
    dims = (1, 2, 3)
    for dim in dims:
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            for S in (None, "const", "kdep"):
                for cart in (False, True):
                    yield {"kind": "asym", "dim": dim, "n": n, "S": S, "cart": cart}
                yield {"kind": "asym", "dim": dim, "n": n, "S": S, "cart": False, "norm": True}
            yield {"kind": "tb", "dim": dim, "n": n}
            for sym in SYMS:
                if dim == 1 and sym not in ("none", "inv"):
                    continue
                for cos in (False, True):
                    for exp in (False, True):
                        yield {"kind": "band", "dim": dim, "n": n, "sym": sym, "cos": cos, "exp": exp}
        for rep in {1: ["inv1"], 2: ["inv2", "m_2:vec:1:1", "none2_2"], 3: ["inv3_odd", "ci:rsum:1:0", "c2:vec:1:1", "oh3e", "d3", "mix1", "none2"]}[dim]:
            for nb in range(1, 4):
                yield {"kind": "tbrep", "dim": dim, "n": 0, "rep": rep, "nb": nb}
        if tier != "quick":
            for tag in range(1, 9):
                for S in (None, "const", "kdep"):
                    yield {"kind": "asym", "dim": dim, "n": 3, "S": S, "cart": True, "tag": tag}


H = 0.004


def special(dim):
    return [[a] * dim for a in (0.0, 0.5)] + [[0.25] + [0.0] * (dim - 1)]


def run(c):
    model = build(c)
    dim = c["dim"]
    ks = np.concatenate([gen(17, (3, dim)), np.array(special(dim))])
    n = 0
    mats = [("H", model.H), ("S", model.S)] if c["kind"] == "asym" else [("H", model)]
    for name, m in mats:
        df, ddf = m.df(ks), m.ddf(ks)
        wd = np.stack([d1(m.f, ks, d, H) for d in range(dim)], axis=1)
        close(df, wd, name + ": first derivative", tol=1e-7)
        wdd = np.stack([np.stack([d2(m.f, ks, a, b, H) for a in range(dim)], axis=1) for b in range(dim)], axis=1)
        close(ddf, wdd, name + ": second derivative", tol=1e-6)
        # single k and grids of k
        close(m.df(ks[0]), df[0], name + ": first derivative at a single k")
        close(m.ddf(ks[0]), ddf[0], name + ": second derivative at a single k")
        k4 = ks[:4].reshape(2, 2, dim)
        close(m.df(k4), df[:4].reshape((2, 2) + df.shape[1:]), name + ": first derivative on a grid")
        close(m.ddf(k4), ddf[:4].reshape((2, 2) + ddf.shape[1:]), name + ": second derivative on a grid")
        n += 6
        if c["kind"] not in ("tb", "tbrep"):
            for i in range(len(m.H_r) if hasattr(m, "H_r") else len(m.params)):
                fi = lambda k: m.f_i(k, i)
                close(m.df_i(ks, i) + np.zeros((len(ks), dim)), np.stack([d1(fi, ks, d, H) for d in range(dim)], axis=1) + np.zeros((len(ks), dim)), "coefficient function derivative", tol=1e-7)
                close(m.ddf_i(ks, i) + np.zeros((len(ks), dim, dim)), np.stack([np.stack([d2(fi, ks, a, b, H) for a in range(dim)], axis=1) for b in range(dim)], axis=1), "coefficient function second derivative", tol=1e-6)
                n += 2
    bands = model.bands(ks)
    b1, g1 = model.bands_grad(ks)
    b2, g2, h2 = model.bands_grad_hess(ks)
    close(b1, bands, "bands returned with gradients")
    close(b2, bands, "bands returned with Hessians")
    # separated bands only (the difference quotient of touching bands is meaningless)
    gap = sep(bands, 0.02)
    wg = fd(model.bands, ks)
    cnt = agree(g1, wg, "band gradient", 2e-6, gap[:, None, :])
    agree(g2, wg, "band gradient returned with the Hessian", 2e-6, gap[:, None, :])
    wt = fd(lambda k: model.bands(k).sum(-1), ks)
    agree(g1.sum(-1), wt, "sum of all band gradients", 2e-6)
    agree(g2.sum(-1), wt, "sum of all band gradients returned with the Hessian", 2e-6)
    cnt2 = agree(h2, fd2(model.bands, ks), "band Hessian", 2e-5, gap[:, None, None, :])
    n += 7
    # the k points one by one: no shortcut for a whole batch may change the result
    for i in range(len(ks)):
        one = ks[i:i + 1]
        for want, got, what in zip((bands, g1, b2, g2, h2), (model.bands(one),) + tuple(model.bands_grad(one))[1:] + tuple(model.bands_grad_hess(one)), ("bands", "gradients", "bands with Hessians", "gradients with Hessians", "Hessians")):
            s1 = gap[i].reshape((1,) * (np.ndim(want) - 1) + (-1,))
            close(np.where(s1, got, 0)[0], np.where(s1, want[i:i + 1], 0)[0], what + " of a single k differ from the same k in a batch", 1e-7)
            n += 1
    # a single k and a grid of k points, as accepted by the matrices
    for sel, shape in ((slice(0, 1), ()), (slice(0, 4), (2, 2))):
        got = (model.bands(ks[sel].reshape(shape + (dim,))),) + tuple(model.bands_grad(ks[sel].reshape(shape + (dim,)))) + tuple(model.bands_grad_hess(ks[sel].reshape(shape + (dim,))))
        for want, g, what in zip((bands, b1, g1, b2, g2, h2), got, ("bands", "bands with gradients", "gradients", "bands with Hessians", "gradients with Hessians", "Hessians")):
            require(np.shape(g) == shape + want.shape[1:], "shape of the %s of k points of the shape %s is %s", what, shape, np.shape(g))
            s1 = gap[sel].reshape(shape + (1,) * (np.ndim(want) - 2) + (-1,))
            close(np.where(s1, g, 0), np.where(s1, want[sel].reshape(shape + want.shape[1:]), 0), what + " of k points of another shape", 1e-7)
            n += 1
    return {"n": n, "nontrivial": cnt > 0 and cnt2 > 0, "outcome": np.round(bands.sum(), 6)}


def sep(bands, eps):
    """mask of the bands which are separated from all others"""
    d = np.abs(bands[..., :, None] - bands[..., None, :]) + np.eye(bands.shape[-1]) * 1e9
    return np.min(d, axis=-1) > eps


# touching bands: slopes along each axis of the general model, traces for the other
def deg_cases(tier):
    for dim in (1, 2, 3):
        for n in (2, 4):
            for sym in ("none", "inv"):
                for cos in (False, True):
                    for exp in (False, True):
                        yield {"kind": "band", "dim": dim, "n": n, "sym": sym, "cos": cos, "exp": exp, "deg": "double"}
        for n in (1, 2):
            yield {"kind": "asym", "dim": dim, "n": n, "S": None, "deg": "double"}
            yield {"kind": "asym", "dim": dim, "n": n, "S": "const", "deg": "double"}
            yield {"kind": "asym", "dim": dim, "n": n, "S": "full", "deg": "double"}
            yield {"kind": "tb", "dim": dim, "n": n, "deg": "double"}
    yield {"kind": "asym", "dim": 2, "n": 2, "S": None, "deg": "graph"}
    yield {"kind": "cross", "dim": 1}
    yield {"kind": "cross", "dim": 2}
    yield {"kind": "cross", "dim": 3}


def deg_run(c):
    dim = c["dim"]
    if c["kind"] == "cross":
        # crossing linear bands with equal energies at k=0 and a third separate band
        nb = shells(dim, 1 + dim)
        m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, 3, exp=True)
        P = np.zeros((len(nb), 3, 3), complex)
        P[0] = np.diag([0, 0, 5.0])
        for i in range(1, len(nb)):
            t = 0.1 * i
            P[i][0, 0], P[i][1, 1], P[i][2, 2] = -0.5j * t, 0.5j * (t + 0.1), 0.2
        U = np.linalg.qr(genc(3, (3, 3)))[0]
        m.set_params_complex(np.array([U @ p @ U.conj().T for p in P]))
        ks = np.zeros((1, dim))
        b, g, h = m.bands_grad_hess(ks)
        close(b, m.bands(ks), "bands at a crossing")
        for i, r in enumerate(nb[1:], 1):
            d = int(np.argmax(np.abs(r)))
            if sum(map(abs, r)) != 1:
                continue
            # slopes of the two crossing branches, in order of the axis
            sl = sorted(sum(2 * np.pi * rr[d] * v for rr, v in zip(nb[1:], [x(j) for j in range(1, len(nb))])) for x in
                        (lambda j: 0.1 * j, lambda j: -(0.1 * j + 0.1)))
            close(np.sort(g[0, d, :2]), sl, "slopes of the crossing branches", tol=1e-6)
        return {"n": dim + 1}
    model = build(c)
    ks = np.concatenate([gen(17, (3, dim)), np.array(special(dim))])
    bands = model.bands(ks)
    b1, g1 = model.bands_grad(ks)
    close(b1, bands, "bands returned with gradients")
    wt = fd(lambda k: model.bands(k).sum(-1), ks)
    agree(g1.sum(-1), wt, "sum of band gradients at touching bands", 2e-6)
    wg = fd(model.bands, ks)
    if c["deg"] == "double":
        b2, g2, h2 = model.bands_grad_hess(ks)
        close(b2, bands, "bands returned with Hessians")
        agree(g2.sum(-1), wt, "sum of band gradients at touching bands (Hessian)", 2e-6)
        one = model.bands_grad_hess(ks[0])
        for x, y in zip(one, (b2, g2, h2)):
            close(x, y[0], "bands, gradients, Hessians of a single k", tol=1e-7)
        # every band occurs exactly twice, so the sorted bands are smooth and have these derivatives
        s = sep(bands[:, ::2], 0.02).repeat(2, axis=-1)
        agree(g2, wg, "gradients of pairwise equal bands", 2e-6, s[:, None, :])
        agree(h2, fd2(model.bands, ks), "Hessians of pairwise equal bands", 2e-5, s[:, None, None, :])
        # rounding may make two bands exactly equal or not: many k
        km = gen(19, (40 if c["n"] < 4 else 12, dim))
        bm, gm, hm = model.bands_grad_hess(km)
        s = sep(bm[:, ::2], 0.02).repeat(2, axis=-1)
        agree(gm, fd(model.bands, km), "gradients of pairwise equal bands (many k)", 2e-6, s[:, None, :])
        agree(hm, fd2(model.bands, km), "Hessians of pairwise equal bands (many k)", 2e-5, s[:, None, None, :])
    if c["deg"] == "double":
        pair = fd(lambda k: model.bands(k).reshape(len(k), -1, 2).sum(-1), ks)
        agree(g1.reshape(g1.shape[:2] + (-1, 2)).sum(-1), pair, "pair sums of gradients", 2e-6, sep(bands[:, ::2], 0.02)[:, None, :])
    return {"n": 6}


# a separated band above two touching ones: its Hessian must not depend on the basis of the touching ones
def mixed_cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2):
            for where in ("below", "above"):
                for cos in (False, True):
                    for exp in (False, True):
                        yield {"dim": dim, "n": n, "where": where, "cos": cos, "exp": exp}


def mixed_run(c):
    dim, n = c["dim"], c["n"]
    nb = shells(dim, 4 if dim > 1 else 3)
    m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, 2 + n, cos_reduced=c["cos"], exp=c["exp"])
    Hr = np.array([0.2 * genc(60 + i, (2 + n, 2 + n)) for i in range(len(nb))])
    # at k=0: two equal bands, the others separated
    off = np.arange(1, n + 1) * (2.0 if c["where"] == "above" else -2.0)
    Hr[0] = 0
    Hr[0] = np.diag(np.concatenate([[0, 0], off])) - sum(h + h.conj().T for h in Hr[1:])
    m.set_params_complex(Hr)
    ks = np.zeros((2, dim))
    ks[1] = gen(3, (dim,))
    bands = m.bands(ks)
    b, g, h = m.bands_grad_hess(ks)
    close(b, bands, "bands")
    s = sep(bands, 0.05)
    require(s[0].sum() == n, "construction")
    c1 = agree(g, fd(m.bands, ks), "gradient of the separated band", 2e-6, s[:, None, :])
    c2 = agree(h, fd2(m.bands, ks), "Hessian of the separated band", 2e-5, s[:, None, None, :])
    return {"n": 3, "nontrivial": c1 > 0 and c2 > 0}


# all ways in which n levels can touch, directly on the eigenvalue routine
def compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        out = [1]
        for b in bits:
            if b:
                out[-1] += 1
            else:
                out.append(1)
        yield out


def mult_cases(tier):
    for n in range(1, 5 if tier == "quick" else 7):
        comps = list(compositions(n))
        for m in (1, 2, 3):
            for batch in ("each", "together", "grid"):
                for kind in ("diag", "full"):
                    if batch == "each":
                        for comp in comps:
                            yield {"n": n, "m": m, "batch": batch, "kind": kind, "comps": [comp]}
                    else:
                        yield {"n": n, "m": m, "batch": batch, "kind": kind, "comps": comps}


def mult_run(c):
    """H(x) = E + x V + x^2 W/2 with the level multiplicities of every composition; oracle: degenerate perturbation theory by hand"""
    n, m = c["n"], c["m"]
    Hs, dHs, ddHs, Es = [], [], [], []
    for t, comp in enumerate(c["comps"]):
        E = np.concatenate([[1.7 * g] * k for g, k in enumerate(comp)])
        U = np.linalg.qr(genc(70 + t, (n, n)))[0]
        if c["kind"] == "diag":
            V = np.array([np.diag(gen(80 + t + 13 * i, (n,))) for i in range(m)]).astype(complex)
        else:
            V = np.array([herm(80 + t + 13 * i, n) for i in range(m)])
        W = np.array([[herm(200 + t + min(i, j) + 5 * max(i, j), n) for j in range(m)] for i in range(m)])
        rot = lambda x: U @ x @ U.conj().T
        Hs.append(rot(np.diag(E).astype(complex)))
        dHs.append(rot(V))
        ddHs.append(rot(W))
        Es.append((E, comp, V, W))
    H_, dH, ddH = np.array(Hs), np.array(dHs), np.array(ddHs)
    if c["batch"] == "grid":
        pad = lambda x: np.concatenate([x, x], axis=0).reshape((2, len(x)) + x.shape[1:])
        la, g, h = (x[1] for x in eigh_grad_hess(pad(H_), pad(dH), pad(ddH)))
    else:
        la, g, h = eigh_grad_hess(H_, dH, ddH)
    cnt = 0
    for t, (E, comp, V, W) in enumerate(Es):
        close(la[t], E, "eigenvalues")
        start = 0
        for k in comp:
            sl = slice(start, start + k)
            rest = [j for j in range(n) if not start <= j < start + k]
            start += k
            second = lambda vec, i, j: np.real(vec.conj() @ W[i][j] @ vec) + 2 * np.real(sum((vec.conj() @ V[i][:, q]) * (V[j][q] @ vec) / (E[sl][0] - E[q]) for q in rest))
            for i in range(m):
                slopes, ev = np.linalg.eigh(V[i][sl, sl])
                full = np.zeros((n, k), complex)
                full[sl] = ev
                order = np.argsort(g[t, i, sl])
                close(np.sort(g[t, i, sl]), slopes, "slopes of the branches of a level with multiplicity %d" % k, 1e-6)
                cnt += 1
                if k == 1 or m == 1:
                    close(h[t, i, i, sl][order], [second(full[:, a], i, i) for a in range(k)], "curvature of the branches", 1e-6)
                    cnt += 1
            if k == 1:
                vec = np.eye(n)[:, sl][:, 0]
                close(h[t][..., sl][..., 0], [[second(vec, i, j) for j in range(m)] for i in range(m)], "Hessian of a single level", 1e-6)
            else:
                # the trace over the level does not depend on the basis
                P = np.eye(n)[:, sl]
                tr = np.array([[sum(second(P[:, a].astype(complex), i, j) for a in range(k)) for j in range(m)] for i in range(m)])
                close(h[t][..., sl].sum(-1), tr, "sum of the Hessians of a level", 1e-6)
            cnt += 1
    return {"n": cnt}


def fe_cases(tier):
    nbs = list(itertools.product((-1, 0, 1), repeat=3))
    for cnt in (1, 2, 3, 5, 27):
        for lim in (None, 1, 2, 4):
            yield {"cnt": cnt, "limit": lim}


def fe_run(c):
    nbs = sorted(itertools.product((-1, 0, 1), repeat=3), key=lambda r: sum(map(abs, r)))[:c["cnt"]]
    m = FreeElectrons(nbs, c["limit"])
    ks = gen(3, (4, 3)) * 0.5
    bands = m(ks)
    nb = min(c["cnt"], c["limit"] or 99)
    want = np.sort(3.80998211 * (2 * np.pi)**2 * np.array([[np.sum((k - np.array(n))**2) for n in nbs] for k in ks]), axis=-1)[:, :nb]
    close(bands, want, "free electron bands")
    b1, g1 = m.bands_grad(ks)
    b2, g2, h2 = m.bands_grad_hess(ks)
    close(b1, bands, "bands with gradients")
    close(b2, bands, "bands with Hessians")
    wg = fd(m, ks)
    cnt = agree(g1, wg, "free electron gradient", 1e-6)
    agree(g2, wg, "free electron gradient", 1e-6)
    agree(h2, fd2(m, ks), "free electron Hessian", 1e-5)
    return {"n": 6, "nontrivial": cnt > 0}


def ep_cases(tier):
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            for sym in ("none", "inv", "cubic_noinv") if dim > 1 else ("none", "inv"):
                for cos in (False, True):
                    for exp in (False, True):
                        yield {"kind": "band", "dim": dim, "n": n, "sym": sym, "cos": cos, "exp": exp}


def ep_run(c):
    """g = (v_i(k1) - v_j(k2)) <i k1|j k2>, compared up to the phases of the eigenvectors"""
    m = build(c)
    dim = c["dim"]
    ks = gen(19, (5, dim)) * 0.4
    bands = m.bands(ks)
    if not np.all(sep(bands, 0.02)):
        raise Skip
    ev = np.linalg.eigh(m.f(ks))[1]
    v = m.bands_grad(ks)[1]
    cnt = 0
    idx = [[0], [4], [0, 1, 2, 3, 4], [3, 1], [2, 2], [], slice(None), slice(1, 3), np.array([True, False, True, False, True])]
    for i1, i2 in itertools.product(idx, idx):
        b, vv, g = m.electron_phonon_coupling(ks, i1, i2)
        close(b, bands, "bands")
        close(vv, v, "velocities")
        o = np.einsum("aki,bkj->abij", ev[i1].conj(), ev[i2])
        w = (v[i1][:, None, :, :, None] - v[i2][None, :, :, None, :]) * o[:, :, None]
        require(g.shape == w.shape, "shape %s instead of %s", g.shape, w.shape)
        if not w.size:
            continue
        # products in which the phases of the eigenvectors cancel
        close(np.abs(g), np.abs(w), "absolute values", 1e-8)
        close(np.einsum("abnij,abmij->abnmij", g, g.conj()), np.einsum("abnij,abmij->abnmij", w, w.conj()), "relative signs of the directions", 1e-8)
        loop = lambda x: np.einsum("nij,nkj,nkl,nil->nijkl", x[0, 0], x[-1, 0].conj(), x[-1, -1], x[0, -1].conj())
        close(loop(g), loop(w), "relative phases", 1e-8)
        cnt += 3
    return {"n": cnt, "nontrivial": cnt > 0}


def subs(tier):
    return [Enum("derivatives", cases, run, "every model kind x dimension x bands x overlap/basis/symmetry; non-trivial: at least one k with separated bands"),
            Enum("touching bands", deg_cases, deg_run, "every degenerate construction"),
            Enum("separated next to touching bands", mixed_cases, mixed_run, "every size, basis and order"),
            Enum("level multiplicities", mult_cases, mult_run, "every composition of 1-4 (thorough 1-6) levels into touching groups x number of variables x batch form"),
            Enum("electron-phonon coupling", ep_cases, ep_run, "every model x pair of index forms (lists, slices, masks)"),
            Enum("free electrons", fe_cases, fe_run, "every neighbour count x band limit")]
