"""C23: every small integer supercell matrix on several models; bands = union of the folded bands of the original model."""
import functools
import itertools
import numpy as np
from ..core import Enum, require
from ..util import gen, genc, herm, gen_k, close, raises
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries, free_electron_model_orthogonal
from tight_binding_redweasel import Symmetry

LEVEL = "model_checking"
ASSUMPTIONS = ["neighbours are given in the units of the lattice vectors A_original (crystal coordinates: A_original = identity)",
               "BandStructureModel without coefficient symmetry (documented restriction)",
               "the free electron model is a truncated series: compared within its truncation error"]

KINDS = ["asym", "asym_s", "bsm_exp", "bsm_cos", "bsm_cosred", "bsm_sin"]


@functools.lru_cache(None)
def matrices(d, m, maxdet):
    out = []
    for e in itertools.product(range(-m, m + 1), repeat=d * d):
        M = np.array(e).reshape(d, d)
        det = abs(round(np.linalg.det(M)))
        if 1 <= det <= maxdet:
            out.append(M.tolist())
    return out


def lattice(kind, d):
    if kind == "crystal":
        return np.eye(d)
    if kind == "cubic":
        return 2.5 * np.eye(d)
    if kind == "hex":
        A = np.eye(d) * 1.7
        if d > 1:
            A[:2, :2] = [[1, -0.5], [0, 3**0.5 / 2]]
        return A
    if kind == "lefthanded":
        A = np.eye(d) + 0.3 * gen(2 + d, (d, d))
        return A if np.linalg.det(A) < 0 else A @ np.diag([-1.0] + [1.0] * (d - 1))
    if kind == "fcc":
        return (np.ones((d, d)) - np.eye(d)) * 0.5 if d > 1 else np.eye(1) * 0.5
    raise KeyError(kind)


def hoppings(d, which):
    R = [[0] * d]
    if which == "near":
        R += np.eye(d, dtype=int).tolist()
    elif which == "diag":       # one long hopping, not along the axes, its parts are not listed
        R += [[1] * d, [2] + [-1] * (d - 1)]
    elif which == "far":
        R += np.eye(d, dtype=int).tolist() + [[3] + [0] * (d - 1), [-1] * (d - 1) + [2]]
    elif which == "onsite":
        pass
    seen, out = set(), []
    for r in R:
        if tuple(-x for x in r) in seen or tuple(r) in seen:
            continue
        seen.add(tuple(r))
        out.append(r)
    return np.array(out)


def model(kind, d, n, which, A):
    R = hoppings(d, which)
    P = R @ A.T
    H = np.array([herm(3, n)] + [genc(5 + i, (n, n)) * 0.5 for i in range(1, len(R))])
    if kind == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(P, H))
    if kind == "asym_s":
        S = np.array([np.eye(n) + 0j] + [genc(50 + i, (n, n)) * 0.08 for i in range(1, len(R))])
        # other neighbours than H
        SR = np.concatenate([R, [[0] * (d - 1) + [4]]]) if which != "onsite" else R
        S = S if which == "onsite" else np.concatenate([S, genc(70, (1, n, n)) * 0.05])
        return AsymTightBindingModel(HermitianFourierSeries(P, H), HermitianFourierSeries(SR @ A.T, S))
    m = BandStructureModel.init_tight_binding(Symmetry.none(d), P, n, cos_reduced=kind == "bsm_cosred", exp=kind == "bsm_exp")
    m.set_params_complex(H)
    return m


def state(m):
    if isinstance(m, AsymTightBindingModel):
        return [m.H.neighbors, m.H.H_r, m.S.neighbors, m.S.H_r]
    return [m.neighbors, m.params]


def folded(m, A, M, k):
    """bands of the original model at all points which fold onto k"""
    M = np.array(M)
    d = len(M)
    det = abs(round(np.linalg.det(M)))
    Bn = np.linalg.inv(A @ M).T
    reps, seen = [], set()
    Mi = np.linalg.inv(M).T
    adj = np.round(np.linalg.inv(M).T * np.linalg.det(M)).astype(int)
    for x in itertools.product(range(det), repeat=d):
        # A_new^-T x in units of the original reciprocal lattice, modulo 1, exactly
        key = tuple((adj @ np.array(x)) % det)
        if key not in seen:
            seen.add(key)
            reps.append(x)
    require(len(reps) == det, "oracle: %s classes", len(reps))
    return np.sort(np.concatenate([m.bands(k + Bn @ np.array(x)) for x in reps], axis=-1), axis=-1)


def check_cell(m, sc, A, M, n):
    d = len(M)
    det = abs(round(np.linalg.det(np.array(M))))
    require(sc.band_count() == n * det, "%s bands instead of %d", sc.band_count(), n * det)
    k = gen_k(d, 3) @ np.linalg.inv(A)
    close(sc.bands(k), folded(m, A, M, k), "bands of the supercell", 1e-8)
    An = A @ np.array(M)
    series = [sc.H, sc.S] if isinstance(sc, AsymTightBindingModel) else [sc]
    for s in series:
        R = s.neighbors @ np.linalg.inv(An).T
        require(np.allclose(R, np.round(R), atol=1e-7), "neighbours are no vectors of the new lattice")
        keys = [tuple(int(y) for y in np.round(x)) for x in R]
        require(keys[0] == (0,) * d, "the first neighbour is 0")
        require(len(set(keys)) == len(keys) and not any(tuple(-y for y in x) in keys for x in keys[1:]), "redundant neighbours %s", str(keys))
        f = s.f(k)
        close(f, np.conj(np.swapaxes(f, -1, -2)), "hermitian", 1e-10)
    # periodic in the new reciprocal lattice (all the same bands)
    close(sc.bands(k + np.linalg.inv(An).T @ np.ones(d)), sc.bands(k), "periodic in the new reciprocal lattice", 1e-8)
    return 4


def run(c):
    d, n = c["dim"], c["n"]
    A = lattice(c["lat"], d)
    cnt = 0
    for kind in c["kinds"]:
        m = model(kind, d, n, c["hop"], A)
        before = [x.copy() for x in state(m)]
        for M in c["Ms"]:
            kw = [{}]
            if kind.startswith("bsm"):
                kw = [dict(cos_reduced=cr, exp=e) for cr in (False, True) for e in (False, True)]
                kw = [{}] + kw if M == c["Ms"][0] else [kw[sum(map(abs, np.ravel(M))) % 4]]
            for a in kw:
                sc = m.supercell(A.tolist() if len(kw) == 5 else A, A @ np.array(M), **a)
                require(type(sc) is type(m), "type %s", type(sc))
                if kind.startswith("bsm"):
                    require(sc.cos_reduced == a.get("cos_reduced", False) and sc.exp == a.get("exp", True), "requested function type")
                cnt += check_cell(m, sc, A, M, n)
                for x in state(sc):
                    require(not any(np.shares_memory(x, y) for y in state(m)), "supercell shares memory with the model")
            for x, y in zip(before, state(m)):
                close(y, x, "the original model is unchanged", 0)
    return dict(n=cnt, nontrivial=True, outcome=len(c["Ms"]))


def run_chain(c):
    d = c["dim"]
    A = lattice(c["lat"], d)
    M1 = np.array(c["M1"])
    cnt = 0
    for kind in c["kinds"]:
        m = model(kind, d, c["n"], c["hop"], A)
        s1 = m.supercell(A, A @ M1)
        for M2 in c["M2s"]:
            M2 = np.array(M2)
            s2 = s1.supercell(A @ M1, A @ M1 @ M2)
            cnt += check_cell(m, s2, A, (M1 @ M2).tolist(), c["n"])
            direct = m.supercell(A, A @ M1 @ M2)
            k = gen_k(d, 3) @ np.linalg.inv(A)
            close(s2.bands(k), direct.bands(k), "consecutive supercells", 1e-8)
            cnt += 1
    return dict(n=cnt)


def run_refuse(c):
    d = c["dim"]
    cnt = 0
    for kind in KINDS:
        A = lattice(c["lat"], d)
        m = model(kind, d, 1, "near", A)
        before = [x.copy() for x in state(m)]
        bad = {"half": A * 1.5, "zero": A * 0, "slightly": A * 1.01, "dim": np.eye(d + 1)}
        if d > 1:
            bad["singular"] = A @ np.ones((d, d))
        for name, An in bad.items():
            require(raises(lambda: m.supercell(A if name != "dim" else np.eye(d + 1), An)), "%s supercell of %s accepted", name, kind)
            cnt += 1
        for x, y in zip(before, state(m)):
            close(y, x, "the original model is unchanged by a refused call", 0)
        # tiny rounding in the matrices is accepted
        s = m.supercell(A, A @ (2 * np.eye(d)) * (1 + 1e-10))
        require(s.band_count() == 2**d, "rounded matrix: %s bands", s.band_count())
        cnt += 1
    for sym in (Symmetry.inv(d),):
        m = BandStructureModel.init_tight_binding(sym, hoppings(d, "near").astype(float), 1)
        require(raises(lambda: m.supercell(np.eye(d), 2 * np.eye(d)), AssertionError), "symmetric coefficients refused")
        cnt += 1
    return dict(n=cnt)


def run_free(c):
    a, nc, b = c["a"], c["nc"], c["b"]
    m, unit = free_electron_model_orthogonal(*a, nc, b)
    require(m.band_count() == b**3, "%s bands", m.band_count())
    require(abs(unit - 3.80998211 * (2 * np.pi)**2) < 1e-6 * unit, "energy unit %s", unit)
    L = np.array(a)
    k = gen_k(3, 3) / L
    k = k[np.argsort(np.linalg.norm(k, axis=-1))]
    want = []
    for x in k:
        per = []
        for y, l in zip(x, L):
            v = [y + i / l for i in range(-b - 2, b + 3)]
            v = sorted(v, key=lambda t: (round(abs(t), 9), t))[:b]   # the b plane waves next to 0
            per.append(v)
        want.append(sorted(sum(t * t for t in p) for p in itertools.product(*per)))
    tol = 0.32 * b**2 / nc / np.min(L)**2
    close(m.bands(k), np.array(want), "free electron bands", tol, 1)
    # exactly the hoppings of the infinite series between cells up to nc apart in every direction
    exact = []
    for x in k:
        ev = []
        for y, l in zip(x, L):
            h = np.eye(b, dtype=complex) * np.pi**2 / 3 / l**2
            for i, j, cell in itertools.product(range(b), range(b), range(-nc, nc + 1)):
                n = cell * b + j - i
                if n:
                    h[i, j] += 2 * (-1)**n / (n * l)**2 * np.exp(2j * np.pi * cell * l * y)
            ev.append(np.linalg.eigvalsh(h) * b**2 / (2 * np.pi)**2)
        exact.append(sorted(sum(t) for t in itertools.product(*ev)))
    close(m.bands(k), np.array(exact), "free electron model with %s terms in each direction" % nc, 1e-9, 1)
    R = m.H.neighbors / L
    require(int(np.max(np.abs(np.round(R)))) == nc, "neighbours up to %s", np.max(np.abs(R)))
    require(np.allclose(R, np.round(R), atol=1e-8), "neighbours are lattice vectors")
    require(len(R) == 3 * nc + 1, "%s neighbours", len(R))
    close(m.bands(k + 1 / L), m.bands(k), "periodic", 1e-8)
    return dict(n=4)


def chunks(lst, n):
    return [lst[i::n] for i in range(n) if lst[i::n]]


def subs(tier):
    th = tier == "thorough"
    cs = []
    for d, m, md in ((1, 4, 4), (2, 2, 4), (3, 1, 4)):
        Ms = matrices(d, m, md)
        lats = ("crystal", "cubic", "hex", "lefthanded", "fcc") if d > 1 else ("crystal", "cubic", "lefthanded", "fcc")
        if d == 3:
            # representatives: every 3x3 matrix over -1..1 in thorough, a regular subset plus all diagonal ones otherwise
            diag = [np.diag(x).tolist() for x in itertools.product((1, -1, 2, 3), repeat=3) if abs(np.prod(x)) <= 4]
            shear = [[[1, 2, 0], [0, 1, 0], [0, 0, 2]], [[0, 0, 2], [1, 0, 0], [0, 1, 0]], [[2, 1, 0], [0, 2, 1], [0, 0, 1]], [[1, 0, 0], [0, 0, 1], [0, 3, 1]]]
            bcc = [[[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]]
            Ms = diag + shear + bcc + (Ms if th else Ms[::37])
        for lat in lats:
            for hop in ("near", "diag", "far", "onsite"):
                for n in (1, 2):
                    if d == 3 and (n == 2 and hop != "diag" or hop == "onsite") and not th:
                        continue
                    if d == 3 and th and n == 2 and (lat not in ("crystal", "hex") or hop != "diag"):
                        continue
                    if d == 2 and not th and (n == 1 and hop != "near" or n == 2 and hop == "near"):
                        continue
                    kk = KINDS if hop != "onsite" else ["asym", "asym_s", "bsm_exp"]
                    Mq = Ms[::5] if d == 2 and not th and lat in ("cubic", "fcc") else Ms
                    for ch in chunks(Mq, max(1, len(Mq) // 12)):
                        if d == 3:
                            cs += [dict(dim=d, n=n, lat=lat, hop=hop, kinds=[x], Ms=ch) for x in kk]
                        else:
                            cs.append(dict(dim=d, n=n, lat=lat, hop=hop, kinds=kk, Ms=ch))
    chain = []
    for d in (1, 2, 3):
        small = {1: [[[2]], [[-1]], [[3]], [[-2]]], 2: matrices(2, 1, 2) if th else matrices(2, 1, 2)[::3], 3: [np.diag([2, 1, 1]).tolist(), [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[0, 0, -1], [1, 0, 0], [0, 1, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]]]}[d]
        chain += [dict(dim=d, n=1 + (d < 3), lat=lat, hop=hop, kinds=["asym", "asym_s", "bsm_exp", "bsm_cosred"], M1=M1, M2s=small) for lat in ("crystal", "hex", "lefthanded") for hop in ("near", "diag", "far") for M1 in small]
    refuse = [dict(dim=d, lat=lat) for d in (1, 2, 3) for lat in ("crystal", "cubic", "hex", "lefthanded", "fcc")]
    free = [dict(a=a, nc=nc, b=b) for a in ((1, 1, 1), (2, 2, 2), (1.5, 1.5, 1.5), (1, 1.3, 2.1), (3, 1, 1), (1, 2, 1), (2.5, 1, 6)) for nc in (1, 2, 3, 4, 6, 8) + ((12, 16) if th else ()) for b in (1, 2, 3)]
    free += [dict(a=a, nc=nc, b=1) for a in ((1, 1, 1.1), (1.2, 1, 1.1)) for nc in (1, 2, 3)]
    return [
        Enum("supercells", lambda t: cs, run, "integer matrix (all with small entries and determinant up to 4 in 1 and 2 dimensions) x lattice x hopping set x model kind x target coefficient functions"),
        Enum("chains", lambda t: chain, run_chain, "all pairs of small supercells applied one after the other"),
        Enum("refused", lambda t: refuse, run_refuse, "non integer, singular, wrongly sized matrices and symmetric coefficients"),
        Enum("free electrons", lambda t: free, run_free, "lattice x neighbour count x bands per direction"),
    ]
