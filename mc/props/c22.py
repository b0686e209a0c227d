"""C22: optimisers on small fitting problems: exact starts, decoupled (exactly solvable) fits, invariances, kept structure."""
import itertools
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, genc, herm, gen_k, close
from tight_binding_redweasel import Symmetry
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.hamiltonian_symmetry import HamiltonianSymmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation
from tight_binding_redweasel.logger import OptimisationLogger

LEVEL = "model_checking"
ASSUMPTIONS = ["the k points determine the coefficients (nonsingular Gram matrix), at least one band has a positive weight",
               "the loss is only required not to increase for small perturbations of an exact model and the settings listed in near()",
               "exact least-squares optima are known for decoupled bands whose order does not change; compared with plain linear algebra",
               "k point weights are only used for the steps, the reported loss is unweighted (documented in error())"]

ASYM = ["asym", "asym_s"]
BSM = ["bsm_exp", "bsm_expred", "bsm_cos", "bsm_cosred", "bsm_inv", "bsm_invred", "bsm_sym", "bsm_symred", "bsm_symmetrizer", "bsm_symmetrizer_exp"]


def nbs(d, ext=0):
    R = [[0] * d] + np.eye(d, dtype=int).tolist() + ([[1] * d] if d > 1 else [[2]])
    return np.array(R[:len(R) - ext], float)


def kpts(d, count, seed=0):
    k = gen(31 + d + seed, (count, d)) * 0.5
    k[0] = 0
    return k


def chain_sym(d):
    return {1: Symmetry.none(1), 2: Symmetry.from_generator([np.array([[0, 1], [1, 0]])], False), 3: Symmetry.from_generator([np.roll(np.eye(3), 1, axis=0)], False)}[d]


def build(kind, d, n, diag=False, pert=0.0, tag=0):
    """a model; pert moves its coefficients by generic values inside of the allowed (symmetric, diagonal) space"""
    R = nbs(d)

    def coeffs(cnt, hermitian=False):
        def one(i, t, sc):
            if i == 0:
                x = herm(t, n) * 0.3 + np.diag(np.arange(n) * 2.0)
            else:
                x = herm(t + 7 * i, n) * sc if hermitian else genc(t + 7 * i, (n, n)) * sc
            return np.diag(np.diagonal(x).real if hermitian or i == 0 else np.diagonal(x)) if diag else x
        P = np.array([one(i, 3 + tag, 0.2) for i in range(cnt)])
        if pert:
            D = np.array([one(i, 300 + tag, 0.2) for i in range(cnt)])
            D[0] -= np.diag(np.arange(n) * 2.0)
            P = P + pert * D
        return P + 0j
    if kind in ASYM:
        S = None
        if kind == "asym_s":
            s = np.array([np.eye(n)] + [gen(90 + i, (n, n)) * 0.1 * (np.eye(n) if diag else 1) for i in range(1, len(R) - 1)]) + 0j
            S = HermitianFourierSeries(R[:-1], s)
        m = AsymTightBindingModel(HermitianFourierSeries(R, coeffs(len(R))), S)
        if S is not None:
            m.normalize()
        return m
    red = kind.endswith("red")
    sym = Symmetry.none(d)
    if kind.startswith("bsm_inv"):
        sym = Symmetry.inv(d)
    if kind in ("bsm_sym", "bsm_symred"):
        sym = chain_sym(d)
        R = np.array([R[0], R[1], R[-1]])
    if kind.startswith("bsm_symmetrizer"):
        R = nbs(d, 0)
        if n % 2:
            raise Skip
    m = BandStructureModel.init_tight_binding(sym, R.copy(), n, cos_reduced=red, exp="exp" in kind)
    hermit = not m.exp
    m.params = coeffs(len(m.params), hermit)
    if kind.startswith("bsm_symmetrizer"):
        # real reflection symmetry exchanging the orbitals: H(-k) = X H(k) X, a documented symmetrizer is any projection
        m.symmetrizer = make_symmetrizer(d, n, m.exp)
        m.params = m.symmetrizer(m.params)
    return m


def make_symmetrizer(d, n, exp):
    X = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n // 2))
    # H(-k) = X H(k) X: exponential terms: H_r^+ = X H_r X; cos terms: X c X = c, sin terms: X s X = -s
    cnt = len(nbs(d))

    def f(p):
        p = np.array(p)
        q = X @ p @ X
        if exp:
            q = np.conj(np.swapaxes(q, -1, -2))
        else:
            q[cnt:] *= -1
        return (p + q) / 2
    return f


def coef(m):
    return m.H.H_r if isinstance(m, AsymTightBindingModel) else m.params


def neighbours(m):
    return (m.H.neighbors, m.S.neighbors) if isinstance(m, AsymTightBindingModel) else (m.neighbors,)


def options(kind, tier):
    """optimiser option combinations: [method, kwargs]"""
    th = tier == "thorough"
    out = []
    if kind in ASYM:
        for bd, pinv, ls, acc in itertools.product((1, 2, 3), (True, False), (False, True), (None, 1, 4)):
            if not th and (bd == 3 and acc == 4 or bd > 1 and pinv and acc is not None):
                continue
            out.append(["optimize", dict(batch_div=bd, use_pinv=pinv, use_lstsq_stepsize=ls, max_accel_global=acc)])
        for pre, mc in itertools.product((True, False), (1, 5, 30)):
            out.append(["optimize_cg", dict(precond=pre, max_cg_iterations=mc)])
    else:
        for bd, pinv, acc, k0 in itertools.product((1, 2, 3), (True, False), (None, 1, 4), (True, False)):
            if not th and (bd > 1 and not (pinv and k0)):
                continue
            out.append(["optimize", dict(batch_div=bd, use_pinv=pinv, max_accel_global=acc, train_k0=k0)])
        for pre, mc in itertools.product((True, False), (1, 5, 30)):
            out.append(["optimize_cg", dict(precond=pre, max_cg_iterations=mc)])
    return out


def call(m, opt, k, ref, w, off, it, kw=1.0, **more):
    meth, o = opt
    a = dict(o)
    a.setdefault("convergence_threshold", 0.0)
    a.setdefault("loss_threshold", 0.0)
    a.update(more)
    a.setdefault("log", False)
    if isinstance(m, AsymTightBindingModel):
        return m.optimize(k, kw, ref, w, off, it, **a) if meth == "optimize" else m.optimize_cg(k, ref, w, off, it, **a)
    return m.optimize(k, kw, ref, w, off, it, **a) if meth == "optimize" else m.optimize_cg(k, kw, ref, w, off, it, **a)


def count_k(m):
    return 2 * len(coef(m)) + 5


def windows(n):
    return [(off, mm) for mm in range(1, n + 1) for off in range(n - mm + 1)]


def wv(w, ref):
    return np.broadcast_to(np.asarray(w, float), (ref.shape[1],))


def common(m, m0, log, k, ref, w, off, it, what):
    """things which hold after every run"""
    for a, b in zip(neighbours(m), neighbours(m0)):
        close(a, b, what + ": neighbours", 0)
    h = m.H.f(k) if isinstance(m, AsymTightBindingModel) else m.f(k)
    close(h, np.conj(np.swapaxes(h, -1, -2)), what + ": hermitian", 1e-10)
    w = np.broadcast_to(np.asarray(w, float), (ref.shape[1],))
    l, e = m.error(k, ref, w, off)
    require(abs(log.last_loss() - l) <= 1e-9 * max(1, l), "%s: reported loss %r, loss of the model %r", what, log.last_loss(), l)
    x = m.loss(k, ref, wv(w, ref), off)
    require(abs(x - l) <= 1e-9 * max(1, l), "%s: loss %r of the model", what, x)
    require(log.iterations[-1] == it, "%s: last iteration %r of %d", what, log.iterations[-1], it)


def run_exact(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    cnt = 0
    for off, mm in windows(n):
        m0 = build(kind, d, n)
        k = kpts(d, c.get("nk") or count_k(m0))
        kt = np.concatenate([k, gen_k(d, 3)])
        ref = m0.bands(k)[:, off:off + mm].copy()
        for wi, w in enumerate((1.0, np.arange(1, mm + 1) * 0.5, np.array([0.0] * (mm - 1) + [2.0]))):
            for kz in (False, True):
                m = m0.copy()
                cp = [k.copy(), ref.copy(), np.array(w, copy=True)]
                kw = 1.0 if wi == 0 else np.linspace(0.5, 1.5, len(k))
                if wi == 0 and not kz:
                    args = (k.tolist(), ref.tolist()) if kind not in ASYM else (k, ref)
                else:
                    args = (k, ref)
                log = call(m, c["opt"], args[0], args[1], w, off, 3, kw, keep_zeros=kz)
                what = "exact start, bands %d..%d" % (off, off + mm)
                close(m.bands(kt), m0.bands(kt), what, 1e-7)
                require(log.last_loss() < 1e-8, "%s: reported loss %r", what, log.last_loss())
                common(m, m0, log, k, ref, w, off, 3, what)
                for a, b in zip((k, ref, np.asarray(w)), cp):
                    close(a, b, "arguments unchanged", 0)
                cnt += 5
    return dict(n=cnt)


def run_exact_s(c):
    """the overlap matrix is trained as well"""
    m0 = build("asym_s", c["dim"], c["n"])
    k = kpts(c["dim"], count_k(m0))
    ref = m0.bands(k)
    m = m0.copy()
    log = call(m, c["opt"], k, ref, 1.0, 0, 3, train_S=True)
    close(m.bands(k), ref, "exact start, trained overlap", 1e-7)
    common(m, m0, log, k, ref, 1.0, 0, 3, "exact start, trained overlap")
    if c["opt"][1].get("batch_div", 1) != 1 or c["dim"] == 3:
        return dict(n=3)
    # from a near start the loss decreases, with gradient steps
    m = build("asym_s", c["dim"], c["n"], pert=0.05)
    l0 = m.loss(k, ref, wv(1.0, ref), 0)
    log = call(m, c["opt"], k, ref, 1.0, 0, 25, train_S=True, learning_rate=0.5) if c["opt"][0] == "optimize" else call(m, c["opt"], k, ref, 1.0, 0, 6, train_S=True)
    require(log.last_loss() <= l0, "near start with trained overlap: loss %r after %r", log.last_loss(), l0)
    common(m, m0, log, k, ref, 1.0, 0, 25 if c["opt"][0] == "optimize" else 6, "near start, trained overlap")
    return dict(n=5)


# ---------------------------------------------------------------- near starts
def run_near(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    cnt = 0
    target = build(kind, d, n)
    k = kpts(d, c.get("nk") or count_k(target))
    for off, mm in windows(n):
        ref = target.bands(k)[:, off:off + mm].copy()
        for w in (1.0, np.arange(1, mm + 1) * 1.0):
            m = build(kind, d, n, pert=c["pert"])
            m0 = m.copy()
            l0 = m.loss(k, ref, wv(w, ref), off)
            it = c["it"]
            log = call(m, c["opt"], k, ref, w, off, it)
            what = "near start, bands %d..%d" % (off, off + mm)
            common(m, m0, log, k, ref, w, off, it, what)
            require(log.last_loss() <= l0 * (1 + 1e-9), "%s: loss %r after %r", what, log.last_loss(), l0)
            if c.get("good"):
                require(log.last_loss() <= l0 * c["good"], "%s: loss %r from %r is not converging", what, log.last_loss(), l0)
            if getattr(m, "symmetrizer", None) is not None:
                close(m.params, m.symmetrizer(m.params), what + ": model stays symmetric", 1e-10)
                close(m.bands(-k), m.bands(k), what + ": bands stay symmetric", 1e-9)
            if kind in ("bsm_sym", "bsm_symred"):
                for s in chain_sym(d).S:
                    close(m.bands(k @ s.T), m.bands(k), what + ": bands stay symmetric", 1e-9)
            if kind.startswith("bsm_inv"):
                close(m.bands(-k), m.bands(k), what + ": bands stay even", 1e-9)
            cnt += 4
    return dict(n=cnt)


# ---------------------------------------------------------------- histories and invariances
def run_inv(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    opt = c["opt"]
    one = opt[1].get("batch_div", 1) == 1
    target = build(kind, d, n)
    k = kpts(d, count_k(target))
    kt = np.concatenate([k, gen_k(d, 3)])
    cnt = 0
    for off, mm in ([(0, n)] + ([(1, n - 1)] if n > 1 and opt[1].get("precond", True) else [])):
        ref = target.bands(k)[:, off:off + mm] + gen(77, (len(k), mm)) * 0.05
        ref = np.sort(ref, axis=-1)
        w = np.arange(mm, 0, -1) * 1.0
        T = 3
        runs = []
        for it in range(T + 1):
            m = build(kind, d, n, pert=c["pert"])
            log = call(m, opt, k, ref, w, off, it)
            common(m, target, log, k, ref, w, off, it, "%d iterations" % it)
            runs.append((m, log))
            cnt += 1
        mT, logT = runs[-1]
        bT = mT.bands(kt)
        if one:
            # the log of the long run lists the losses of the shorter runs
            require(list(logT.iterations) == list(range(T + 1)), "logged iterations %s", str(logT.iterations))
            first = 0 if not (isinstance(mT, AsymTightBindingModel) and opt[0] == "optimize_cg") else 0
            for it in range(first, T + 1):
                l = runs[it][0].loss(k, ref, wv(w, ref), off)
                require(abs(logT.loss[it] - l) <= 1e-7 * max(1, l), "loss logged at iteration %d: %r, loss of the model after %d iterations: %r", it, logT.loss[it], it, l)
            cnt += 2

        def again(k_=k, ref_=ref, w_=w, kw=1.0, model=None, **more):
            m = build(kind, d, n, pert=c["pert"]) if model is None else model
            call(m, opt, k_, ref_, w_, off, T, kw, **more)
            return m
        # CG amplifies rounding errors: loose for many steps
        tol = {1: 1e-6, 5: 1e-3}.get(opt[1].get("max_cg_iterations"), 1e-6)
        close(again().bands(kt), bT, "repeated run", 1e-12)
        # energy scale: all steps are linear in the energies
        m = build(kind, d, n, pert=c["pert"])
        m = m * 2.0
        m = again(ref_=ref * 2.0, model=m)
        close(m.bands(kt), 2 * bT, "energies in other units", tol)
        # zero of the energies
        if kind != "asym_s" and opt[1].get("train_k0", True) and (mm == n or opt[1].get("precond", True)):
            m = build(kind, d, n, pert=c["pert"]) + 0.75
            m = again(ref_=ref + 0.75, model=m)
            close(m.bands(kt), bT + 0.75, "shifted energies", tol)
            cnt += 1
        # weights are relative in the model fit (for CG and pinv steps with one scale)
        if isinstance(mT, AsymTightBindingModel) and not opt[1].get("use_lstsq_stepsize") or opt[0] == "optimize":
            if not opt[1].get("use_lstsq_stepsize"):
                m = again(w_=w * 3.0)
                close(m.bands(kt), bT, "all weights multiplied by a constant", tol)
                cnt += 1
        if one:
            p = np.argsort(gen(5, (len(k),)))
            close(again(k_=k[p], ref_=ref[p]).bands(kt), bT, "order of the k points", tol)
            cnt += 1
        # broadcast weights
        a, b = again(w_=1.0), again(w_=np.ones(mm))
        close(a.bands(kt), b.bands(kt), "equal weights", 1e-10)
        # unitary change of the basis of the start model
        if kind not in ("bsm_symmetrizer", "bsm_symmetrizer_exp"):
            m = build(kind, d, n, pert=c["pert"])
            U = np.linalg.qr(genc(8, (n, n)))[0]
            if isinstance(m, AsymTightBindingModel):
                m.H.H_r = U.conj().T @ m.H.H_r @ U
                m.S.H_r = U.conj().T @ m.S.H_r @ U
            else:
                m.params = U.conj().T @ m.params @ U
            close(again(model=m).bands(kt), bT, "other basis of the orbitals", tol)
            cnt += 1
        # zero weights: the reference of these bands is irrelevant
        if mm > 1:
            w0 = np.ones(mm)
            w0[-1] = 0
            r2 = ref.copy()
            r2[:, -1] += 0.3 + gen(3, (len(k),)) * 0.2
            a, b = again(w_=w0), again(w_=w0, ref_=r2)
            close(a.bands(kt), b.bands(kt), "bands of weight zero", 1e-9)
            cnt += 1
        if not isinstance(mT, AsymTightBindingModel):
            kw = np.ones(len(k))
            kw[[2, 5]] = 0
            r2 = ref.copy()
            r2[[2, 5]] += 0.4
            a, b = again(kw=kw), again(kw=kw, ref_=r2)
            close(a.bands(kt), b.bands(kt), "k points of weight zero", 1e-9)
            a, b = again(kw=kw + 0.5), again(kw=2 * kw + 1.0)
            close(a.bands(kt), b.bands(kt), "k weights are relative", 1e-9)
            close(again(kw=np.ones(len(k))).bands(kt), bT, "unit k weights", 1e-12)
            cnt += 3
        cnt += 3
    return dict(n=cnt)


# ---------------------------------------------------------------- decoupled bands: linear least squares
def design(m, k, s=None):
    """real design matrix of one diagonal element: [f_0 | Re, Im of f_i] and parameter count"""
    cols = [np.ones(len(k))]
    if isinstance(m, AsymTightBindingModel):
        for r in m.H.neighbors[1:]:
            x = 2 * np.pi * k @ r
            cols += [2 * np.cos(x), -2 * np.sin(x)]
    else:
        for i in range(1, len(m.params)):
            f = m.f_i(k, i)
            if m.exp:
                cols += [2 * f.real, -2 * f.imag]
            else:
                cols += [2 * f.real]
    return np.array(cols).T


def run_lsq(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    m = build(kind, d, n, diag=True)
    k = kpts(d, count_k(m), c["seed"])
    kt = np.concatenate([k, gen_k(d, 3)])
    # far away reference, no crossings
    base = m.bands(k)
    cnt = 0
    for off, mm in windows(n):
        m = build(kind, d, n, diag=True)
        if n > 1 and np.min(np.diff(m.bands(kt), axis=-1)) < 0.2:
            raise Skip
        ref = base[:, off:off + mm] + gen(60 + c["seed"], (len(k), mm)) * c["amp"]
        w = [1.0, 0.5, 2.0][:mm] if c["w"] else [1.0] * mm
        if c["w"] and mm > 1:
            w = [w[0], 0.0, 3.0][:mm] if c["w"] == 2 else w
        before = m.bands(kt)
        log = call(m, ["optimize_cg", dict(precond=c["pre"], max_cg_iterations=400)], k, ref, np.array(w), off, c["it"])
        got = m.bands(kt)
        A, At = design(m, k), design(m, kt)
        want = before.copy()
        if kind == "asym_s":
            s, st = (np.real(np.einsum("...ii->...i", m.S.f(q))) for q in (k, kt))
        for j in range(mm):
            if w[j] == 0:
                continue
            # every band on its own
            if kind == "asym_s":
                # the diagonal overlap of the orbital which makes up this band (order by energy at all k points)
                o = np.argsort(np.real(np.diagonal(build(kind, d, n, diag=True).H.f(np.zeros((1, d)))[0])))[off + j]
                x = np.linalg.lstsq(A / s[:, o][:, None], ref[:, j], rcond=None)[0]
                want[:, off + j] = At @ x / st[:, o]
            else:
                x = np.linalg.lstsq(A, ref[:, j], rcond=None)[0]
                want[:, off + j] = At @ x
        if n > 1 and np.min(np.diff(want, axis=-1)) < 0.05:
            raise Skip
        close(got, want, "bands %d..%d after %d iterations (least squares optimum)" % (off, off + mm, c["it"]), c.get("tol", 3e-3) * c["amp"], 1)
        cnt += got.size
    return dict(n=cnt)


# ---------------------------------------------------------------- zeros
def run_zeros_asym(c):
    """the final normalisation only keeps the zero blocks of decoupled bands and vanishing matrices"""
    kind, d, n = c["kind"], c["dim"], c["n"]
    cnt = 0
    # crossing levels are sorted at the end of the fit
    def zeros(H, Z):
        return min((np.abs(H[:, list(pr)][:, :, list(pr)])[Z] for pr in itertools.permutations(range(n))), key=lambda b: float(np.max(b, initial=0)))
    for pat in c["pats"]:
        for train_S in (False, True) if kind == "asym_s" else (False,):
            m0 = build(kind, d, n)
            H, S = m0.H.H_r.copy(), m0.S.H_r.copy()
            if pat & 1:     # the first band is decoupled
                for M in (H, S):
                    M[:, 0, 1:] = M[:, 1:, 0] = 0
            # vanishing matrices
            for i in range(1, len(H)):
                if pat >> (2 * i) & 1:
                    H[i] = 0
            for i in range(1, len(S)):
                if pat >> (2 * i - 1) & 1:
                    S[i] = 0
            m = m0.copy()
            m.H.H_r, m.S.H_r = H, S
            m.normalize()
            ZH, ZS = np.abs(m.H.H_r) < 1e-14, np.abs(m.S.H_r) < 1e-14
            sH, sS = m.H.H_r.copy(), m.S.H_r.copy()
            k = kpts(d, count_k(m))
            ref = np.sort(m.bands(k) + gen(12, (len(k), n)) * 0.02, axis=-1)
            log = call(m, c["opt"], k, ref, 1.0, 0, 3, keep_zeros=True, **({"train_S": True} if train_S else {}))
            for nm, M, Z in (("", m.H.H_r, ZH), (" of the overlap", m.S.H_r, ZS)):
                best = zeros(M, Z)
                require(np.all(best < 1e-12), "requested zeros%s are %s after the fit", nm, str(best[best > 1e-12][:4]))
            require(np.max(np.abs(m.H.H_r - sH)) > 1e-6, "nothing was fitted")
            if train_S and np.any(sS[1:]) and c["opt"][0] == "optimize":  # (the other optimiser does not train it)
                require(np.max(np.abs(m.S.H_r - sS)) > 1e-9, "the overlap was not fitted")
            common(m, m0, log, k, ref, 1.0, 0, 3, "keep_zeros")
            cnt += 3
    return dict(n=cnt, nontrivial=True)


def run_zeros(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    if kind in ASYM:
        return run_zeros_asym(c)
    cnt = 0
    m0 = build(kind, d, n)
    P = coef(m0)
    # diagonal sorted onsite matrix (so that normalise keeps the basis) and some requested zeros
    for pat in c["pats"]:
        P2 = P.copy()
        P2[0] = np.diag(np.arange(n) * 2.0)
        i, a, b = 0, 0, 0
        for bit, (i, a, b) in enumerate((i, a, b) for i in range(1, len(P)) for a in range(n) for b in range(n)):
            if pat >> (bit % 12) & 1:
                P2[i, a, b] = 0
                if not isinstance(m0, AsymTightBindingModel) and not m0.exp:
                    P2[i, b, a] = 0
        m = m0.copy()
        if isinstance(m, AsymTightBindingModel):
            m.H.H_r = P2
            if kind == "asym_s":
                m.S.H_r = m.S.H_r * np.eye(n)
        else:
            m.params = P2
        m.normalize()
        Z = np.abs(coef(m)) < 1e-14
        start = coef(m).copy()
        k = kpts(d, count_k(m))
        ref = np.sort(m.bands(k) + gen(12, (len(k), n)) * 0.1, axis=-1)
        log = call(m, c["opt"], k, ref, 1.0, 0, 3, keep_zeros=True)
        # crossing levels are sorted at the end of the fit
        best = min((np.abs(coef(m)[:, list(pr)][:, :, list(pr)])[Z] for pr in itertools.permutations(range(n))), key=lambda b: float(np.max(b, initial=0)))
        require(np.all(best < 1e-12), "requested zeros are %s after the fit", str(best[best > 1e-12][:4]))
        if c["opt"][1].get("train_k0", True):
            require(np.max(np.abs(coef(m) - start)) > 1e-6, "nothing was fitted")
        else:
            close(coef(m)[0], start[0], "the constant matrix is not trained", 1e-12)
        common(m, m0, log, k, ref, 1.0, 0, 3, "keep_zeros")
        cnt += 3
    return dict(n=cnt, nontrivial=True)


# ---------------------------------------------------------------- default arguments
def run_default(c):
    """library defaults (thresholds, logger arguments); also stops only when it is allowed to"""
    kind, d, n = c["kind"], c["dim"], c["n"]
    target = build(kind, d, n)
    k = kpts(d, count_k(target))
    ref = target.bands(k)
    w = np.ones(n)
    cnt = 0
    for meth in ("optimize", "optimize_cg"):
        for it in (0, 1, 7, 60):
            for ct, lt in ((None, None), (0.0, 1e-3), (0.3, 0.0), (0.0, 0.0)):
                m = build(kind, d, n, pert=0.05)
                l0 = m.loss(k, ref, w, 0)
                a = {} if ct is None else dict(convergence_threshold=ct, loss_threshold=lt)
                lg = OptimisationLogger(print_loss=False, verbose=False)
                if meth == "optimize":
                    r = m.optimize(k, 1.0, ref, 1.0, 0, it, log=lg, **a)
                elif kind in ASYM:
                    r = m.optimize_cg(k, ref, 1.0, 0, it, log=lg, **a)
                else:
                    r = m.optimize_cg(k, 1.0, ref, 1.0, 0, it, log=lg, **a)
                require(r is lg, "the given logger is returned")
                l = m.loss(k, ref, w, 0)
                require(abs(l - lg.last_loss()) < 1e-9, "reported loss %r, loss %r", lg.last_loss(), l)
                require(l <= l0 * (1 + 1e-9), "loss %r after %r", l, l0)
                ct, lt = (1e-3, 1e-16) if ct is None else (ct, lt)
                # an early stop needs one of the two reasons
                n_it = lg.iterations[-1]
                conv = "converged" in lg.stream
                require(n_it <= it and (n_it == it or conv), "stopped after %d of %d iterations", n_it, it)
                ls = lg.loss
                if conv:
                    require(ls[-1] <= max(lt, 1e-14) * 1.001 or (len(ls) >= 2 and abs(ls[-2] / ls[-1] - 1) <= ct * 1.001 + 1e-9), "converged with losses %s", str(ls[-3:]))
                for i in range(len(ls) - 2):
                    # no reason to stop was ignored
                    if ls[i] > 1e-12:
                        require(not ls[i] < lt and not (i and abs(ls[i - 1] / ls[i] - 1) < ct * 0.999), "iteration %d continued with losses %s", i, str(ls[:i + 2]))
                cnt += 4
    return dict(n=cnt)


# ---------------------------------------------------------------- starting models
def run_start(c):
    d, n, kind = c["dim"], c["n"], c["kind"]
    R = nbs(d)
    k = kpts(d, 6)[[3, 0, 1, 2, 4, 5]]
    ref = np.sort(gen(44, (6, n)) * 2, axis=-1)
    cnt = 0
    if kind.startswith("asym"):
        m = AsymTightBindingModel.init_from_ref(R, k, ref, use_S=kind == "asym_s")
        close(m.H.neighbors, R, "neighbours", 0)
        scale = (ref[1].max() - ref[1].min()) * 0.001
        sup = 4 * 2**0.5 * n * scale * (len(R) - 1) + 1e-12
        close(m.bands(np.zeros((1, d)))[0], ref[1], "bands at k=0", sup, 1)
        s = m.S.f(k)
        close(s, np.broadcast_to(np.eye(n), s.shape) + 0j, "unit overlap", 1e-12)
        cnt += 3
    else:
        sym = {"bsm_sym": Symmetry.inv(d), "bsm": Symmetry.none(d)}[kind]
        for red, ex in itertools.product((False, True), repeat=2):
            for add in range(3):
                for off in range(add + 1):
                    m = BandStructureModel.init_tight_binding_from_ref(sym, R, k, ref, off, add, cos_reduced=red, exp=ex)
                    want = np.concatenate([[ref[1, 0]] * off, ref[1], [ref[1, -1]] * (add - off)])
                    require(m.band_count() == n + add, "%s bands", m.band_count())
                    tol = 1e-10 if red else 0.001 * 2**0.5 * 4 * len(m.params) * len(sym) * (n + add)
                    close(m.bands(np.zeros((1, d)))[0], want, "bands at k=0", tol, 1)
                    l, e = m.error(k[1:2], ref[1:2], np.ones(n), off)
                    require(l <= tol * n, "loss %s at k=0", l)
                    close(m.neighbors, R, "neighbours", 0)
                    require((m.sym is sym or m.sym == sym) and m.cos_reduced == red and m.exp == ex, "settings")
                    h = m.f(k)
                    close(h, np.conj(np.swapaxes(h, -1, -2)), "hermitian", 1e-12)
                    cnt += 5
    return dict(n=cnt)


def run_random(c):
    kind, d, n = c["kind"], c["dim"], c["n"]
    cnt = 0
    for kz in (False, True):
        for sigma in (0.0, 0.01, 1.0):
            for rs in ((False, True) if kind in ASYM else (False,)):
                m0 = build(kind, d, n)
                P = coef(m0).copy()
                P[1:, 0, -1] = 0
                P[0, 0, 0] = 1e-12
                if kind in ASYM:
                    m0.H.H_r = P
                else:
                    m0.params = P
                m = m0.copy()
                a = dict(keep_zeros=kz)
                if kind in ASYM:
                    a["randomize_S"] = rs
                m.randomize(sigma, **a)
                D = coef(m) - coef(m0)
                if sigma == 0:
                    close(D, D * 0, "sigma 0", 0)
                else:
                    Z = np.abs(P) < 1e-8
                    require(np.all(np.abs(D[~Z]) > 0), "all nonzero parameters are changed")
                    require(np.all(D[Z] == 0) if kz else np.all(np.abs(D[Z]) > 0), "keep_zeros=%s", kz)
                    if np.sum(~Z) >= 4:
                        require(0.05 * sigma < np.sqrt(np.mean(np.abs(D[~Z])**2)) < 6 * sigma, "standard deviation")
                    require(kz and np.all(Z) or np.max(np.abs(D.imag)) > 0, "complex parameters")
                if kind in ASYM:
                    DS = m.S.H_r - m0.S.H_r
                    if not rs or sigma == 0:
                        close(DS, DS * 0, "overlap unchanged", 0)
                    else:
                        ZS = np.abs(m0.S.H_r) < 1e-8
                        require(np.all(np.abs(DS[~ZS]) > 0) and (np.all(DS[ZS] == 0) if kz else np.all(np.abs(DS[ZS]) > 0)), "overlap randomised")
                close(coef(m0), P, "original unchanged", 0)
                cnt += 4
    return dict(n=cnt)


def run_autofit(c):
    """the complete fitting protocol writes its checkpoints and ends with the model of the last one"""
    import contextlib
    import io
    import os
    import shutil
    import tempfile
    from tight_binding_redweasel.tight_binding_asym import autofit_asym
    d, n = c["dim"], c["n"]
    sym = Symmetry.inv(d) if d % 2 else Symmetry.none(d)
    src = np.array([[0] * d, [1] + [0] * (d - 1), [2] + [0] * (d - 1)] + ([[0, 1] + [0] * (d - 2)] if d > 1 else []), float)
    target = build("asym", d, n)
    k = kpts(d, c["nk"])
    ref = target.bands(k)
    full = n + c["below"] + c["above"]
    cp = k.copy(), ref.copy(), src.copy()
    work = tempfile.mkdtemp(prefix="c22_")
    old = os.getcwd()
    try:
        os.chdir(work)
        with contextlib.redirect_stdout(io.StringIO()):
            tb = autofit_asym("x", src, k, ref, np.ones(n), sym, start_neighbors_count=c["start"], add_bands_below=c["below"], add_bands_above=c["above"], randomize=c["rnd"], restarts=1)
        files = sorted(os.listdir("."))
        want = sorted(["asym_x_start.json"] + ["asym_x_%d.json" % i for i in range(c["start"] + 1, len(src) + (1 if c["start"] + 1 < len(src) else 0)) if i <= len(src)])
        require(files == want, "files %s instead of %s", str(files), str(want))
        last = AsymTightBindingModel.load("asym_x_%d.json" % len(src) if c["start"] + 1 < len(src) else "asym_x_start.json")
        first = AsymTightBindingModel.load("asym_x_start.json")
    finally:
        os.chdir(old)
        shutil.rmtree(work)
    require(tb.band_count() == full, "%s bands", tb.band_count())
    close(last.bands(k), tb.bands(k), "last checkpoint", 1e-9)
    l0, l1 = (m.loss(k, ref, np.ones(n), c["below"]) for m in (first, tb))
    require(np.isfinite(l1), "loss %s", l1)
    if not c["rnd"] and full == n:
        require(l1 <= l0 * 1.05 + 1e-9, "loss %s after the fit, %s at the start", l1, l0)
    R = sym.complete_neighbors(src) if c["start"] + 1 < len(src) else sym.complete_neighbors(src[:c["start"] + 1])
    have = {tuple(int(round(y)) for y in x) for x in tb.H.neighbors}
    for r in R:
        t = tuple(int(round(y)) for y in r)
        require(t in have or tuple(-y for y in t) in have, "neighbour %s is missing", str(t))
    require(len(have) == len(R), "neighbours %s", str(have))
    for a, b in zip((k, ref, src), cp):
        close(a, b, "arguments unchanged", 0)
    return dict(n=6)


def subs(tier):
    th = tier == "thorough"
    dims = (1, 2, 3) if th else (1, 2)
    ns = (1, 2, 3)
    ex, near, inv, lsq, zer, exs = [], [], [], [], [], []
    for kind in ASYM + BSM:
        for d in dims:
            for n in ns:
                if "symmetrizer" in kind and n != 2:
                    continue
                for o in options(kind, tier):
                    if d > 1 and n == 3 and not th:
                        continue
                    ex.append(dict(kind=kind, dim=d, n=n, opt=o))
                    if (o[0] == "optimize_cg" or o[1].get("batch_div") == 1) and not (d == 3 and kind == "asym_s"):
                        near.append(dict(kind=kind, dim=d, n=n, opt=o, pert=0.02, it=12 if o[0] == "optimize" else 5))
                    if o[1].get("max_cg_iterations", 0) < 10:
                        inv.append(dict(kind=kind, dim=d, n=n, opt=o, pert=0.05))
                    if n > 1 and not kind.startswith("bsm_sym"):
                        zer.append(dict(kind=kind, dim=d, n=n, opt=o, pats=[1, 6, 0x924, 0xfff & ~8] if kind not in ASYM else [0, 1, 2, 4, 8, 16, 6, 24, 9, 17]))
                for pre in (True, False):
                    for w in (0, 1, 2):
                        for seed in range(4 if th else 2):
                            # levels cross in the last case
                            if "symmetrizer" not in kind and not (d == 3 and n == 3 and "sym" in kind):
                                lsq.append(dict(kind=kind, dim=d, n=n, pre=pre, w=w, seed=seed, amp=0.1, it=3))
                for o in options(kind, tier):
                    # fewer k points than coefficients
                    if d < 3 and n < 3 and (th or o[0] == "optimize_cg" or o[1]["batch_div"] == 1):
                        for nk in (2, 3):
                            if o[1].get("batch_div", 1) < nk:
                                ex.append(dict(kind=kind, dim=d, n=n, opt=o, nk=nk))
                        if o[0] == "optimize_cg":
                            near += [dict(kind=kind, dim=d, n=n, opt=o, pert=0.02, it=4, nk=nk) for nk in (1, 2, 3) if nk > 1 or o[1]["precond"]]
    dflt = [dict(kind=kind, dim=d, n=n) for kind in ASYM + BSM for d in dims for n in (1, 2, 3) if ("symmetrizer" not in kind or n == 2) and not (d == 3 and kind == "asym_s")]
    st = [dict(kind=kind, dim=d, n=n) for kind in ("asym", "asym_s", "bsm", "bsm_sym") for d in (1, 2, 3) for n in (1, 2, 3, 4)]
    rn = [dict(kind=kind, dim=d, n=n) for kind in ASYM + BSM for d in (1, 2, 3) for n in (1, 2, 3) if "symmetrizer" not in kind or n == 2]
    af = [dict(dim=d, n=n, start=s, below=b, above=a, rnd=r, nk=nk) for d in (1, 2) for n in (1, 2) for s in (0, 1, 2) for b, a in ((0, 0), (1, 0), (0, 1)) for r in (False, True) for nk in (15, 30)]
    for d in dims:
        for n in (1, 2):
            for o in options("asym_s", tier):
                exs.append(dict(dim=d, n=n, opt=o))
    return [
        Enum("exact start", lambda t: ex, run_exact, "model kind x dimension x bands x optimiser options x band window x weights x keep_zeros"),
        Enum("trained overlap", lambda t: exs, run_exact_s, "dimension x bands x optimiser options"),
        Enum("near start", lambda t: near, run_near, "model kind x dimension x bands x optimiser options x band window x weights"),
        Enum("invariances", lambda t: inv, run_inv, "model kind x dimension x bands x options: histories, units, order, basis, weights"),
        Enum("least squares", lambda t: lsq, run_lsq, "decoupled bands: model kind x dimension x bands x preconditioner x weights x data"),
        Enum("default arguments", lambda t: dflt, run_default, "model kind x dimension x bands x method x iteration limit x thresholds"),
        Enum("starting models", lambda t: st, run_start, "model kind x dimension x bands x padding x coefficient functions"),
        Enum("randomize", lambda t: rn, run_random, "model kind x dimension x bands x sigma x keep_zeros x overlap"),
        Enum("complete fits", lambda t: af, run_autofit, "dimension x bands x first neighbours x additional bands x randomisation x number of samples"),
        Enum("zeros", lambda t: zer, run_zeros, "model kind x dimension x bands x options x zero pattern"),
    ]
