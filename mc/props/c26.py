"""C26: TightBindingModel: matrix elements given by a unitary representation."""
import itertools
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, genc, herm, close
from .c10 import srep, parity, NS, quiet
from tight_binding_redweasel.tight_binding import TightBindingModel
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
from tight_binding_redweasel.symmetry import Symmetry

LEVEL = "exploration"
ASSUMPTIONS = ["symmetries are trivial or contain the inversion (others are unfinished in the source: the symmetriser refuses them)",
               "orthogonal operations; neighbour lists are complete for the group with one of r and -r",
               "reference bands of the start model: degeneracies up to the dimension which fit to the representation, k=0 is sampled"]

REPS = ["none1", "none2", "none3", "none2_2", "none2_1", "mix1", "mix2", "d3", "prod", "c4:vec:1:1", "c4:complex:1:1", "mirrors:vec:1:1", "c3:complex:1:0", "c3:vec:1:1", "ci:rsum:1:0", "m_2:vec:1:1", "c2:vec:1:1", "inv1", "inv2", "inv3_even", "inv3_odd", "oh3", "oh3e"]


def rep(name):
    if name.startswith("none"):
        n, _, d = name[4:].partition("_")
        return UR(Symmetry.none(int(d or 3)), int(n))
    if name in ("inv1", "inv2"):
        r = UR(Symmetry.inv(int(name[3])), 3)
        r.inv_split = 2
        return r
    if name.startswith("inv3"):
        r = UR(Symmetry.inv(3), 2)
        r.inv_split = 2 if name.endswith("even") else 0
        return r
    if name == "oh3":
        return UR.o3()
    if name == "oh3e":
        return UR.o3() + UR.one_dim(False, False)
    return srep(name)


def setup(c):
    r = rep(c["rep"])
    if not (r.sym.inversion or len(r.U) <= 1):
        raise Skip
    d = int(r.sym.dim())
    if c["nb"] >= len(NS[d]):
        raise Skip
    lst = [tuple(map(float, x)) for x in NS[d][c["nb"]]]
    if not np.any(lst[0]) is np.False_ and np.any(lst[0]):
        raise Skip
    nb = np.array(r.sym.complete_neighbors(lst))
    if any(np.any(np.abs(s @ s.T - np.eye(d)) > 1e-9) for s in r.sym.S):
        raise Skip
    return r, d, nb


def cases(tier):
    for name in REPS:
        for nb in range(8):
            yield dict(rep=name, nb=nb)


def params(r, nb, tag):
    n = len(nb) * (1 if r.sym.inversion else 2) - (0 if r.sym.inversion else 1)
    return np.array([herm(tag + i, r.dim()) + (np.diag(np.arange(r.dim())) if i == 0 else 0) for i in range(n)])


def fourier(H, nb, k):
    out = H[0] + 0 * np.exp(1j * np.asarray(k)[..., 0])[..., None, None]
    for h, x in zip(H[1:], nb[1:]):
        ph = np.exp(2j * np.pi * (np.asarray(k) @ x))[..., None, None]
        out = out + ph * h + np.conj(ph) * np.conj(h.T)
    return out


def defn(p, r, nb, k):
    """the matrix from its definition"""
    par = parity(r)
    even = (par[:, None] * par[None, :] > 0) * 1.0
    out = np.zeros(np.shape(k)[:-1] + p[0].shape, complex)
    L = len(nb)
    for i, x in enumerate(nb):
        t = 2 * np.pi * np.asarray(k) @ x
        c = (np.cos(t) - (1 if i else 0))[..., None, None] if i else np.ones(np.shape(t))[..., None, None]
        s = np.sin(t)[..., None, None]
        if r.sym.inversion:
            out = out + c * even * p[i] + s * (1 - even) * p[i]
        else:
            out = out + c * p[i] + (s * p[L + i - 1] if i else 0)
    return out


def run(c):
    r, d, nb = setup(c)
    N = r.dim()
    par = parity(r)
    even = (par[:, None] * par[None, :] > 0)
    p = params(r, nb, 20)
    p0 = p.copy()
    n = 0
    for arg in (p, list(p)):
        m = TightBindingModel(r, nb, arg)
        require(np.array_equal(p, p0), "parameters of the caller were changed")
        if r.sym.inversion:
            want = p.copy()
            want[0] *= even
            close(m.params, want, "parameters", 0)
    require(m.band_count() == N and m.dim() == d, "sizes")
    z = TightBindingModel(r, nb, None)
    close(z.params, np.zeros(np.shape(p)), "empty model", 0)
    ks = np.concatenate([gen(31, (4, d)), np.zeros((1, d)), np.full((1, d), 0.5)])
    shapes = [ks, ks[0], ks[4], ks.reshape(2, 3, d), ks.reshape(3, 1, 2, d), ks[:1], ks.tolist()]
    if N in (2, 3, 4):
        shapes.append(gen(32, (N, d)))      # as many k points as bands
        shapes.append(gen(33, (N, N, d)))

    def matrix(m, what):
        cnt = 0
        want_ = m.params
        for k in shapes:
            H = m.f(k)
            close(H, defn(want_, r, nb, k), what, 1e-9)
            close(H, np.conj(np.swapaxes(H, -1, -2)), what + " hermitian", 1e-9)
            close(m.bands(k), np.linalg.eigvalsh(H), what + " bands", 1e-9)
            close(m(k), m.bands(k), what + " call", 0)
            cnt += 4
        return cnt
    n += matrix(m, "matrix")
    # complex coefficients
    H = m.params_complex()
    close(fourier(H, nb, ks), m.f(ks), "Fourier sum of the complex coefficients", 1e-9)
    m2 = TightBindingModel(r, nb, None)
    pc = H.copy()
    m2.set_from_complex(H)
    close(H, pc, "coefficients of the caller", 0)
    close(m2.f(ks), m.f(ks), "model set from its complex coefficients", 1e-9)
    close(m2.params, m.params, "parameters set from the complex coefficients", 1e-9)
    close(m2.params_complex(), H, "coefficients again", 1e-9)
    if not r.sym.inversion:
        Hr = np.array([herm(60, N)] + [genc(61 + i, (N, N)) for i in range(len(nb) - 1)])
        for arg in (Hr, list(Hr)):
            m2.set_from_complex(arg)
            close(m2.f(ks), fourier(Hr, nb, ks), "model set from given coefficients", 1e-9)
        m2.set_from_complex(np.real(Hr))
        close(m2.f(ks), fourier(np.real(Hr), nb, ks), "model set from real coefficients", 1e-9)
    n += 6
    # copies
    m3 = m.copy()
    keep = m.params.copy()
    close(m3.f(ks), m.f(ks), "copy", 0)
    m3.params[0] += 1
    m3.normalize()
    close(m.params, keep, "the copy is independent", 0)
    # symmetry
    m.normalize()
    q = m.params.copy()
    n += matrix(m, "symmetrised matrix")
    for s, u in zip(r.sym.S, r.U):
        for sg in (1, -1) if r.sym.inversion else (1,):
            uu = (np.diag(par) if sg < 0 else np.eye(N)) @ u
            close(m.f(sg * ks @ np.asarray(s).T), uu @ m.f(ks) @ np.conj(uu.T), "H(Sk) = U H(k) U^+", 1e-9)
            n += 1
    m.normalize()
    close(m.params, q, "normalising again", 1e-9)
    # the group mean of the model
    old = TightBindingModel(r, nb, p)
    acc = 0
    cnt = 0
    for s, u in zip(r.sym.S, r.U):
        for sg in (1, -1) if r.sym.inversion else (1,):
            uu = (np.diag(par) if sg < 0 else np.eye(N)) @ u
            acc = acc + np.conj(uu.T) @ old.f(sg * ks @ np.asarray(s).T) @ uu
            cnt += 1
    close(m.f(ks), acc / cnt, "normalising is the group mean", 1e-9)
    # loss functions agree with the bands
    ref = m.bands(ks)[:, :1] + 0.1
    close(m.loss(ks, ref, [1], 0), m.error(ks, ref, [1], 0)[0], "loss", 1e-12)
    return dict(n=n + 8, nontrivial=len(nb) > 1, outcome=(N, len(nb)))


# ---------------------------------------------------------------- fits
def fcases(tier):
    for name in REPS:
        for nb in (1, 2, 3):
            for train in (True, False):
                for bd in (1, 2):
                    for win in ((0, None), (0, 1), (1, None)):
                        yield dict(rep=name, nb=nb, train=train, bd=bd, win=win)


def run_fit(c):
    r, d, nb = setup(c)
    N = r.dim()
    off, cnt = c["win"]
    hi = N if cnt is None else off + cnt
    if hi > N or off >= hi:
        raise Skip
    if len(nb) * N * N * len(r.sym.S) > 20000:
        raise Skip
    ks = np.concatenate([np.zeros((1, d)), gen(41, (6, d)) * 0.5])
    m0 = TightBindingModel(r, nb, params(r, nb, 70) * 0.4)
    m0.normalize()
    ref = m0.bands(ks)[:, off:hi]
    kw = dict(batch_div=c["bd"], train_k0=c["train"])

    def fit(m, refb, w, its, **more):
        with quietly():
            m.optimize(ks, 1, refb, w, off, its, **dict(kw, **more))
    # an exact model stays
    for its in (0, 1, 5):
        m = m0.copy()
        fit(m, ref, 1, its)
        close(m.bands(ks), m0.bands(ks), "bands of an exact model after %d steps" % its, 1e-7)
        symmetric(m, r, ks)
    # symmetry, onsite matrix, weights
    refx = ref + 0.05 * gen(43, ref.shape)
    m = m0.copy()
    fit(m, refx, 1, 7)
    symmetric(m, r, ks)
    if not c["train"]:
        close(m.params[0], m0.params[0], "fixed matrix at k=0", 1e-12)
    n = 5
    if ref.shape[1] > 1:
        w = np.ones(ref.shape[1])
        w[0] = 0
        a, b = m0.copy(), m0.copy()
        bad = refx.copy()
        bad[:, 0] += gen(44, (len(ks),))
        fit(a, refx, w, 3)
        fit(b, bad, w, 3)
        close(a.params, b.params, "bands with zero weight do not matter", 1e-9)
        n += 1
    # one small step reduces the loss (all samples in the batch)
    if c["bd"] == 1 and c["train"]:
        one = np.ones(ref.shape[1])
        l0 = m0.loss(ks, refx, one, off)
        m = m0.copy()
        fit(m, refx, 1, 1, learning_rate=0.05)
        require(m.loss(ks, refx, one, off) < l0, "one step makes the loss worse: %s -> %s", l0, m.loss(ks, refx, one, off))
    return dict(n=n, nontrivial=True)


def symmetric(m, r, ks):
    par = parity(r)
    close(m.params, np.conj(np.swapaxes(m.params, -1, -2)), "hermitian parameters", 1e-9)
    for s, u in list(zip(r.sym.S, r.U))[-6:]:
        for sg in (1, -1) if r.sym.inversion else (1,):
            uu = (np.diag(par) if sg < 0 else np.eye(len(par))) @ u
            close(m.f(sg * ks @ np.asarray(s).T), uu @ m.f(ks) @ np.conj(uu.T), "symmetry after the fit", 1e-8)


class quietly:
    def __enter__(self):
        import sys, io
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o


# ---------------------------------------------------------------- starting models
def irreps(r):
    g, cnt = r.subspaces()
    return sorted(int(x) for x in cnt)


def rcases(tier):
    for name in REPS:
        for order in (False, True):
            for add in (0, 1, 2, 3):
                for tag in (0, 1):
                    yield dict(rep=name, nb=1, order=order, add=add, tag=tag)


def run_ref(c):
    r, d, nb = setup(c)
    N = r.dim()
    try:
        g, cnt = r.subspaces()
    except AssertionError:
        raise Skip
    if max(cnt) > d:
        raise Skip
    ks = np.concatenate([gen(41, (2, d)), np.zeros((1, d)), gen(42, (3, d))])
    # energies at k=0: one level per irreducible representation, the lowest ones are left out
    order = [int(x) for x in cnt[np.argsort(np.argmax(g, axis=1))]]
    if c["tag"]:
        order = order[::-1] if not c["order"] else order
    levels = [(-1.0 + 1.3 * i, k) for i, k in enumerate(order)]
    bands0 = np.concatenate([[e] * k for e, k in levels])
    if c["add"]:
        if c["order"] or c["add"] >= len(levels):
            raise Skip
        bands0 = np.concatenate([[e] * k for e, k in levels[c["add"]:]])
    ref = np.sort(bands0 + 0.1 * gen(45, (len(ks), len(bands0))), axis=1)
    ref[2] = bands0
    np.random.seed(c["tag"])
    with quietly():
        try:
            m = TightBindingModel.init_from_ref(r, nb, ks, ref, use_repr_order=c["order"], verbose=bool(c["tag"]))
        except ValueError:
            # documented: the data does not fit to the representation (greedy assignment), only with additional bands
            require(c["add"] > 0, "the data fits to the representation")
            return dict(n=1, nontrivial=False)
    got = np.sort(m.bands(ks[2]))
    # all reference energies, additional bands below
    require(m.band_count() == N, "band count")
    left = list(got)
    for e in np.sort(bands0):
        i = int(np.argmin(np.abs(np.array(left) - e))) if left else 0
        require(left and abs(left[i] - e) < 1e-4, "the energy %s is missing in the levels %s (data %s)", e, got, bands0)
        del left[i]
    # additional bands are below the data or complete a representation
    for e in left:
        require(e <= np.min(bands0) + 1e-9 or np.min(np.abs(bands0 - e)) < 1e-4, "additional level %s", e)
    symmetric(m, r, ks)
    return dict(n=3, nontrivial=True, outcome=(c["rep"], len(bands0)))


# ---------------------------------------------------------------- arbitrary degeneracies in the data
def compositions(n):
    if n == 0:
        yield ()
    for a in range(1, n + 1):
        for rest in compositions(n - a):
            yield (a,) + rest


def mcases(tier):
    for name in REPS:
        for bands in range(1, 7):
            for deg in compositions(bands):
                for order in (False, True):
                    for tag in (0, 1):
                        yield dict(rep=name, deg=deg, order=order, tag=tag)


def run_mismatch(c):
    """the energies of the data have any degeneracies: refused, or all of the data is in the model at k=0"""
    r, d, nb = setup(dict(rep=c["rep"], nb=1))
    N = r.dim()
    deg = c["deg"]
    if sum(deg) > N or max(deg) > d:
        raise Skip
    try:
        g, cnt = r.subspaces()
    except AssertionError:
        raise Skip
    if max(cnt) > d:
        raise Skip
    bands0 = np.concatenate([[-1.0 + 1.3 * i] * k for i, k in enumerate(deg)])
    ks = np.concatenate([np.zeros((1, d)), gen(42, (3, d))])
    ref = np.sort(bands0 + 0.1 * gen(45, (len(ks), len(bands0))), axis=1)
    ref[0] = bands0
    np.random.seed(c["tag"])
    with quietly():
        try:
            m = TightBindingModel.init_from_ref(r, nb, ks, ref, use_repr_order=c["order"], verbose=False)
        except (ValueError, AssertionError):
            return dict(n=1, nontrivial=False, outcome="refused")
    left = list(np.sort(m.bands(ks[0])))
    require(len(left) == N, "band count")
    got = list(left)
    for e in bands0:
        i = int(np.argmin(np.abs(np.array(left) - e)))
        require(abs(left[i] - e) < 1e-4, "the energy %s is missing in the levels %s (data %s, representation %s)", e, got, bands0, sorted(int(x) for x in cnt))
        del left[i]
    symmetric(m, r, ks)
    return dict(n=2, nontrivial=True, outcome="fitted")


def subs(tier):
    return [Enum("models", cases, run, "representations x neighbour shells x k shapes"),
            Enum("fits", fcases, run_fit, "representations x neighbour shells x options x band windows"),
            Enum("starting models", rcases, run_ref, "representations x order of the levels x additional bands"),
            Enum("other degeneracies", mcases, run_mismatch, "representations x every sequence of degeneracies of the data x use_repr_order")]
