"""C16: losses, errors, windowed loss and error histogram against brute force over all band alignments."""
import contextlib
import io
import itertools
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, gen_k, close, herm
from tight_binding_redweasel import loss as L
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel import Symmetry
from tight_binding_redweasel.logger import OptimisationLogger

LEVEL = "model_checking"
ASSUMPTIONS = ["band offsets are between 0 and the difference of the band counts",
               "every ordered integer data set over a small alphabet is enumerated; larger shapes use fixed generic values"]


def rows(nb, vals):
    return [list(r) for r in itertools.combinations_with_replacement(vals, nb)]


def datasets(nk, nb, vals):
    return [np.array(x, float) for x in itertools.product(rows(nb, vals), repeat=nk)]


WIN = [(-10, 10), (0, 0), (0.5, 2), (2, 2), (-1, 1), (5, 6), (-np.inf, np.inf), (-np.inf, 1.0)]


def ref_loss(b, r, w, off):
    s = 0.0
    for k in range(len(r)):
        for j in range(len(r[0])):
            s += (w[j] * (b[k][off + j] - r[k][j]))**2
    return (s / len(r))**0.5


def ref_windowed(b, r, lo, hi, skip):
    if skip:
        tot = 0.0
        for k in range(len(b)):
            sel = [x for x in r[k] if lo <= x <= hi]
            m = list(b[k])
            if len(sel) <= len(m):
                tot += min((sum((x - m[p])**2 for x, p in zip(sel, pr)) for pr in itertools.permutations(range(len(m)), len(sel))), default=0.0)
            else:
                tot += min(sum((sel[p] - y)**2 for y, p in zip(m, pr)) for pr in itertools.permutations(range(len(sel)), len(m)))
        return (tot / len(b))**0.5
    n, m = len(b[0]), len(r[0])
    best = np.inf
    for off in range(abs(n - m) + 1):
        s = 0.0
        for k in range(len(b)):
            for j in range(min(n, m)):
                x, y = (b[k][j], r[k][j + off]) if n < m else (b[k][j + off], r[k][j])
                s += (x - y)**2 * (lo <= y <= hi)
        best = min(best, s)
    return (best / len(b))**0.5


def ref_hist(b, r, N, skip):
    """list of admissible histograms (ties between alignments)"""
    n, m = len(b[0]), len(r[0])
    e = np.linspace(max(np.min(r), np.min(b)), min(np.max(r), np.max(b)), N)
    h = e[1] - e[0]
    al = []
    if skip:
        per = []
        for k in range(len(b)):
            c = []
            if m <= n:
                for pr in itertools.permutations(range(n), m):
                    c.append([(r[k][j], abs(r[k][j] - b[k][p])) for j, p in enumerate(pr)])
            else:
                for pr in itertools.permutations(range(m), n):
                    c.append([(r[k][p], abs(r[k][p] - b[k][j])) for j, p in enumerate(pr)])
            cost = [sum(x[1] for x in q) for q in c]
            per.append([q for q, x in zip(c, cost) if x <= min(cost) + 1e-12])
        if np.prod([len(p) for p in per]) > 300:
            raise Skip("too many equivalent assignments")
        al = [sum(x, []) for x in itertools.product(*per)]
    else:
        c = []
        for off in range(abs(n - m) + 1):
            c.append([(r[k][j + off], abs(b[k][j] - r[k][j + off])) if n < m else (r[k][j], abs(b[k][j + off] - r[k][j])) for k in range(len(b)) for j in range(min(n, m))])
        cost = [sum(x[1]**2 for x in q) for q in c]
        al = [q for q, x in zip(c, cost) if x <= min(cost) + 1e-12]
    return e, [np.array([max([d for x, d in q if abs(x - c) <= h / 2] + [0]) for c in e]) for q in al]


def check(b, r, wins, hist=True):
    n, m = len(b[0]), len(r[0])
    cnt = 0
    b0, r0 = b.copy(), r.copy()
    if n >= m:
        for off in range(n - m + 1):
            for w in ([1.0] * m, [0.0] * m, list(np.arange(m) + 0.5), [0.0] * (m - 1) + [2.0], [1] * m):
                w = np.array(w)
                w0 = w.copy()
                l, e = L.model_error(b, r, w, off)
                want = ref_loss(b, r, w, off)
                close(l, want, "model_error loss", 1e-12, 1 + want)
                close(L.model_loss(b, r, w, off), want, "model_loss", 1e-12, 1 + want)
                close(L.model_loss(b, r, list(w), off), want, "model_loss with a list of weights", 1e-12, 1 + want)
                close(e, [max(abs(b[k][off + j] - r[k][j]) for k in range(len(b))) for j in range(m)], "maximal error per band", 1e-12)
                require(np.array_equal(w, w0), "the weights were modified")
                cnt += 3
    for skip in (False, True):
        for lo, hi in wins:
            got, want = L.model_windowed_loss(b, r, lo, hi, allow_skipped_bands=skip), ref_windowed(b, r, lo, hi, skip)
            close(got, want, f"windowed loss in [{lo},{hi}], skip={skip}, bands {b.tolist()}, reference {r.tolist()}", 1e-10, 1)
            cnt += 1
        if hist and max(np.min(r), np.min(b)) < min(np.max(r), np.max(b)):
            for N in (2, 5):
                e, opts = ref_hist(b, r, N, skip)
                ge, gh = L.model_error_hist(b, r, N=N, allow_skipped_bands=skip)
                close(ge, e, "bin centers", 1e-12)
                h = e[1] - e[0]
                edge = np.min(np.abs(np.abs(r[:, :, None] - e) - h / 2), axis=(0, 1)) < 1e-9  # value on the border of two bins
                require(gh.shape == (N,) and any(np.all((np.abs(gh - o) < 1e-10) | edge) for o in opts), "histogram %s of the bands %s and reference %s (skip=%s), expected %s", gh, b.tolist(), r.tolist(), skip, opts[:3])
                cnt += 1
    require(np.array_equal(b, b0) and np.array_equal(r, r0), "the bands were modified")
    return cnt


def run_all(c):
    n, m, nk, vals = c["n"], c["m"], c["nk"], c["vals"]
    cnt = 0
    D = datasets(nk, n, vals)
    for r in datasets(nk, m, vals)[c["part"]::c["parts"]]:
        for b in D:
            cnt += check(b, r, WIN[:c["nw"]], c["hist"])
    return dict(n=cnt, nontrivial=True)


def run_gen(c):
    n, m, nk, s = c["n"], c["m"], c["nk"], c["seed"]
    b, r = np.sort(gen(s, (nk, n)), axis=-1), np.sort(gen(s + 50, (nk, m)), axis=-1)
    if c["far"]:
        # the reference is an exact window of the model at a given offset (or the other way around)
        off = c["far"] - 1
        if off > abs(n - m):
            raise Skip("no such offset")
        if m <= n:
            r = b[:, off:off + m].copy()
        else:
            b = r[:, off:off + n].copy()
        close(L.model_windowed_loss(b, r, -100, 100), 0.0, "windowed loss of an exact window", 1e-12)
        close(L.model_windowed_loss(b, r, -100, 100, allow_skipped_bands=True) if m <= n else 0.0, 0.0, "windowed loss with skipped bands of an exact window", 1e-12)
        if m <= n:
            close(L.model_loss(b, r, np.ones(m), off), 0.0, "loss at the true offset", 1e-12)
    return dict(n=check(b, r, [(-10, 10), (-0.4, 0.4), (0.0, 2.0), (np.median(r), np.inf)]) + 3, nontrivial=True)


def models(dim, n):
    R = np.array([[0] * dim] + np.eye(dim).tolist() + [[1] * dim])
    H = np.array([herm(3 + i, n) if i == 0 else 0.4 * gen(9 * i, (n, n)) for i in range(len(R))]) + 0j
    a = AsymTightBindingModel(HermitianFourierSeries(R, H))
    S = np.array([0.1 * herm(7 + i, n) + (np.eye(n) if i == 0 else 0) if i == 0 else 0.05 * gen(4 * i, (n, n)) for i in range(len(R))]) + 0j
    o = AsymTightBindingModel(HermitianFourierSeries(R, H), HermitianFourierSeries(R, S))
    B = BandStructureModel.init_tight_binding(Symmetry.none(dim), R, n, exp=True)
    return {"asym": a, "overlap": o, "bsm": B}


def run_methods(c):
    dim, n, m = c["dim"], c["n"], c["m"]
    mod = models(dim, n)[c["model"]]
    if mod is None:
        raise Skip("no model")
    if c["model"] == "bsm":
        mod.params[:] = [herm(20 + i, n) for i in range(len(mod.params))]
    k = gen_k(dim, 3)
    b = mod(k)
    r = np.sort(gen(11, (5, m)), axis=-1) * 2
    cnt = 0
    if m <= n:
        for off in range(n - m + 1):
            w = np.arange(m) + 0.5
            close(mod.loss(k, r, w, off), ref_loss(b, r, w, off), "loss", 1e-10, 1)
            l, e = mod.error(k, r, w, off)
            l2, e2 = L.model_error(b, r, w, off)
            close(l, l2, "error loss", 1e-10)
            close(e, e2, "error", 1e-10)
            # printed loss: weights relative to their mean
            lw = ref_loss(b, r, w / np.mean(w), off)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                mod.print_error(k, r, w, off, prefix="P ")
            require(buf.getvalue().startswith(f"P loss: {lw:.2e} (max band-error"), "printed %r, loss %.2e", buf.getvalue(), lw)
            log = OptimisationLogger()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                mod.print_error(k, r, 2.0, off, log=log)
            msgs = str(vars(log)) + buf.getvalue()
            require(f"loss: {ref_loss(b, r, np.ones(m), off):.2e}" in msgs, "message %s in the log", msgs)
            cnt += 5
    for skip in (False, True):
        for win in ((-10, 10), (-0.5, 0.7)):
            close(mod.windowed_loss(k, r, *win, allow_skipped_bands=skip), ref_windowed(b, r, *win, skip), "windowed loss of the model", 1e-10, 1)
            cnt += 1
    close(mod(k), b, "the model is unchanged", 1e-14)
    return dict(n=cnt, nontrivial=True)


def subs(tier):
    th = tier == "thorough"
    V = (0, 1, 3)
    shapes = [(n, m) for n in (1, 2, 3) for m in (1, 2, 3)]
    one = [dict(n=n, m=m, nk=1, vals=V + ((4,) if th else ()), nw=8, hist=True, part=p, parts=2) for n, m in shapes + ([(4, m) for m in (1, 2, 3, 4)] + [(n, 4) for n in (1, 2, 3)] if th else [(4, 2), (2, 4)]) for p in range(2)]
    two = [dict(n=n, m=m, nk=2, vals=(0, 1, 3) if th else (0, 2), nw=6, hist=True, part=p, parts=4) for n, m in shapes for p in range(4)]
    gens = [dict(n=n, m=m, nk=nk, seed=s, far=f) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4) for nk in (1, 3, 6) for s in range(1, 12 if th else 4) for f in (0, 1, 2, 3, 4)]
    meth = [dict(model=k, dim=d, n=n, m=m) for k in ("asym", "overlap", "bsm") for d in (1, 2, 3) for n in (1, 2, 3) for m in (1, 2, 3, 4)]
    return [
        Enum("one k point", lambda t: one, run_all, "every pair of ordered band sets over an alphabet x all windows, offsets, weights"),
        Enum("two k points", lambda t: two, run_all, "every pair of ordered band sets at two k points over an alphabet"),
        Enum("generic", lambda t: gens, run_gen, "shapes up to 4x4 bands x k counts x data sets x exact windows at every offset"),
        Enum("methods", lambda t: meth, run_methods, "model kind x dimension x band counts"),
    ]
