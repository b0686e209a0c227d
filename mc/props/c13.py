"""C13: state counting, densities, Fermi energy, gap and band ranges of DensityOfStates against exact sums over the grid cells."""
import itertools
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, close, herm
from .c12 import cube_exact, tetra_exact, BITS
from tight_binding_redweasel import dos, bulk
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries

LEVEL = "exploration"
ASSUMPTIONS = ["the cells of the cut methods are compared with exact formulas up to the documented clamping (6e-4 of a cell)",
               "Fermi levels: a ValueError (documented as failed root search) is accepted where the count jumps over the wanted number (flat bands)",
               "cubes+ extrapolates and is only monotone up to its extrapolation error"]
TIER = "quick"
LAT = {"unit": None, "cubic": [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]], "fcc": np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]) * 3, "ortho": np.diag([0.5, 1.5, 4.0]),
       "skew": np.array([[1.0, 0.3, 0.0], [0.0, 0.9, 0.2], [0.1, 0.0, 1.4]]), "left": np.array([[0.0, 1.3, 0], [1.0, 0, 0.2], [0, 0, 0.8]])}


def C(c, *f):
    return sum(x * np.cos(2 * np.pi * c[..., i]) for i, x in enumerate(f))


def srt(*b):
    return np.sort(np.stack(b, -1), axis=-1)


CRYSTAL = {
    "s": lambda c: srt(-C(c, 1.0, 0.7, 0.4) + 0.1),
    "generic": lambda c: srt(C(c, 1.0, 0.7, 0.4) + 0.3 * np.sin(2 * np.pi * (c[..., 0] + c[..., 1])) + 0.2 * np.cos(2 * np.pi * (c[..., 1] - 2 * c[..., 2])), C(c, -0.4, 0.5, 0.9) + 0.25 * np.sin(2 * np.pi * (c[..., 2] - c[..., 0])) + 0.7),
    "gap": lambda c: srt(-np.sqrt(1 + (1 + C(c, 0.8, 0.5, 0.3)) ** 2), np.sqrt(1 + (1 + C(c, 0.8, 0.5, 0.3)) ** 2)),
    "semi": lambda c: srt(C(c, 1, 1, 1) - 2.5, C(c, -1, -0.5, 1) + 2.0),
    "flat": lambda c: srt(C(c, 1, 0.5, 0.25), 0 * c[..., 0] + 0.3),
    "line": lambda c: srt(C(c, 1, 0, 0), C(c, 0, 2, 0) + 2.2),
    "const": lambda c: srt(0 * c[..., 0] - 1, 0 * c[..., 0] + 2),
    "linear": lambda c: np.sum(np.abs((c + 0.5) % 1 - 0.5), axis=-1, keepdims=True) * [1.0, 2.0, 3.0] + 0.5,
    "core": lambda c: srt(0 * c[..., 0] - 50 + 1e-3 * C(c, 1, 1, 1), C(c, 1, 1, 1), C(c, 1, 1, 1) + 30, C(c, -1, 1, 0.2) + 31),
}
EVEN = ("s", "gap", "semi", "flat", "line", "const", "linear", "core")


class Plain:
    def __init__(self, f, A, pick=None):
        self.f, self.A, self.pick = f, np.eye(3) if A is None else np.asarray(A, float), pick

    def __call__(self, k):
        b = self.f(np.asarray(k) @ self.A)
        return b if self.pick is None else b[..., self.pick]


def tb(A, nb, seed=0):
    """library model with gradients and hessians, neighbors at lattice vectors"""
    A = np.eye(3) if A is None else np.asarray(A, float)
    R = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0], [0, 1, 1]])
    H = []
    for i, r in enumerate(R):
        M = (0.35 if i else 1.0) * gen(17 * nb + i + seed, (nb, nb))
        H.append((M + M.T) / 2 + (np.diag(np.arange(nb)) * 1.3 if i == 0 else 0))
    return AsymTightBindingModel(HermitianFourierSeries(R @ A.T, np.array(H) + 0j))


def make_model(name, A):
    if name in CRYSTAL:
        return Plain(CRYSTAL[name], A)
    return tb(A, int(name[2:]))


def grids(c):
    N, ranges, wrap, mid = c["N"], c["ranges"], c["wrap"], c["mid"]
    ax = []
    for lo, hi in ranges:
        st = (hi - lo) / N
        ax.append(lo + st * (np.arange(N if wrap or mid else N + 1) + (0.5 if mid else 0)))
    return np.stack(np.meshgrid(*ax, indexing="ij"), -1), np.array([(hi - lo) / N for lo, hi in ranges])


def make(c, model=None):
    A = LAT[c["lat"]]
    return dos.DensityOfStates(model if model is not None else make_model(c["model"], A), N=c["N"], A=A, ranges=c["ranges"], wrap=c["wrap"], smearing=c["smear"], use_gradients=c["grad"], midpoint=c["mid"], check=c.get("check", False))


def oracle(c, model, L):
    """bands on the grid and the exact count and density of every band at the energies L (inside its range)"""
    A = np.eye(3) if LAT[c["lat"]] is None else np.asarray(LAT[c["lat"]], float)
    cry, st = grids(c)
    k = cry @ np.linalg.inv(A)
    E = model(k.reshape(-1, 3))
    nb = E.shape[-1]
    E = E.reshape(cry.shape[:3] + (nb,))
    n = E.shape[:3]
    G = None
    if c["grad"]:
        G = model.bands_grad(k.reshape(-1, 3))[1].reshape(cry.shape + (nb,))
    cells = list(itertools.product(*[range(m if c["wrap"] else m - 1) for m in n]))
    B = np.linalg.inv(A).T

    def method(E, cells, wrap):
        n = E.shape[:3]
        V, D, exact, amb = np.zeros((nb, len(L))), np.zeros((nb, len(L))), [True] * nb, np.zeros((nb, len(L)), bool)
        for ce in cells:
            v = np.array([E[tuple((np.array(ce) + b) % np.array(n))] for b in BITS])
            for i in range(nb):
                if c["smear"] == "tetras":
                    for p in itertools.permutations((1, 2, 4)):
                        t = [v[0, i], v[p[0], i], v[p[0] | p[1], i], v[7, i]]
                        r = np.array([tetra_exact(t, x) for x in L])
                        V[i] += r[:, 0] / 6
                        D[i] += r[:, 1] / 6
                    w = np.sort(v[:, i])
                    if np.min(np.diff(w)) < 1e-4:
                        exact[i] = False
                    for q in itertools.permutations((1, 2, 4)):
                        t = [v[0, i], v[q[0], i], v[q[0] | q[1], i], v[7, i]]
                        if np.ptp(t) < 1e-9:
                            amb[i] |= np.abs(L - t[0]) < 1e-6
                    continue
                if G is not None:
                    a0, g = E[ce][i], B.T @ G[ce][:, i] * st
                else:
                    a0 = v[:, i].mean()
                    g = np.array([sum((1 if b[d] else -1) * v[j, i] for j, b in enumerate(BITS)) / 4 for d in range(3)])
                gs = np.linalg.norm(g)
                if c["smear"].startswith("cubes"):
                    g = np.where(np.abs(g) < 1e-6 * gs, 0, g)
                    if gs < 1e-9:
                        g = 0 * g
                        amb[i] |= np.abs(L - a0) < 1e-6
                    x, y = cube_exact(g, L - a0)
                    if gs == 0 or np.min(np.abs(g)) < 2e-3 * gs:
                        exact[i] = False
                    y = np.where(np.isfinite(y), y, 0)
                else:
                    if G is not None:
                        gs = np.linalg.norm(G[ce][:, i]) * abs(np.linalg.det(B) / np.prod(n)) ** (1 / 3)
                    rr = (3 / (4 * np.pi)) ** (1 / 3)
                    if gs < 1e-9:
                        amb[i] |= np.abs(L - a0) < 1e-6
                        exact[i] = False
                        x, y = (L > a0) * 1.0, 0 * L
                    else:
                        h = rr * (1 + np.clip((L - a0) / (gs * rr), -1, 1))
                        x, y = np.pi * h ** 2 * (3 * rr - h) / 3, np.pi * h * (2 * rr - h) / gs
                V[i] += x
                D[i] += y
        return V / len(cells), D / len(cells), exact, amb

    V, D, exact, amb = method(E, cells, c["wrap"])
    if c["smear"] == "cubes+":
        Ec = E[::2, ::2, ::2]
        cc = list(itertools.product(*[range(m if c["wrap"] else m - 1) for m in Ec.shape[:3]]))
        V2, D2, ex2, amb2 = method(Ec, cc, c["wrap"])
        V, D, exact = V + (V - V2) / 3, D + (D - D2) / 3, [a and b for a, b in zip(exact, ex2)]
        amb = amb | amb2
    return E, V, D, exact, amb


FULL = [[-0.5, 0.5]] * 3


def cases(tier):
    th = tier != "quick"
    names = list(CRYSTAL) + ["tb1", "tb2", "tb3"]
    for lat in LAT:
        for name in names:
            for smear in ("cubes", "cubes+", "tetras", "spheres"):
                Ns = ((2, 4) if smear == "cubes+" else (2, 3, 4)) + ((5, 6) if th and smear != "cubes+" else (6,) if th else ())
                for N in Ns:
                    for wrap, mid in ((True, False), (True, True), (False, False)):
                        yield {"lat": lat, "model": name, "smear": smear, "N": N, "wrap": wrap, "mid": mid, "grad": False, "ranges": FULL}
                    if smear in ("cubes", "spheres") and name.startswith("tb"):
                        yield {"lat": lat, "model": name, "smear": smear, "N": N, "wrap": True, "mid": False, "grad": True, "ranges": FULL}
                        yield {"lat": lat, "model": name, "smear": smear, "N": N, "wrap": True, "mid": True, "grad": True, "ranges": FULL}
            for ranges in ([[0, 1]] * 3, [[-0.5, 0.5], [0.0, 0.5], [-1.0, 1.0]]):
                for wrap in (True, False):
                    yield {"lat": lat, "model": name, "smear": "cubes", "N": 4, "wrap": wrap, "mid": False, "grad": False, "ranges": ranges}


def run(c):
    A = LAT[c["lat"]]
    model = make_model(c["model"], A)
    d = make(c, model)
    nb = d.model_bandcount()
    cry, st = grids(c)
    close(d.k_smpl @ (np.eye(3) if A is None else np.asarray(A)), cry, "grid points", 1e-9)
    E0 = model((cry @ np.linalg.inv(np.eye(3) if A is None else np.asarray(A))).reshape(-1, 3)).reshape(cry.shape[:3] + (-1,))
    close(d.bands, E0, "bands on the grid", 1e-9)
    smin, smax = E0.min(axis=(0, 1, 2)), E0.max(axis=(0, 1, 2))
    rng = np.array(d.bands_range)
    require(rng.shape == (nb, 2) and nb == E0.shape[-1], "band ranges of every band")
    if hasattr(model, "bands_grad_hess"):
        require(np.all(rng[:, 0] <= smin + 1e-9) and np.all(rng[:, 1] >= smax - 1e-9), "the band range is narrower than the sampled bands: %s", (rng.tolist(), smin, smax))
        lo, hi = extent(c["model"], c["lat"], model, nb)
        require(np.all(rng[:, 0] >= lo - 1e-6) and np.all(rng[:, 1] <= hi + 1e-6), "the band range exceeds the band: %s", (rng.tolist(), lo, hi))
    else:
        close(rng, np.stack([smin, smax], -1), "band ranges are those of the sampled bands", 1e-12)
    require(tuple(d.energy_range()) == (d.bands_range[0][0], d.bands_range[-1][1]), "energy range")
    lo, hi = rng[0, 0], rng[-1, 1]
    w = hi - lo if hi - lo > 1e-9 else 1.0
    L = [lo - w, lo, hi, hi + w, hi + 1e6 * w, lo - 1e6 * w]
    for a, b in rng:
        L += [a, b, np.nextafter(a, -9e9), np.nextafter(b, 9e9)] + [a + (b - a) * f for f in (0.013, 0.17, 0.4142, 0.5, 0.73, 0.951)]
    L = np.array(sorted(set(L)))
    E, V, D, exact, amb = oracle(c, model, L)
    tot_prev = None
    # one band above the other or overlapping: counts of the bands
    for j, x in enumerate(L):
        per = [d.states_below_band(x, i) for i in range(nb)]
        den = [d.density_band(x, i) for i in range(nb)]
        for i in range(nb):
            a, b = rng[i]
            if x >= b:
                require(per[i] == 1 and den[i] == 0, "band %s above its range", i)
            elif x <= a:
                require(per[i] == 0 and den[i] == 0, "band %s below its range", i)
            elif not amb[i, j]:
                close(per[i], V[i, j], "number of states of band %d below %.6g" % (i, x), 1e-8 if exact[i] and c["smear"] != "tetras" else 1e-5 if c["smear"] == "tetras" else 6e-4 if c["smear"] != "cubes+" else 1e-3)
                if exact[i]:
                    close(den[i] * w, D[i, j] * w, "density of band %d at %.6g" % (i, x), 1e-4 if c["smear"] == "tetras" else 1e-6)
        s, dd = d.states_density(x)
        tot = d.states_below(x)
        close(tot, sum(per), "sum over the bands", 1e-12)
        close(s, tot, "states_density count", 1e-7)
        close(dd, d.density(x), "states_density density", 1e-5)
        close(d.density(x), sum(den), "sum of the densities", 1e-12)
        require(list(d.density_bands(x)) == den, "density_bands")
        require(list(d.cut_band_indices(x)) == [i for i in range(nb) if rng[i, 0] < x < rng[i, 1]], "cut_band_indices")
        require(c["smear"] == "cubes+" or -1e-9 <= tot <= nb + 1e-9, "count outside of [0, bands]")
        if tot_prev is not None and c["smear"] != "cubes+":
            require(tot >= tot_prev - 1e-6, "count decreases at %s", x)
        tot_prev = tot
        if x > rng[:, 1].max():
            require(tot == nb, "above the spectrum")
        if x < rng[:, 0].min():
            require(tot == 0, "below the spectrum")
    # curve
    for n in (2, 5):
        e, s, r = d.full_curve(N=n)
        want = np.unique(np.concatenate([np.linspace(a, b, n) for a, b in d.bands_range]))
        require(np.array_equal(e, want), "energies of the curve")
        close(s, [d.states_below(x) for x in e], "states of the curve", 1e-7)
        close(r, [d.density(x) for x in e], "density of the curve", 1e-5)
    # fermi level and gap
    ok = 0
    out = []
    # (eighths, and slightly doped integers)
    for n in np.unique(np.concatenate([np.arange(0, 8 * nb + 1) / 8] + [[i + x for x in (1e-2, -1e-2, 2.0**-12, -2.0**-12) if 0 < i + x < nb] for i in range(nb + 1)])):
        n = float(n)
        gap = 0.0
        if n == int(n) and 0 < n < nb:
            i = int(n)
            gap = max(0.0, rng[i, 0] - rng[i - 1, 1])
        if 0 < n < nb or n != int(n):
            require(abs(d.bandgap(n) - gap) < 1e-14, "band gap for %s electrons: %s instead of %s", n, d.bandgap(n), gap)
        for nn in ([n, int(n)] if n == int(n) else [n]):
            try:
                with np.errstate(all="ignore"):
                    mu = d.fermi_energy(nn)
            except ValueError as ex:
                # only allowed where the count jumps over the wanted number
                a, b = lo, hi
                for _ in range(60):
                    x = (a + b) / 2
                    a, b = (x, b) if d.states_below(x) < n else (a, x)
                if c["smear"] == "cubes+" and np.min(np.diff([d.states_below(x) for x in np.linspace(lo, hi, 300)])) < -1e-2:
                    out.append(n)  # the extrapolated count falls somewhere: the level is not unique, the search may end at a jump
                    continue
                jump = d.states_below(b + 1e-6 * w) - d.states_below(a - 1e-6 * w)
                require(jump > 1e-4, "no Fermi energy for %s electrons (%s), but %s has it", n, ex, b)
                out.append(n)
                continue
            if n == 0 or n == nb:
                require(mu == (lo if n == 0 else hi), "Fermi energy of an empty or full spectrum")
            elif gap > 0:
                require(abs(mu - (rng[i, 0] + rng[i - 1, 1]) / 2) < 1e-12, "Fermi energy in the middle of the gap")
                require(d.states_below(mu) == n, "count at the middle of the gap")
            else:
                s0, s1 = d.states_below(mu - 1e-6 * w), d.states_below(mu + 1e-6 * w)
                s = d.states_below(mu)
                s0, s1 = min(s0, s, s1), max(s0, s, s1)
                require(s0 - 1e-6 <= n <= s1 + 1e-6, "%s to %s electrons below the Fermi energy %s instead of %s", s0, s1, mu, n)
            ok += 1
    for bad in (-0.5, nb + 0.25):
        try:
            d.fermi_energy(bad)
        except AssertionError:
            continue
        raise Violation("impossible electron count %s accepted" % bad)
    return {"n": len(L) * nb * 6, "nontrivial": nb > 1 and c["N"] > 2, "outcome": (c["model"], c["smear"], ok, len(out), tuple(out))}


_ext = {}


def extent(name, lat, model, nb):
    """true minimum and maximum of every band (dense grid and local refinement)"""
    if (name,) not in _ext:
        A = np.eye(3) if LAT[lat] is None else np.asarray(LAT[lat], float)
        g = (np.arange(12) / 12)
        c = np.stack(np.meshgrid(g, g, g, indexing="ij"), -1).reshape(-1, 3)
        iA = np.linalg.inv(A)
        E = model(c @ iA)
        lo, hi = [], []
        for i in range(nb):
            for sg, o in ((1, lo), (-1, hi)):
                best = None
                for j in np.argsort(sg * E[:, i])[:4]:
                    x, h = c[j].copy(), 1 / 12
                    v = sg * E[j, i]
                    while h > 1e-6:
                        cand = x + h * np.array(list(itertools.product((-1, 0, 1), repeat=3)))
                        ev = sg * model(cand @ iA)[:, i]
                        m = np.argmin(ev)
                        if ev[m] < v - 1e-15:
                            x, v = cand[m], ev[m]
                        else:
                            h /= 2
                    best = v if best is None or v < best else best
                o.append(sg * best)
        _ext[(name,)] = (np.array(lo), np.array(hi))
    return _ext[(name,)]


# ------------------------------------------------------------------ invariances and options
def icases(tier):
    for name in list(CRYSTAL) + ["tb2", "tb3"]:
        for lat in ("unit", "fcc", "skew", "left"):
            for smear in ("cubes", "spheres", "tetras", "cubes+"):
                for kind in ("half", "shift", "select", "affine", "list", "check"):
                    if kind == "half" and (name not in EVEN or smear in ("tetras",)):
                        continue
                    yield {"kind": kind, "model": name, "lat": lat, "smear": smear}
    for i in range(6):
        yield {"kind": "refuse", "i": i}
    for name in CRYSTAL:
        yield {"kind": "naive", "model": name}


def counts(d, L):
    return np.array([[d.states_below_band(x, i) for i in range(d.model_bandcount())] for x in L]), np.array([d.density_bands(x) for x in L])


def irun(c):
    k = c["kind"]
    if k == "refuse":
        m, p = tb(None, 2), Plain(CRYSTAL["s"], None)
        f, ex = [(lambda: dos.DensityOfStates(m, N=4, smearing="tetras", use_gradients=True), NotImplementedError),
                 (lambda: dos.DensityOfStates(m, N=4, smearing="cubes+", use_gradients=True), NotImplementedError),
                 (lambda: dos.DensityOfStates(p, N=4, smearing="cubes", use_gradients=True), ValueError),
                 (lambda: dos.DensityOfStates(m, N=4, smearing="gauss"), ValueError),
                 (lambda: dos.DensityOfStates(m, N=4, ranges=((0, 1), (0, 1))), AssertionError),
                 (lambda: dos.DensityOfStates(m, N=4, smearing="spheres", use_gradients=True, wrap=False), NotImplementedError)][c["i"]]
        try:
            f()
        except ex:
            return {"n": 1, "nontrivial": True, "outcome": "refused"}
        raise Violation("invalid option combination %s accepted" % c["i"])
    if k == "naive":
        d = dos.DensityOfStates(Plain(CRYSTAL[c["model"]], None), N=4, check=False)
        b = np.sort(d.bands.ravel())
        nk = 64
        for j in range(0, len(b) + 1, 3):
            n = j / nk
            mu = dos.naive_fermi_energy(d.bands, n)
            below, upto = np.sum(b < mu - 1e-12), np.sum(b <= mu + 1e-12)
            require(below <= j <= upto, "naive Fermi energy %s: %s to %s states below instead of %s", mu, below, upto, j)
            for sp in (1, 2):
                close(dos.naive_energy(d.bands, mu, 0.0, sp), sp * np.sum(b[b <= mu]) / nk, "naive energy", 1e-12)
                T = 900.0
                close(dos.naive_energy(d.bands, mu, T, sp), sp * np.sum(b / (1 + np.exp(np.clip((b - mu) / (dos.k_B * T), -500, 500)))) / nk, "naive energy at finite temperature", 1e-10)
        return {"n": len(b), "nontrivial": True, "outcome": c["model"]}
    A = LAT[c["lat"]]
    f = make_model(c["model"], A)
    base = {"model": c["model"], "lat": c["lat"], "smear": c["smear"], "N": 4, "wrap": True, "mid": False, "grad": False, "ranges": FULL}
    d = make(base, f)
    nb = d.model_bandcount()
    lo, hi = d.energy_range()
    w = hi - lo if hi - lo > 1e-9 else 1.0
    L = np.array([lo - w, *[a + (b - a) * x for a, b in d.bands_range for x in (0.1234, 0.337, 0.5511, 0.777, 0.93)], hi + w])
    V, D = counts(d, L)

    def same(d2, V=V, D=D, L=L, msg="", bands=None):
        V2, D2 = counts(d2, L)
        ok = D < 1e3 / w       # flat cells
        close(V2[ok], V[ok], msg + ": states", 1e-6)
        close(D2[ok] * w, D[ok] * w, msg + ": density", 1e-5)

    if k == "half":
        for r in ([[0, 0.5]] * 3, [[0, 0.5], [-0.5, 0.5], [-0.5, 0]], [[-0.5, 0], [-0.5, 0], [-0.5, 0.5]]):
            d2 = make(dict(base, N=4, wrap=False, ranges=r, model=c["model"]), f)
            d3 = dos.DensityOfStates(f, N=8, A=A, ranges=FULL, smearing=c["smear"], check=False)
            if r == [[0, 0.5]] * 3:
                V3, D3 = counts(d3, L)
                same(d2, V3, D3, msg="irreducible part of an even band structure")
            tot = [d2.states_below_band(hi + w, i) for i in range(nb)]
            require(tot == [1.0] * nb, "full count of the part")
    elif k == "shift":
        for sh in ([0.25, 0, 0], [1, 0, 0], [-2, 1, 0.5], [0.5, 0.5, 0.5]):
            if c["smear"] == "cubes+" and any((x * 4) % 2 for x in sh):
                continue    # the coarse grid differs
            d2 = make(dict(base, ranges=[[a + s, b + s] for (a, b), s in zip(FULL, sh)]), f)
            close(d2.bands_range, d.bands_range, "band ranges of a shifted cell", 1e-4 if hasattr(f, "bands_grad_hess") else 1e-9)
            if not hasattr(f, "bands_grad_hess"):
                same(d2, msg="shifted cell")
    elif k == "select":
        for pick in itertools.chain.from_iterable(itertools.combinations(range(nb), r) for r in range(1, nb + 1)):
            pick = list(pick)
            g = Plain(lambda kk: f(kk)[..., pick], None)
            V2, D2 = counts(make(base, g), L)
            d1 = make(base, Plain(lambda kk: f(kk), None))
            V1, D1 = counts(d1, L)
            require(np.array_equal(V2, V1[:, pick]) and np.array_equal(D2, D1[:, pick]), "counts of bands %s change without the other bands", pick)
    elif k == "affine":
        d1 = make(base, Plain(lambda kk: f(kk), None))
        V1, D1 = counts(d1, L)
        for s, t in ((2.0, 0.0), (0.125, 3.0), (1.0, -1000.0)):
            d2 = make(base, Plain(lambda kk: f(kk) * s + t, None))
            V2, D2 = counts(d2, L * s + t)
            ok = D1 < 1e3 / w
            close(V2[ok], V1[ok], "scaled and shifted bands: states", 1e-6)
            close(D2[ok] * w * s, D1[ok] * w, "scaled and shifted bands: density", 1e-5)
            for n in (0.3, 0.55, 1, 1.4):
                try:
                    a = d1.fermi_energy(n) * s + t
                    b = d2.fermi_energy(n)
                except (ValueError, AssertionError):
                    continue
                if d1.density((a - t) / s) * w > 0.05 or d1.bandgap(n) if 0 < n < nb else False:
                    close(b, a, "Fermi energy of scaled and shifted bands", 1e-5 * max(w, 1))
    elif k == "list":
        if A is not None:
            d2 = dos.DensityOfStates(f, N=4, A=[list(map(float, r)) for r in A], ranges=tuple(map(tuple, FULL)), smearing=c["smear"], check=1e-6)
            V2, D2 = counts(d2, L)
            require(np.array_equal(V, V2) and np.array_equal(D, D2), "lattice given as a list")
    elif k == "check":
        make(dict(base, check=True), f)
        d.check(1e-8)
        for i in range(3):
            st = np.zeros(3)
            st[i] = 0.03
            bad = Plain(lambda kk: f(kk) + (np.asarray(kk) @ (np.eye(3) if A is None else np.asarray(A)) @ st)[..., None], None)
            try:
                make(dict(base, check=1e-6), bad)
            except AssertionError:
                continue
            raise Violation("a model that is not periodic along axis %d was accepted" % i)
    # T = 0 map of the density
    kr = d.k_resolved_density(L[3], 0)
    cut = [d.smearing[i].dvolume(L[3]).mean() for i in range(nb)]
    close(np.mean(kr) * w, sum(cut) * w, "k resolved density", 1e-9)
    return {"n": len(L) * nb * 2, "nontrivial": True, "outcome": (c["model"], c["smear"], k)}


def subs(tier):
    global TIER
    TIER = tier
    return [Enum("grids", cases, run, "every lattice x model x smearing x grid size x wrapping/midpoint/gradient option: every band edge and interior energies, every electron count in eighths"),
            Enum("invariances", icases, irun, "every model x lattice x smearing: irreducible part, shifted cell, every subset of bands, affine maps of the energy, list input, periodicity check; refused option combinations; naive sums")]
