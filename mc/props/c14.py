"""C14: Fermi-function kernels, convolutions, chemical potential and the temperature dependent quantities of DensityOfStates."""
import itertools
from math import comb, factorial
import numpy as np
import scipy.special as sp
from ..core import Enum, Skip, Violation, require
from ..util import gen, close
from . import c13
from tight_binding_redweasel import dos

LEVEL = "exploration"
ASSUMPTIONS = ["reference integrals are composite Gauss-Legendre sums that resolve the band edges and the Fermi window",
               "the sampled quantities are compared up to a sampling error stated per quantity (energy samples N=200/256)",
               "a band of width 6e-3 eV at -50 eV is not resolved by the sample points above 300 K and gets a larger tolerance for the electron count only"]
kB = dos.k_B
KERNEL = {"gauss_5_df": 9, "gauss_7_df": 13, "gauss_4_f": 7, "gauss_6_f": 11}
GL = np.polynomial.legendre.leggauss(10)


def mom_df(n):
    if n % 2:
        return 0.0
    return 1.0 if n == 0 else 2 * (1 - 2.0**(1 - n)) * sp.zeta(n) * factorial(n)


def mom_f(n):
    if n % 2:
        return 0.0
    return 2 * np.log(2) if n == 0 else 2 * (1 - 2.0**-n) * sp.zeta(n + 1) * factorial(n)


def run_kernel(c):
    deg, mu, beta = c["deg"], c["mu"], c["beta"]
    k = getattr(dos, c["kernel"])
    df = c["kernel"].endswith("df")
    M = mom_df if df else mom_f
    terms = [comb(deg, j) * mu**(deg - j) * M(j) / beta**(j if df else j + 1) for j in range(deg + 1)]
    want, scale = sum(terms), sum(abs(t) for t in terms) + abs(M(2 * ((deg + 1) // 2))) / beta**deg + abs(mu)**deg
    shape = c["shape"]
    if shape == ():
        got = k(lambda x: x**deg, mu, beta)
    else:
        co = gen(5, shape)
        got = k(lambda x: co[None] * (x**deg).reshape((-1,) + (1,) * len(shape)), mu, beta)
        want = want * co
        scale = scale * np.max(np.abs(co))
    require(np.shape(got) == shape, "%s returns the shape %s instead of %s", c["kernel"], np.shape(got), shape)
    close(got, want, f"{c['kernel']} of e^{deg} at mu={mu}, beta={beta}", 1e-10, scale)
    return dict(n=1, nontrivial=deg > 0)


def panels(pts, g):
    x, w = GL
    t = 0.0
    for a, b in zip(pts, pts[1:]):
        if b > a:
            t = t + np.sum(w * (b - a) / 2 * g((a + b) / 2 + (b - a) / 2 * x), axis=-1)
    return t


def mdf(e, beta):
    return beta / 4 / np.cosh(np.clip(e * beta / 2, -300, 300))**2


SEQ = {"step": ([0.0, 1.0], [0.0, 1.0]), "kink": ([0.0, 0.5, 2.0], [0.3, 0.7, 1.5]), "nonuni": ([-3.0, -2.9, 0.0, 0.01, 4.0], [0.0, 0.6, 0.7, 1.9, 2.0]), "flat": ([-1.0, 2.0], [1.0, 1.0]),
       "bump": ([-1.0, 0.0, 1.0, 1.5], [0.0, 2.0, 0.5, 0.0]), "far": ([49.0, 50.0, 51.0], [0.0, 1.0, 3.0]), "batch": ([0.0, 0.7, 2.0], None)}


def run_conv(c):
    es, st = SEQ[c["seq"]]
    es = np.array(es)
    st = np.cumsum(np.abs(gen(3, (2, 3, len(es)))), axis=-1) if st is None else np.array(st)
    beta, ext = c["beta"], c["ext"]
    kw = dict(extrapolation=None) if ext is None else {} if ext == "flat" else dict(extrapolation_point=(es[-1], 2.5))
    xs = sorted(set(list(es) + list((es[1:] + es[:-1]) / 2) + [es[0] - 2 / beta, es[-1] + 2 / beta, es[0] - 20 / beta, es[-1] + 20 / beta]))
    lo, hi = es[0], es[-1]
    # an extrapolation point closes the step from the last sample to the band count (exact for samples that reach the last energy)
    for x in xs:
        W = 45 / beta
        pts = np.unique(np.concatenate([np.clip(x + np.linspace(-W, W, 91), lo, hi), es]))
        flat = st.reshape(-1, len(es))

        def inner(e):
            return np.array([np.interp(e, es, r) for r in flat])
        want = panels(pts, lambda e: inner(e) * mdf(e - x, beta))
        # derivative with respect to x: -int N(e) d/de(mdf) = boundary + int N'(e) mdf
        slope = (flat[:, 1:] - flat[:, :-1]) / np.diff(es)

        def sl(e):
            return slope[:, np.clip(np.searchsorted(es, e) - 1, 0, len(es) - 2)]
        dwant = panels(pts, lambda e: sl(e) * mdf(e - x, beta)) + flat[:, 0] * mdf(es[0] - x, beta) - flat[:, -1] * mdf(es[-1] - x, beta)
        fl, fr = sp.expit(-beta * (x - es[0])), sp.expit(-beta * (es[-1] - x))
        if ext == "flat":
            want = want + flat[:, 0] * fl + flat[:, -1] * fr
            dwant = dwant - flat[:, 0] * mdf(es[0] - x, beta) + flat[:, -1] * mdf(es[-1] - x, beta)
        elif ext == "point":
            want = want + 2.5 * fr
            dwant = dwant + 2.5 * mdf(es[-1] - x, beta)
        got = dos.convolve_df(x, es, st, beta, **kw)
        dgot = dos.convolve_ddf(x, es, st, beta, **kw)
        require(np.shape(got) == st.shape[:-1] and np.shape(dgot) == st.shape[:-1], "shape of the convolution")
        m = 1 + np.max(np.abs(st)) + 2.5
        close(np.ravel(got), want, f"convolve_df at {x:.3f}", 1e-9, m * (1 + np.max(np.abs(beta * es)) * 1e-3))
        close(np.ravel(dgot), dwant, f"convolve_ddf at {x:.3f}", 1e-9, m * (1 + beta) * (1 + np.max(np.abs(beta * es)) * 1e-3))
        if ext == "flat" and np.all(np.diff(flat, axis=-1) >= 0):
            require(np.all(dgot >= -1e-9 * m * (1 + beta)), "the derivative of an increasing smeared curve is negative at %s: %s", x, dgot)
    return dict(n=2 * len(xs), nontrivial=True)


def run_intpoly(c):
    a, b, k = c["abc"]
    x0, x1 = c["iv"]
    pts = np.unique(np.concatenate([[x0, x1], np.clip(np.linspace(-60, 60, 121), x0, x1)]))
    want = panels(pts, lambda x: (a * x * x + b * x + k) * mdf(x, 1.0))
    got = dos.int_poly(x0, x1, a, b, k)
    close(got, want, f"int_poly({x0},{x1})", 1e-11, abs(a) * 4 + abs(b) * 2 + abs(k) + 1e-3)
    arr = dos.int_poly(np.array([x0, x0]), np.array([x1, x0]), a, b, k)
    close(arr, [got, 0.0], "int_poly of arrays", 1e-12, abs(a) * 4 + abs(b) * 2 + abs(k) + 1e-3)
    return dict(n=2, nontrivial=x0 < x1)


MONO = {"lin": lambda x: 2 * x - 1, "cubic": lambda x: x**3 + x, "exp": np.exp, "sinh": np.sinh, "tanh+": lambda x: np.tanh(x) + 0.3 * x, "dec": lambda x: -x - 0.2 * np.sin(x)}


def run_secant(c):
    f, x, (da, db) = MONO[c["f"]], c["x"], c["ab"]
    got = dos.secant(f(x), f, x + da, x + db, tol=1e-12)
    require(np.isfinite(got), "secant returns %s", got)
    close(f(got), f(x), f"secant root of {c['f']}", 1e-8, 1 + abs(f(x)))
    return dict(n=1, nontrivial=da != 0 and db != 0)


# ---- DensityOfStates
CACHE = {}


def make(name, smear="cubes", N=5, shift=0.0):
    key = (name, smear, N, shift)
    if key not in CACHE:
        if len(CACHE) > 8:
            CACHE.clear()
        base = c13.make_model(name, None)
        m = base if not shift else (lambda k: base(k) + shift)
        d = dos.DensityOfStates(m, N=N, smearing=smear, check=False)
        CACHE[key] = d, {}
    return CACHE[key]


def quad(d, g, T, mu):
    kT = kB * T
    lo, hi = mu - 40 * kT, mu + 40 * kT
    e0, e1 = d.energy_range()
    pts = np.concatenate([[lo, hi], np.ravel(d.bands_range), mu + kT * np.linspace(-40, 40, 61)] + [np.linspace(a, b, 25) for a, b in d.bands_range])
    pts = np.unique(np.clip(pts, lo, hi))
    return panels(pts, g)


def electrons(d, mu, T):
    kT = kB * T
    return quad(d, lambda e: np.array([d.states_below(x) for x in e]) * mdf(e - mu, 1 / kT), T, mu)


def U(d, mu, T):
    """sum over bands of int E rho_i f dE (partial integration inside the band)"""
    kT = kB * T
    tot = 0.0
    for i, (a, b) in enumerate(d.bands_range):
        pts = np.unique(np.concatenate([np.linspace(a, b, 31), np.clip(mu + kT * np.linspace(-40, 40, 61), a, b)]))
        f = lambda e: sp.expit(-(e - mu) / kT)
        tot += b * f(b) + panels(pts, lambda e: np.array([d.states_below_band(y, i) for y in e]) * (-f(e) + e * f(e) * (1 - f(e)) / kT))
    return tot


def counts(d):
    nb = d.model_bandcount()
    return [n for n in (0.05, 0.3, 1, 1.5, 2, nb - 0.2) if 0 < n < nb]


def run_mu(c):
    d, _ = make(c["model"], c["smear"], 6 if c["smear"] == "cubes+" else 5)
    Ts = c["T"]
    n = 0
    for ne in counts(d):
        try:
            ef = d.fermi_energy(ne)
        except ValueError:
            continue  # documented: root search failed (C13 decides when this is allowed)
        mu = d.chemical_potential(ne, [0] + Ts, N=200)
        require(np.all(np.isfinite(mu)), "chemical potential for %s electrons at T=%s is %s", ne, [0] + Ts, mu)
        require(mu[0] == ef, "chemical potential at T=0 is not the Fermi energy")
        for T, m in zip(Ts, mu[1:]):
            got = electrons(d, m, T)
            tol = 1e-2 if c["model"] == "core" else 2e-2 if c["model"] in ("flat", "const", "line") else 1e-4 if c["smear"] != "cubes+" else 5e-4
            require(abs(got - ne) <= tol, "chemical potential %s at T=%s holds %s instead of %s electrons", m, T, got, ne)
            single = d.chemical_potential(ne, T, N=200)
            require(single.shape == (1,), "a scalar temperature does not give one value")
            require(abs(electrons(d, single[0], T) - ne) <= tol, "single chemical potential at T=%s holds the wrong number of electrons", T)
            n += 3
        # low temperature limit
        low = d.chemical_potential(ne, [0.5], N=200)[0]
        a, b = d.states_below(low - 20 * kB * 0.5 - 1e-9), d.states_below(low + 20 * kB * 0.5 + 1e-9)
        require(a - 1e-4 <= ne <= b + 1e-4, "the chemical potential at 0.5 K (%s) is not at the level that holds %s electrons (Fermi energy %s)", low, ne, ef)
    if n == 0:
        raise Skip("no Fermi energy")
    return dict(n=n, nontrivial=True)


def run_batch(c):
    """many closely spaced temperatures in one call equal single calls"""
    d, _ = make(c["model"], c["smear"])
    if not 0 < c["ne"] < d.model_bandcount():
        raise Skip("electron count outside the bands")
    try:
        ef = d.fermi_energy(c["ne"])
    except ValueError:
        raise Skip("no Fermi energy")
    T = np.geomspace(c["T"], c["T"] * c["ratio"]**c["steps"], c["steps"] + 1)
    if c["order"] == "down":
        T = T[::-1]
    elif c["order"] == "same":
        T = np.repeat(T[:3], 2)
    mu = d.chemical_potential(c["ne"], T, N=60)
    require(mu.shape == T.shape and np.all(np.isfinite(mu)), "chemical potentials %s at %s", mu, T)
    for t, m in list(zip(T, mu))[:: max(1, len(T) // 6)] + [(T[-1], mu[-1])]:
        s = d.chemical_potential(c["ne"], t, N=60)[0]
        a, b = electrons(d, m, t), electrons(d, s, t)
        require(abs(a - b) <= 2e-3 + 2 * abs(b - c["ne"]), "chemical potential at T=%s in a batch of %s temperatures (ratio %s) is %s (%s electrons), alone %s (%s electrons, Fermi energy %s)", t, len(T), c["ratio"], m, a, s, b, ef)
    return dict(n=len(T), nontrivial=True)


def run_energy(c):
    d, memo = make(c["model"], c["smear"], shift=c["shift"])
    mu, T = c["mu"] + c["shift"], c["T"]
    if c["model"] == "const" and c["mu"] == -1.0:
        raise Skip("level inside a jump of the count")
    if T == 0:
        want, tol = sum(band_energy0(d, i, mu) for i in range(d.model_bandcount())), 2e-4
        got = d.energy(mu, 0)
    else:
        want, tol = U(d, mu, T), 5e-4 if T <= 300 else 2e-3 if T <= 3000 else 0.04
        got = d.energy(mu, T)
    tol *= 1 + abs(c["shift"]) / 3
    if c["model"] in ("flat", "line", "linear", "const"):
        tol = max(3 * tol, 4e-3)  # jumps and kinks of the density
    require(abs(got - 2 * want) <= 2 * tol, "energy(mu=%s, T=%s) is %s instead of %s", mu, T, got, 2 * want)
    close(d.energy(mu, T, spin_factor=1) * 2, got, "spin factor", 1e-12, 1 + abs(got))
    return dict(n=2, nontrivial=abs(want) > 1e-9)


def band_energy0(d, i, mu):
    a, b = d.bands_range[i]
    top = min(b, mu)
    if mu <= a:
        return 0.0
    pts = np.linspace(a, top, 41)
    return top * d.states_below_band(top, i) - panels(pts, lambda e: np.array([d.states_below_band(x, i) for x in e]))


def run_thermo(c):
    """heat capacity and seebeck are the temperature derivatives of energy and chemical potential"""
    d, _ = make(c["model"], "cubes", c["N"])
    ne, T = c["ne"], c["T"]
    if not 0 < ne < d.model_bandcount():
        raise Skip("electron count outside the bands")
    try:
        d.fermi_energy(ne)
    except ValueError:
        raise Skip("no Fermi energy (decided by C13)")
    h = 0.02 * T
    mm = [d.chemical_potential(ne, [t], N=800)[0] for t in (T - h, T + h)]
    S = (mm[1] - mm[0]) / (2 * h)
    Cw = 2 * (U(d, mm[1], T + h) - U(d, mm[0], T - h)) / (2 * h)
    see = d.seebeck(ne, [0, T, 0], N=200, h=1e-2)
    require(see.shape == (3,) and see[0] == 0 and see[2] == 0, "seebeck at T=0 is not zero: %s", see)
    require(abs(see[1] - S) <= 0.03 * abs(S) + (0.1 if ne == 1 and d.bandgap(1) > 0 else 2e-2) * kB, "seebeck at T=%s is %s, dmu/dT = %s", T, see[1], S)
    C = d.heat_capacity(ne, T)
    # (the energy is measured from an arbitrary zero; at fixed electron count the heat capacity does not depend on it)
    require(abs(C - Cw) <= 0.15 * abs(Cw) + 2e-2 * kB, "heat capacity at T=%s is %s, dU/dT = %s", T, C, Cw)
    # integral of density * (e-mu) (e-mu+T dmu/dT) / T * (-df/de) with the same density, many samples: only the tails remain
    mu = d.chemical_potential(ne, [T], N=800)[0]
    e0, e1 = d.energy_range()
    lo, hi = max(e0, mu - 40 * kB * T), min(e1, mu + 40 * kB * T)
    if lo < hi:
        e = lo + (np.arange(6000) + 0.5) / 6000 * (hi - lo)
        x = (e - mu) / (kB * T)
        w = np.array([d.density(y) for y in e]) / (4 * np.cosh(x / 2)**2) / (kB * T) * (hi - lo) / len(e)
        want = 2 * np.sum(w * (e - mu) * (e - mu + S * T)) / T
        fine = d.heat_capacity(ne, T, N=4096)
        # (nearly all samples are inside of the gap of an insulator)
        require(abs(fine - want) <= (0.08 if ne == 1 and d.bandgap(1) > 0 else 0.02) * abs(want) + 2e-3 * kB, "heat capacity at T=%s with many samples is %s instead of %s", T, fine, want)
    close(d.heat_capacity(ne, T, spin_factor=1) * 2, C, "spin factor of the heat capacity", 1e-12, abs(C) + 1e-9)
    require(d.heat_capacity(ne, 0) == 0, "heat capacity at T=0")
    return dict(n=4, nontrivial=abs(Cw) > 1e-9)


def run_curve(c):
    d, _ = make(c["model"], c["smear"])
    T, N = c["T"], c["N"]
    e0, s0, d0 = d.full_curve(N=N)
    e, s, r = d.full_curve(N=N, T=T)
    require(len(e) == len(e0) + 2 * N and np.all(np.diff(e) > 0) and s.shape == e.shape == r.shape, "energy samples of the curve at T=%s", T)
    beta = 1 / (kB * T)
    close(e[N:-N], e0, "inner energy samples", 1e-12, 1 + np.max(np.abs(e0)))
    for i in range(0, len(e), max(1, len(e) // 9)):
        x = e[i]
        lo, hi = x - 45 / beta, x + 45 / beta
        pts = np.unique(np.clip(np.concatenate([e0, np.linspace(lo, hi, 91)]), lo, hi))
        close(s[i], panels(pts, lambda y: np.interp(y, e0, s0) * mdf(y - x, beta)), f"states at {x:.4f} for T={T}", 1e-6, 1 + np.max(s0))
        close(r[i], panels(np.unique(np.clip(pts, e0[0], e0[-1])), lambda y: np.interp(y, e0, d0) * mdf(y - x, beta)), f"density at {x:.4f} for T={T}", 1e-6, 1 + np.max(d0))
    return dict(n=18, nontrivial=True)


def run_kres(c):
    d, _ = make(c["model"], c["smear"])
    T = c["T"]
    lo, hi = d.energy_range()
    n = 0
    for x in (0.02, 0.3, 0.55, 0.8, 0.97):
        mu = lo + x * (hi - lo)
        k = d.k_resolved_density(mu, T, N=200)
        require(k.shape == d.k_smpl.shape[:3], "shape of the k-resolved density")
        if T == 0:
            close(np.mean(k), d.density(mu), "mean of the k-resolved density", 1e-9, 1 + d.density(mu))
        else:
            b = 1 / (kB * T)  # partial integration: the counts have no spikes from flat cells
            want = quad(d, lambda e: np.array([d.states_below(y) for y in e]) * b * np.tanh(b * (e - mu) / 2) * mdf(e - mu, b), T, mu)
            require(abs(np.mean(k) - want) <= 0.03 * want + 0.01, "the mean of the k-resolved density at mu=%s, T=%s is %s instead of %s", mu, T, np.mean(k), want)
            require(np.min(k) >= -1e-7 * (1 + np.max(k)), "k-resolved density is negative (%s) at mu=%s, T=%s", np.min(k), mu, T)
        n += 2
    return dict(n=n, nontrivial=True)


def run_naive(c):
    """the direct sums over the samples agree with brute force"""
    b = np.sort(gen(c["seed"], (c["n"], c["nb"])), axis=-1)
    T = c["T"]
    for mu in (np.min(b) - 1, np.median(b), 0.1, np.max(b) + 1):
        f = (b <= mu) * 1.0 if T == 0 else sp.expit(-(b - mu) / (kB * T))
        close(dos.naive_energy(b, mu, T), 2 * np.sum(b * f) / c["n"], "naive energy", 1e-9, 10)
        close(dos.naive_energy(b.reshape(-1, 1, c["nb"]), mu, T, spin_factor=1), np.sum(b * f) / c["n"], "naive energy of a grid", 1e-9, 10)
    for i in range(1, c["n"] * c["nb"]):
        ef = dos.naive_fermi_energy(b, i / c["n"])
        fl = np.sort(np.ravel(b))
        require(fl[i - 1] <= ef <= fl[i], "naive Fermi energy %s of %s states not in [%s,%s]", ef, i, fl[i - 1], fl[i])
    return dict(n=8 + c["n"] * c["nb"], nontrivial=True)


def subs(tier):
    return list(_subs(tier))


def _subs(tier):
    th = tier == "thorough"
    def no(ms, *x):
        return [m for m in ms if m not in x]
    MODELS = ("s", "generic", "gap", "semi", "core") + (("flat", "const", "line", "linear", "tb2", "tb3") if th else ("tb2",))

    def prod(**k):
        return [dict(zip(k, v)) for v in itertools.product(*k.values())]
    yield Enum("kernels", lambda t: [dict(kernel=k, deg=d, mu=mu, beta=b, shape=s) for k, D in KERNEL.items() for d in range(D + 1) for mu in (0.0, 0.7, -3.0) for b in (0.5, 1.0, 40.0) for s in ((), (3,), (2, 3))], run_kernel,
               "kernel x every monomial up to its exact order x level x temperature x value shape")
    yield Enum("convolution", lambda t: prod(seq=list(SEQ), beta=(0.3, 3.0, 40.0, 400.0), ext=("flat", None, "point")), run_conv, "piecewise linear data x temperature x extrapolation, at and between all samples")
    iv = [-800.0, -40.0, -5.0, -0.3, 0.0, 0.2, 3.0, 50.0, 800.0]
    yield Enum("int_poly", lambda t: [dict(abc=p, iv=(x, y)) for p in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1.5, -2.0, 0.3)) for i, x in enumerate(iv) for y in iv[i:]], run_intpoly, "polynomial x all interval pairs of a menu")
    yield Enum("secant", lambda t: prod(f=list(MONO), x=(-1.3, 0.0, 0.4, 2.0), ab=((0.1, 0.0), (0.1, 0.05), (-0.5, 0.3), (1.0, -0.2), (0.0, 0.2), (1e-3, 1e-4))), run_secant, "monotone function x root x start pair")
    yield Enum("naive", lambda t: prod(seed=(1, 2), n=(3, 4, 8), nb=(1, 2, 3), T=(0, 300, 30000)), run_naive, "sample sets x temperature")
    Ts = [[1, 30, 300, 3000, 30000, 300000], [290, 295, 300, 305, 310]]
    yield Enum("chemical potential", lambda t: prod(model=no(MODELS, "linear"), smear=("cubes", "tetras") + (("spheres", "cubes+") if th else ()), T=Ts), run_mu, "model x smearing x temperature list x electron counts")
    yield Enum("temperature batches", lambda t: prod(model=("s", "generic", "gap", "semi") + (("tb2", "tb3", "line") if th else ()), smear=("cubes", "tetras") if th else ("cubes",), ne=(0.3, 1, 1.5), T=(20.0, 150.0), ratio=(1.01, 1.04, 1.06, 1.3), steps=(6, 60) if not th else (6, 25, 60, 120),
                                                     order=("up", "down", "same")), run_batch, "model x electron count x start temperature x ratio of neighbouring temperatures x length x order")
    yield Enum("energy", lambda t: prod(model=MODELS, smear=("cubes",) + (("tetras",) if th else ()), shift=(0.0, 30.0), mu=(-3.5, -1.0, 0.0, 0.8, 2.5, 40.0), T=(0, 30, 300, 3000, 30000)), run_energy, "model x energy zero x level x temperature")
    yield Enum("derivatives", lambda t: prod(model=("s", "generic", "gap", "semi"), N=(5, 6, 8) if th else (5,), ne=(0.3, 1, 1.5), T=(30, 100, 300, 1000, 3000) if th else (30, 300, 3000)), run_thermo, "model x electron count x temperature")
    yield Enum("curve", lambda t: prod(model=no(MODELS, "linear"), smear=("cubes", "tetras"), N=(2, 5, 10), T=(30, 300, 3000)), run_curve, "model x smearing x samples x temperature")
    yield Enum("k-resolved", lambda t: prod(model=no(MODELS, "core", "const", "flat", "line"), smear=("cubes", "tetras"), T=(0, 300, 3000)), run_kres, "model x smearing x temperature x levels")
