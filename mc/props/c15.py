"""C15: Fermi surface samples, integrals with the Fermi-function derivative and the transport tensors made from them."""
import itertools
import warnings
from math import factorial
import numpy as np
from ..core import Enum, Skip, Violation, require
from ..util import gen, close
from . import c13, c14
from tight_binding_redweasel import dos, bulk
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries

LEVEL = "exploration"
ASSUMPTIONS = ["charge convention of the library: transport formulas use q=+e (documented formula, existing test)",
               "isolators are only supported at T=0 (documented NotImplementedError otherwise)",
               "free-electron closed forms are compared up to the discretisation error of a 24^3 grid"]
e0, hbar, kB = 1.602176634e-19, 1.05457181764616e-34, dos.k_B
EPS = np.zeros((3, 3, 3))
for p in itertools.permutations(range(3)):
    EPS[p] = np.linalg.det(np.eye(3)[list(p)])
LAT = c13.LAT


def cubic(nb):
    R = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 0], [1, 0, 1], [1, 0, -1], [0, 1, 1], [0, 1, -1]])
    H = [np.diag([0.0, 3.0][:nb]) if i == 0 else (-0.5 if i < 4 else 0.12) * np.array([[1.0, 0.2], [0.2, -0.7]])[:nb, :nb] for i in range(len(R))]
    return R, np.array(H) + 0j


def model(name, A):
    """library model in the coordinates of the lattice A (columns)"""
    if name.startswith("cubic"):
        R, H = cubic(int(name[5:]))
        A = np.eye(3) if A is None else np.asarray(A, float)
        return AsymTightBindingModel(HermitianFourierSeries(R @ A.T, H))
    return c13.tb(A, int(name[2:]))


class Linear:
    """bands with a constant gradient in crystal coordinates (not periodic)"""

    def __init__(self, g, A, c=(0.0, 0.35)):
        self.g, self.c, self.A = np.asarray(g, float), c, np.eye(3) if A is None else np.asarray(A, float)

    def __call__(self, k):
        return np.stack([np.asarray(k) @ self.A @ self.g + c for c in self.c], -1)

    def bands_grad(self, k):
        return self(k), np.repeat(np.broadcast_to(self.A @ self.g, np.shape(k))[..., None], len(self.c), -1)


def mat(l):
    return np.eye(3) if LAT[l] is None else np.asarray(LAT[l], float)


def make(name, l="unit", N=6, **kw):
    return dos.DensityOfStates(model(name, LAT[l]), N=N, A=LAT[l], check=False, **kw)


# ---- quadrature in energy
def run_points(c):
    T0, T1, N, ef = c["T0"], c["T1"], c["N"], c["ef"]
    if N == 1:
        close(bulk._integration_points(ef, T0, T1, 1), [ef], "single point", 1e-15)
        return dict(n=1, nontrivial=False)
    x = bulk._integration_points(ef, T0, T1, N)
    require(x.shape == (N,) and np.all(np.diff(x) > 0), "integration points not sorted or distinct: %s", x)
    close(x + x[::-1], np.full(N, 2 * ef), "integration points symmetric around the Fermi energy", 1e-9, 1 + abs(ef))
    if T0 == T1:
        # N points with interpolatory weights are exact up to degree 2N-1
        b = 1 / (kB * T1)
        if N in (5, 7):
            got = []
            (dos.gauss_5_df if N == 5 else dos.gauss_7_df)(lambda e: got.append(e) or e, ef, b)
            close(x, got[0], "Gauss points", 1e-6, 10 / b)
    Ts = [T for T in c["T"] if T0 <= T <= T1]
    mus = [ef + c["dmu"] * kB * T for T in Ts]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        xs, w = bulk._integration_weights(x, np.array([1 / (kB * T) for T in Ts] + [1e20]), np.array(mus + [ef]), -1e9, 1e9, rtol=-1e12)
    require(xs.shape == x.shape and w.shape == (len(Ts) + 1, N), "shapes of the weights")
    close(w[-1], (np.arange(N) == N // 2) * 1.0, "weights at T=0", 1e-12)
    for T, mu, wj in zip(Ts, mus, w):
        for d in range(2 * N if T0 == T1 and c["dmu"] == 0 and N <= 7 else N):
            z = (xs - mu) / (kB * T)
            close(np.sum(wj * z**d), c14.mom_df(d), f"moment {d} at T={T}", 1e-6, 1e-3 * np.sum(np.abs(wj * z**d)) + c14.mom_df(d + d % 2) + 1e-7 * np.max(np.abs(z))**d)
    return dict(n=N * len(Ts), nontrivial=True)


# ---- Fermi surface
def run_surface(c):
    A = mat(c["lat"])
    N = 6
    if c["model"].startswith("lin"):
        m = Linear([1.0, 0.6, -0.35] if c["model"] == "lin" else [0.0, 0.8, 0.0], LAT[c["lat"]])
        d = dos.DensityOfStates(m, N=N, A=LAT[c["lat"]], wrap=False, check=False)
    else:
        m = model(c["model"], LAT[c["lat"]])
        d = dos.DensityOfStates(m, N=N, A=LAT[c["lat"]], check=False, use_gradients=c.get("grad", False))
    lo, hi = d.energy_range()
    cnt = 0
    for x in c["levels"]:
        e = lo + x * (hi - lo)
        args = dict(improved_points=c["improved"], weight_by_gradient=c["wg"])
        pts, bi, w, area = d.fermi_surface_samples(e, **args)
        p2, b2, w2, a2 = d.fermi_surface_samples(e, **args)
        require(np.array_equal(pts, p2) and np.array_equal(bi, b2) and np.array_equal(w, w2) and area == a2, "a second call gives different samples")
        require(pts.shape == (len(w), 3) and bi.shape == (len(w),), "shapes of the samples")
        cut = d.cut_band_indices(e)
        require(set(bi) <= set(cut), "samples of the bands %s, but only %s cut the level", sorted(set(bi)), cut)
        if len(w) == 0:
            continue
        require(np.all(w >= -1e-12 * np.max(np.abs(w))), "negative area %s", np.min(w))
        raw, rb, rw, ra = d.fermi_surface_samples(e, improved_points=False)
        close(np.sum(rw), ra, "sum of the weights and total area", 1e-10, ra)
        close(area, ra, "total area", 1e-10, ra)
        # reference: the polygons of the cells
        dS = abs(np.linalg.det(A))
        tot, dens = 0.0, 0.0
        for i in cut:
            s = d.smearing[i].samples(e)
            tot += np.sum(s[2]) * dS
            sel = rb == i
            close(raw[sel], s[0], "points of the band", 1e-12, 1)
            close(rw[sel], s[2] * dS, "weights of the band", 1e-10, np.max(np.abs(rw)))
            dens += d.density_band(e, i)
        close(area, tot, "area", 1e-10, tot)
        # every sample is on the level (to first order of the cell), a Newton step brings it closer
        res = np.abs(np.take_along_axis(m(pts), bi[:, None], -1)[:, 0] - e)
        rres = np.abs(np.take_along_axis(m(raw), rb[:, None], -1)[:, 0] - e)
        if c["model"].startswith("lin"):
            require(np.max(res) < 2e-5 * (hi - lo), "samples of a linear band are off the level by %s", np.max(res))
            g = np.linalg.norm(A @ m.g)
            wg = rw / g
            close(np.sum(wg), sum(c12_density(m, d, e, i, N) for i in cut), "sum of area/gradient and the exact density", 2e-3, dens + 0.1)
        elif c["improved"]:
            assert len(res) == len(rres)
            gr = m.bands_grad(raw)
            g = np.take_along_axis(gr[1], rb[:, None, None], -1)[..., 0]
            b = np.take_along_axis(gr[0], rb[:, None], -1)[:, 0]
            close(pts, raw - g * ((b - e) / np.maximum(np.sum(g * g, -1), 1e-20))[:, None], "Newton step", 1e-8, 1 + np.max(np.abs(pts)))
        if c["wg"]:
            plain = d.fermi_surface_samples(e, improved_points=c["improved"])
            if hasattr(m, "bands_grad") and c["improved"]:
                gr = m.bands_grad(raw)[1]
                gn = np.linalg.norm(np.take_along_axis(gr, rb[:, None, None], -1)[..., 0], axis=-1)
            else:
                gn = np.concatenate([np.linalg.norm(d.smearing[i].samples(e)[1], axis=-1) for i in cut])
            close(w * (gn + 1e-20), plain[2], "weights divided by the gradient", 1e-9, np.max(plain[2]))
            if not c["improved"]:
                close(np.sum(w), dens, "sum of area/gradient and density of states", 2e-4 if not c.get("grad") else 2e-3, dens + 0.05)
        for norm in ("band", "total"):
            q = d.fermi_surface_samples(e, improved_points=c["improved"], normalize=norm)
            base = d.fermi_surface_samples(e, improved_points=c["improved"])
            close(q[0], base[0], "points do not depend on the normalisation", 1e-12, 1)
            close(q[3], area, "total area", 1e-12, area)
            if norm == "total":
                close(q[2], base[2] / area, "normalised weights", 1e-10, 1)
            else:
                for i in set(bi):
                    close(np.sum(q[2][bi == i]), 1.0, "weights of a band", 1e-10)
                    close(q[2][bi == i] * np.sum(base[2][bi == i]), base[2][bi == i], "band weights proportional", 1e-10, area)
        cnt += 8
    if cnt == 0:
        raise Skip("nothing cut")
    return dict(n=cnt, nontrivial=True)


def c12_density(m, d, e, i, N):
    """exact density of a linear band over the unit crystal cell"""
    from .c12 import cube_exact
    g = m.g
    return float(cube_exact(g, e - m.c[i])[1])


def run_cov(c):
    """the same crystal in another orientation, handedness, unit or with the lattice given to the integral instead of the sampling"""
    l, name, el, T = c["lat"], c["model"], c["el"], c["T"]
    A = mat(l)
    rot = np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]])
    Rs = {"rot": rot, "mirror": np.diag([1.0, 1.0, -1.0]), "perm": np.eye(3)[[1, 2, 0]] * [[1], [-1], [1]], "inv": -np.eye(3), "scale": np.eye(3) * 2.5, "unit": None}
    R = Rs[c["how"]]

    N = 10 if R is None else 6

    def tensors(m, Ad, A):
        d = dos.DensityOfStates(m, N=N, A=Ad, check=False)
        k = bulk.KIntegral(d, el, T)
        s2, s3 = k.conductivity_hall_tensor(A)
        return k, k.transport_coefficients(A), s2, s3, k.drude_factor(A)
    base_k, L, s2, s3, D = tensors(model(name, A), A, A)
    if R is None:
        # sampling in crystal coordinates
        k2, L2, t2, t3, D2 = tensors(model(name, None), None, A)
        want = L, s2, s3, D
    else:
        k2, L2, t2, t3, D2 = tensors(model(name, R @ A), R @ A, R @ A)
        if c["how"] == "scale":
            s = 2.5  # v -> s v, V -> s^3 V, h -> s^2 h
            want = L / s, s2 / s, s3 * s, D / s
        else:
            det = np.linalg.det(R)
            want = np.einsum("ia,jb,ntab->ntij", R, R, L), R @ s2 @ R.T, det * np.einsum("ia,jb,kc,tabc->tijk", R, R, R, s3), R @ D @ R.T
    close(k2.mu, base_k.mu, "chemical potential", 1e-4, 1)
    tol = 1e-5 if max(T) < 1000 else 1e-3
    if R is None:
        # only the same up to the discretisation of the surface, as areas of cell planes are divided by exact gradients
        tol = 0.1
    for a in range(1 if R is None else 3):
        close(L2[a], want[0][a], f"L^({a})", tol, np.max(np.abs(want[0][a])) + 1e-3 * np.max(np.abs(want[0][0])) * (kB * (max(T) + 1))**a)
    close(t2, want[1], "sigma2", tol, np.max(np.abs(want[1])))
    if R is not None:
        close(t3, want[2], "sigma3", tol, np.max(np.abs(want[2])))
    close(D2, want[3], "drude factor", tol, np.max(np.abs(want[3])))
    return dict(n=6, nontrivial=True)


def tau_f(k):
    return 1.5 + 0.4 * np.cos(0.7 * k[:, 0]) + 0.2 * np.sin(0.4 * k[:, 1] - k[:, 2])


SKEW = np.array([[1.0, 0.5, 0.0], [0.0, 1.2, -0.3], [0.2, 0.0, 0.8]])


def run_sums(c):
    """the integrals are the documented sums over the samples of all Fermi surfaces"""
    l, name, el, T, N = c["lat"], c["model"], c["el"], c["T"], c["N"]
    A = mat(l)
    d = make(name, l)
    k = bulk.KIntegral(d, el, T, N=N)
    require(len(k.e_smpl) == np.shape(k.integration_weights)[1] and np.shape(k.integration_weights)[0] == len(T), "shape of the energy quadrature")
    close(k.mu, d.chemical_potential(el, T, N=50), "chemical potential", 1e-9, 1)
    if len(T) == 1 and T[0] == 0 or N == 1:
        close(k.e_smpl, [d.fermi_energy(el)], "single energy", 1e-9, 1)
    require(max(T) > 1000 or np.all(np.abs(np.sum(k.integration_weights, 1) - 1) < 3e-3), "the quadrature weights do not sum up to 1: %s", np.sum(k.integration_weights, 1))
    per = []  # per energy: w/|v|, v, h, k
    for e in k.e_smpl:
        p, b, w, _ = d.fermi_surface_samples(e, improved_points=False)
        _, v, h = d.model.bands_grad_hess(p)
        v = np.array([v[i, :, b[i]] for i in range(len(b))]).reshape(-1, 3)
        h = np.array([h[i, :, :, b[i]] for i in range(len(b))]).reshape(-1, 3, 3)
        per.append((w / (1e-8 + np.linalg.norm(v, axis=-1)), v, h, p))

    def ref(g, moments, hess):
        out = []
        for a in range(moments + 1):
            row = []
            for mu, W in zip(k.mu, k.integration_weights):
                s = 0.0
                for e, wj, (w, v, h, p) in zip(k.e_smpl, W, per):
                    f = np.asarray(g(e, v, h, p) if hess else g(e, v, p))
                    s = s + wj * (e - mu)**a * np.tensordot(w, f, 1)
                row.append(s)
            out.append(row)
        return np.array(out)
    n = 0
    G = {"one": lambda e, v, p: np.ones(len(p)), "e": lambda e, v, p: np.full(len(p), e), "v": lambda e, v, p: v, "vv": lambda e, v, p: v[:, :, None] * v[:, None, :], "k": lambda e, v, p: np.cos(p @ [1.0, 2.0, 3.0])}
    GH = {"h": lambda e, v, h, p: h, "vhv": lambda e, v, h, p: np.einsum("ni,nij,nj->n", v, h, v)}
    for order in (("one", "e", "v", "h", "vv", "k", "vhv"), ("vhv", "v", "one")):
        kk = bulk.KIntegral(d, el, T, N=N)
        for o in order:
            hess = o in GH
            g = (GH if hess else G)[o]
            for mo in (0, 2):
                got, want = kk.integrate_df(g, hessians=hess, moments=mo), ref(g, mo, hess)
                require(got.shape == want.shape, "shape of the integral of %s: %s instead of %s", o, got.shape, want.shape)
                close(got, want, f"integral of {o}", 1e-8, np.max(np.abs(ref(lambda *a: np.abs(g(*a)), mo, hess))) + 1e-12)
                n += 1
    # linearity
    f1, f2 = G["v"], lambda e, v, p: np.sin(p) + e
    close(kk.integrate_df(lambda e, v, p: 2 * f1(e, v, p) - 3 * f2(e, v, p)), 2 * kk.integrate_df(f1) - 3 * kk.integrate_df(f2), "linearity", 1e-9, 1 + np.max(np.abs(kk.integrate_df(f2))))
    # SI units and proper k space. k samples are in units where the sampling lattice is self.A
    for A2, Ae in ((A, np.eye(3)), (A * 2.0, 2 * np.eye(3)), (np.diag([1.0, 2.0, 3.0]) @ A, np.diag([1.0, 2.0, 3.0])), (SKEW @ A, SKEW)):
        B = 2 * np.pi * np.linalg.inv(Ae)
        gt = 1e-10 / hbar / (2 * np.pi) * Ae

        def conv(g, hess):
            if hess:
                return lambda e, v, h, p: g(e, v @ gt.T * e0, np.einsum("ki,lj,nij->nkl", gt * e0, gt, h), p @ B)
            return lambda e, v, p: g(e, v @ gt.T * e0, p @ B)
        for o, g, hess in (("v", lambda e, v, p: v, False), ("k", lambda e, v, p: np.cos(0.3 * p @ [1.0, 2.0, 3.0]), False), ("h", lambda e, v, h, p: h, True)):
            got, want = k.integrate_df_A(A2, g, hessians=hess, moments=1), ref(conv(g, hess), 1, hess)
            close(got, want, f"integrate_df_A of {o}", 1e-8, np.max(np.abs(ref((lambda f: lambda *a: np.abs(f(*a)))(conv(g, hess)), 1, hess))) + 1e-300)
        V = abs(np.linalg.det(A2)) * 1e-30
        for tau in (None, 2.5, 3, tau_f):
            t = (lambda p: np.ones(len(p))) if tau is None else tau if callable(tau) else (lambda p: np.full(len(p), float(tau)))
            for sf in (1, 2):
                want = np.array([sf * e0**(2 - a) * x / e0**(1 - a) / V for a, x in enumerate(ref(conv(lambda e, v, p: t(p)[:, None, None] * v[:, :, None] * v[:, None, :], False), 2, False))])
                L = k.transport_coefficients(A2, spin_factor=sf, tau=tau)
                require(L.shape == (3, len(T), 3, 3), "shape of the transport coefficients %s", L.shape)
                for a in range(3):
                    close(L[a], want[a], f"L^({a}) for tau={tau}", 1e-8, np.max(np.abs(want[a])) + 1e-300)
                close(L, np.swapaxes(L, -1, -2), "symmetry of L", 1e-9, np.max(np.abs(L)))
                if np.min(k.integration_weights) >= 0:
                    require(np.min(np.linalg.eigvalsh(L[0])) >= -1e-9 * np.max(np.abs(L[0])), "conductivity is not positive")
                L0 = k.transport_coefficients(A2, spin_factor=sf, tau=tau, max_a=0)
                close(L0, L[:1], "max_a=0", 1e-12, np.max(np.abs(L0)))
                s2, s3 = k.conductivity_hall_tensor(A2, spin_factor=sf, tau=tau)
                close(s2, want[0], f"sigma2 for tau={tau}", 1e-8, np.max(np.abs(want[0])))
                w3 = sf * e0**3 / e0 / V * ref(conv(lambda e, v, h, p: (t(p)**2)[:, None, None, None] * np.einsum("kab,ni,nja,nb->nijk", EPS, v, h, v), True), 0, True)[0]
                close(s3, w3, f"sigma3 for tau={tau}", 1e-8, np.max(np.abs(w3)))
                n += 8
        close(k.drude_factor(A2), k.transport_coefficients(A2)[0], "drude factor", 1e-12, np.max(np.abs(k.drude_factor(A2))))
        close(k.drude_factor(A2, spin_factor=1) * 2, k.drude_factor(A2), "spin factor", 1e-12, np.max(np.abs(k.drude_factor(A2))))
    return dict(n=n, nontrivial=True)


def run_group(c):
    """tensors of a cubic crystal are isotropic"""
    d = make(c["model"], "unit", N=c["N"], midpoint=c["mid"])
    try:
        d.fermi_energy(c["el"])
    except ValueError:
        raise Skip("no Fermi energy (decided by C13)")
    k = bulk.KIntegral(d, c["el"], c["T"])
    A = 3.0 * np.eye(3)
    L = k.transport_coefficients(A)
    for a in range(3):
        t = np.trace(L[a], axis1=-2, axis2=-1)[..., None, None] / 3 * np.eye(3)
        close(L[a], t, f"L^({a}) isotropic", 1e-4, np.max(np.abs(L[0])) * (kB * max(c["T"]) + 0.01)**a)
    s2, s3 = k.conductivity_hall_tensor(A)
    x = np.einsum("ijk,tijk->t", EPS, s3)[:, None, None, None] / 6 * EPS
    close(s3, x, "Hall tensor isotropic", 1e-3, 5 * np.max(np.abs(s3)) + 1e-3 * np.max(np.abs(s2)) * e0 / 1e-30)
    R = bulk.hall_coefficients(s2, s3)
    RH = k.hall_coefficient_metal_cubic(A)
    close(np.abs(R[:, 0, 1, 2]), np.abs(RH), "Hall coefficient of a cubic metal", 1e-3, np.max(np.abs(RH)))
    close(k.hall_coefficient_metal_cubic(A, spin_factor=1), 2 * RH, "Hall coefficient and spin", 1e-9, np.max(np.abs(RH)))
    close(k.hall_coefficient_metal_cubic(2 * A), 8 * RH, "Hall coefficient and volume", 1e-9, 8 * np.max(np.abs(RH)))
    return dict(n=7, nontrivial=True)


def run_free(c):
    """free electrons: n, mass, Lorenz number, Mott, Hall"""
    el, T, a = c["el"], c["T"], c["a"]
    F = bulk.FreeElectrons([[0, 0, 0]])
    A = np.eye(3)
    scale = 1.0
    if a != 1:
        f0 = F
        class G:
            def __call__(self, k):
                return f0(np.asarray(k) / a)

            def bands_grad(self, k):
                b, g = f0.bands_grad(np.asarray(k) / a)
                return b, g / a

            def bands_grad_hess(self, k):
                b, g, h = f0.bands_grad_hess(np.asarray(k) / a)
                return b, g / a, h / a**2
        F, A = G(), np.eye(3) * a
    d = dos.DensityOfStates(F, N=20, wrap=False, check=False, smearing="cubes")
    k = bulk.KIntegral(d, el, T)
    n = 2 * el / (a * 1e-10)**3
    me = hbar**2 / (2 * 3.80998211 * e0 * 1e-20)
    L = k.transport_coefficients(A)
    close(L[0], np.broadcast_to(np.eye(3) * n * e0**2 / me, L[0].shape), "sigma/tau = n e^2/m", 0.02, n * e0**2 / me)
    s2, s3 = k.conductivity_hall_tensor(A)
    R = bulk.hall_coefficients(s2, s3)
    close(R, np.broadcast_to(EPS / (n * e0), R.shape), "Hall tensor 1/(ne)", 0.02, 1 / (n * e0))
    close(k.hall_coefficient_metal_cubic(A), np.full(len(T), -1 / (n * e0)), "Hall coefficient -1/(ne)", 0.02, 1 / (n * e0))
    EF = 3.80998211 * (3 * np.pi**2 * n * 1e-30)**(2 / 3)
    close(d.fermi_energy(el), EF, "Fermi energy", 0.02, EF)
    for i, t in enumerate(T):
        if t == 0:
            require(np.all(np.abs(L[1:, i]) <= 1e-12 * np.abs(L[0, i]).max()), "L^(1), L^(2) at T=0 are not zero")
            continue
        Li = L[:, i]
        lor = bulk.electronic_thermal_conductivity(Li, t) / Li[0][0, 0] / t
        close(lor, np.eye(3) * np.pi**2 / 3 * kB**2, "Lorenz number", 0.05, np.pi**2 / 3 * kB**2)
        S = bulk.seebeck(Li, t)
        close(S, np.eye(3) * np.pi**2 / 2 * kB**2 * t / EF, "Seebeck coefficient", 0.12, np.pi**2 / 2 * kB**2 * t / EF)
        close(bulk.peltier(Li), S * t, "Kelvin relation", 1e-9, np.max(np.abs(S * t)))
    return dict(n=5 + 3 * len(T), nontrivial=True)


def run_formula(c):
    """definitions of the derived tensors for arbitrary (noncommuting) coefficients"""
    s = c["seed"]
    M = [gen(s + i, (3, 3)) for i in range(3)]
    L = np.array([M[0] @ M[0].T + np.eye(3), M[1] + M[1].T, M[2] @ M[2].T + 2 * np.eye(3)])
    T = c["T"]
    i0 = np.linalg.inv(L[0])
    close(bulk.conductivity(L), L[0], "conductivity", 1e-14)
    # j_e = 0: E = S grad T,  with j_e = L0 E - L1 gradT/T
    g, E = gen(s + 7, 3), None
    E = bulk.seebeck(L, T) @ g
    close(L[0] @ E - L[1] @ g / T, np.zeros(3), "no current in an open circuit with E = S grad T", 1e-9, 10)
    jq = L[1] @ E - L[2] @ g / T
    close(bulk.electronic_thermal_conductivity(L, T) @ (-g), jq, "heat current = -kappa grad T without current", 1e-9, 10)
    E = gen(s + 8, 3)
    close(bulk.peltier(L) @ (L[0] @ E), L[1] @ E, "heat current = P j_e without temperature gradient", 1e-9, 10)
    s2, s3 = gen(s + 20, (2, 3, 3)) + 2 * np.eye(3), gen(s + 21, (2, 3, 3, 3))
    R = bulk.hall_coefficients(s2, s3)
    for t in range(2):
        i2 = np.linalg.inv(s2[t])
        want = np.zeros((3, 3, 3))
        for i, j, k, a, b in itertools.product(range(3), repeat=5):
            want[i, j, k] += i2[a, j] * s3[t, a, b, k] * i2[i, b]
        close(R[t], want, "Hall tensor", 1e-9, 1 + np.max(np.abs(want)))
        close(bulk.hall_coefficients(s2[t], s3[t]), want, "single Hall tensor", 1e-9, 1 + np.max(np.abs(want)))
    return dict(n=8, nontrivial=True)


def run_isolator(c):
    g = AsymTightBindingModel(HermitianFourierSeries(np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]]), np.array([np.diag([0.0, 10.0, 30.0])] + [0.3 * herm3(i) for i in range(3)]) + 0j))
    d = dos.DensityOfStates(g, N=4, check=False)
    k = bulk.KIntegral(d, c["el"], [0] * c["nT"])
    require(not k.metal and k.bandgap > 0, "not an isolator")
    for mo in (0, 2):
        for name, f, sh in (("scalar", lambda e, v, p: v[:, 0], ()), ("vector", lambda e, v, p: v, (3,)), ("tensor", lambda e, v, p: v[:, None] * v[:, :, None], (3, 3))):
            I = k.integrate_df(f, moments=mo)
            require(I.shape == (mo + 1, c["nT"]) + sh and np.all(I == 0), "integral of an isolator at T=0: shape %s", I.shape)
        I = k.integrate_df(lambda e, v, h, p: h, hessians=True, moments=mo)
        require(I.shape == (mo + 1, c["nT"], 3, 3) and np.all(I == 0), "integral with hessians")
    require(k.transport_coefficients(np.eye(3)).shape == (3, c["nT"], 3, 3), "shape of the transport coefficients")
    s2, s3 = k.conductivity_hall_tensor(np.eye(3))
    require(s2.shape == (c["nT"], 3, 3) and s3.shape == (c["nT"], 3, 3, 3) and np.all(s2 == 0) and np.all(s3 == 0), "Hall tensor of an isolator")
    require(np.all(k.drude_factor(np.eye(3)) == 0), "drude factor of an isolator")
    try:
        bulk.KIntegral(d, c["el"], [300])
        raise Violation("an isolator at finite temperature is not refused")
    except NotImplementedError:
        pass
    return dict(n=10, nontrivial=True)


def herm3(i):
    M = gen(40 + i, (3, 3))
    return M + M.T


def subs(tier):
    th = tier == "thorough"

    def prod(**k):
        return [dict(zip(k, v)) for v in itertools.product(*k.values())]
    lats = list(LAT)
    Ts = [[0], [300], [0, 300], [100, 1000]] + ([[0, 100, 1000], [3000], [1, 10]] if th else [])
    ms = ("tb2", "cubic2") + (("tb1", "tb3") if th else ())
    return [
        Enum("energy quadrature", lambda t: prod(N=(1, 3, 5, 7, 9), T0=(10.0, 300.0), T1=(10.0, 300.0, 1000.0), T=[(10.0, 100.0, 300.0, 1000.0)], ef=(0.0, 3.0, -7.5), dmu=(0.0, 0.3))
             and [c for c in prod(N=(1, 3, 5, 7, 9), T0=(10.0, 300.0), T1=(10.0, 300.0, 1000.0), T=[(10.0, 100.0, 300.0, 1000.0)], ef=(0.0, 3.0, -7.5), dmu=(0.0, 0.3)) if c["T0"] <= c["T1"]], run_points, "point count x temperature range x level x offset"),
        Enum("surface", lambda t: prod(model=("lin", "lin1") + ms, lat=lats, improved=(False, True), wg=(False, True), levels=[(-0.1, 0.0, 0.03, 0.2, 0.4, 0.5, 0.61, 0.85, 0.98, 1.1)])
             + prod(model=ms, lat=lats, improved=(False, True), wg=(True,), grad=(True,), levels=[(0.2, 0.5, 0.85)]), run_surface, "model x lattice x improved points x gradient weights x levels"),
        Enum("covariance", lambda t: prod(model=ms, lat=lats, how=("rot", "mirror", "perm", "inv", "scale", "unit"), el=(0.4, 0.9) if not th else (0.2, 0.4, 0.9), T=Ts), run_cov, "model x lattice x transformation x electrons x temperatures"),
        Enum("direct sums", lambda t: prod(model=ms, lat=lats, el=(0.35, 0.8), T=Ts, N=(None, 1, 5)), run_sums, "model x lattice x electrons x temperatures x energies, all integrands, relaxation times and spin factors"),
        Enum("point group", lambda t: prod(model=("cubic1", "cubic2"), N=(4, 5, 6, 8), mid=(False, True), el=(0.1, 0.35, 0.6, 0.8), T=Ts), run_group, "cubic models x grid x filling x temperatures"),
        Enum("free electrons", lambda t: prod(el=(0.08, 0.15, 0.3), T=[[0], [300], [0, 300], [100, 1000], [1000]], a=(1, 3.0)), run_free, "electron count x temperatures x lattice constant"),
        Enum("definitions", lambda t: prod(seed=range(1, 40, 3), T=(1.0, 300.0)), run_formula, "coefficient sets"),
        Enum("isolator", lambda t: prod(el=(1, 2), nT=(1, 2)), run_isolator, "electron count x number of temperatures"),
    ]
