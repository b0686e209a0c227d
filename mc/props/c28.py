"""C28: every sequence of changes of the description of a crystal (basis, units, orientation, file formats, model kinds,
supercells, duplicated bands) leaves all physical results unchanged up to the known factors."""
import os
import warnings
import numpy as np
from ..core import BFS, require
from ..util import gen, genc, herm, close
from .c20 import scratch
from tight_binding_redweasel import dos, bulk
from tight_binding_redweasel import wannier90_tb_format as fmt90
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries

LEVEL = "model_checking"
ASSUMPTIONS = ["the results of the first description are decided by C13-C15 and C24; here all descriptions are compared with each other",
               "grids correspond to each other: basis changes of the lattice are permutations and sign changes of the lattice vectors"]
N = 5
kB = dos.k_B
ROT = np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]])
K = gen(91, (6, 3))
LATS = {"cubic": np.eye(3), "skew": np.eye(3) + 0.35 * gen(2, (3, 3)), "fcc": (np.ones((3, 3)) - np.eye(3)) / 2}


class St:
    def __init__(self, root):
        self.root = root
        self.A = np.array(LATS[root["lat"]]) * root.get("len", 1.0)
        self.m = model(root)
        self.es, self.sh, self.mult, self.L = 1.0, 0.0, 1, 1.0
        self.Q = np.eye(3)      # cartesian: new = Q old
        self.P = np.eye(3)      # crystal:   A_new = Q A_old L P
        self.super = 1
        self.done = []
        self.base = base(root)


SHELL = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0], [0, 1, 1]])


def model(root):
    """generic complex hoppings, so that E(k) and E(-k) differ; optionally a k dependent overlap"""
    A, nb = np.array(LATS[root["lat"]]) * root.get("len", 1.0), root["nb"]
    H = [herm(17 * nb, nb) + np.diag(np.arange(nb)) * 1.3] + [0.35 * genc(17 * nb + i, (nb, nb)) for i in range(1, len(SHELL))]
    S = None
    if root.get("S"):
        Sr = [np.eye(nb) + 0.1 * herm(5, nb)] + [0.03 * genc(20 + i, (nb, nb)) for i in range(3)]
        S = HermitianFourierSeries(SHELL[:4] @ A.T, np.array(Sr) + 0j)
    return AsymTightBindingModel(HermitianFourierSeries(SHELL @ A.T, np.array(H) + 0j), S)


_base = {}


def base(root):
    key = repr(sorted(root.items()))
    if key not in _base:
        A = np.array(LATS[root["lat"]]) * root.get("len", 1.0)
        _base[key] = observe(model(root), A, root, 1.0, 1.0, 0.0)
    return _base[key]


def observe(m, A, root, es, mult, sh):
    """everything that is computed from a model and its lattice"""
    r = {}
    el = root["el"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = dos.DensityOfStates(m, N=N, A=A, check=1e-6, smearing=root.get("smear", "cubes"), use_gradients=root.get("grad", False))
        el = el * mult
        r["range"] = np.array(d.energy_range())
        r["ranges"] = np.array(d.bands_range)
        r["gap"] = d.bandgap(el)
        r["ef"] = d.fermi_energy(el)
        lv = [es * x + sh for x in (-0.9, -0.2, 0.3, 0.8, 1.7)]
        r["states"] = np.array([d.states_below(e) for e in lv])
        r["density"] = np.array([d.density(e) for e in lv])
        T = np.array([0.0, 500 * es, 3000 * es])
        r["mu"] = np.array(d.chemical_potential(el, T))
        r["heat"] = d.heat_capacity(el, T[2])
        r["energy"] = np.array([d.energy(r["ef"], 0.0), d.energy(r["mu"][2], T[2])])
        ef = r["ef"]
        r["L"] = r["s2"] = r["s3"] = None
        r["area"], r["cut"] = 0.0, []
        surface = root.get("smear", "cubes") != "spheres"   # (without samples of the surface)
        if surface:
            pts, bi, w, r["area"] = d.fermi_surface_samples(ef)
            r["cut"] = sorted(set(int(b) for b in bi))
        if surface and r["gap"] == 0:
            k = bulk.KIntegral(d, el, T)
            r["L"] = k.transport_coefficients(A)
            r["s2"], r["s3"] = k.conductivity_hall_tensor(A)
    return r


def make(root):
    return St(root)


def lib(st):
    return "asym" if isinstance(st.m, AsymTightBindingModel) else "bsm"


def ops(root, st, tier):
    out = [["norm"], ["copy"], ["json", "asym"], ["json", "bsm"], ["rot"], ["mirror"], ["axes"], ["flip"], ["unit", 2.5], ["unit", 0.05], ["energy", 1.7], ["shift", 0.4], ["perm"], ["extend"]]
    if lib(st) == "asym":
        out.append(["wannier"])
    if st.mult == 1:
        out.append(["double"])
    if st.super == 1:
        out.append(["super", 0])
        out.append(["super", 1])
    if root.get("S"):
        out = [o for o in out if o[0] not in ("wannier", "json")]   # (the formats store no overlap)
    if lib(st) == "bsm":
        out = [o for o in out if o[0] not in ("extend",)]
    return out


SUPER = [np.diag([2, 1, 1]), np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])]


def step(st, op):
    m, kind = st.m, op[0]
    st.done.append(kind)
    if kind == "norm":
        m.normalize()
    elif kind == "copy":
        st.m = m.copy()
    elif kind == "json":
        with scratch():
            m.save("a.json")
            st.m = (AsymTightBindingModel if op[1] == "asym" else BandStructureModel).load("a.json")
    elif kind in ("rot", "mirror"):
        Q = ROT if kind == "rot" else np.diag([1.0, 1.0, -1.0])
        transform(st, Q)
        st.A, st.Q = Q @ st.A, Q @ st.Q
    elif kind == "unit":
        transform(st, np.eye(3) * op[1])
        st.A, st.L = st.A * op[1], st.L * op[1]
    elif kind in ("axes", "flip"):
        P = np.eye(3)[:, [1, 2, 0]] if kind == "axes" else np.diag([1.0, -1.0, 1.0])
        st.A, st.P = st.A @ P, st.P @ P
    elif kind == "energy":
        st.m = m * op[1]
        st.es, st.sh = st.es * op[1], st.sh * op[1]
    elif kind == "shift":
        st.m = m + op[1]
        st.sh += op[1]
    elif kind == "perm":
        n = m.band_count()
        m.permute(list(range(1, n)) + [0])
    elif kind == "extend":
        far = np.array([[2, 0, 0], [0, 0, 3], [1, 1, 1]]) @ st.A.T
        far = [r for r in far if min(np.min(np.linalg.norm(m.H.neighbors - r, axis=-1)), np.min(np.linalg.norm(m.H.neighbors + r, axis=-1))) > 1e-6 * np.linalg.norm(r)]
        if far:
            m.H.add_neighbors(np.array(far))
    elif kind == "wannier":
        R = np.rint(m.H.neighbors @ np.linalg.inv(st.A).T).astype(int)
        data = {}
        for r, H in zip(R, m.params_complex()):
            H = np.array(H)
            data[tuple(int(x) for x in r)] = (1, H, np.zeros((3,) + H.shape))
            if any(r):
                data[tuple(int(-x) for x in r)] = (1, H.conj().T, np.zeros((3,) + H.shape))
        with scratch():
            write_tb("x_tb.dat", st.A, data)
            nb, H, *_ = fmt90.load_tb("x_tb.dat")
        st.m = AsymTightBindingModel(HermitianFourierSeries(np.array(nb) @ st.A.T, np.zeros_like(H)))
        st.m.set_from_complex(H)
    elif kind == "double":
        st.m = m + m.copy()
        st.mult = 2
    elif kind == "super":
        M = SUPER[op[1]]
        B = st.A @ M
        st.m = m.supercell(st.A, B)
        st.A = B
        st.super = int(abs(round(np.linalg.det(M))))
        st.M = M
        st.PM = st.P @ M
        return None
    else:
        raise AssertionError(op)
    if st.super != 1 and kind in ("axes", "flip"):
        st.PM = st.PM @ P
    return None


def transform(st, Q):
    st.m.transform(Q)


def write_tb(path, A, data):
    n = len(data[(0, 0, 0)][1])
    with open(path, "w") as f:
        f.write("header\n")
        for a in A.T:
            f.write("%.16e %.16e %.16e\n" % tuple(a))
        f.write("%d\n%d\n" % (n, len(data)))
        deg = [1] * len(data)
        for i in range(0, len(deg), 15):
            f.write(" ".join(map(str, deg[i:i + 15])) + "\n")
        for what in (1, 2):
            for R, v in data.items():
                f.write("\n%d %d %d\n" % R)
                for j in range(n):
                    for i in range(n):
                        if what == 1:
                            f.write("%d %d %.17e %.17e\n" % (i + 1, j + 1, v[1][i, j].real, v[1][i, j].imag))
                        else:
                            f.write("%d %d 0.0 0.0 0.0 0.0 0.0 0.0\n" % (i + 1, j + 1))


def crystal_bands(root, k):
    """bands of the original crystal at the crystal coordinates k"""
    A = np.array(LATS[root["lat"]]) * root.get("len", 1.0)
    return model(root).bands(np.asarray(k) @ np.linalg.inv(A))


def check(st):
    es, sh, mu, L = st.es, st.sh, st.mult, st.L
    Ai = np.linalg.inv(st.A)
    # k crystal (new) -> k = K_new A_new^-1 ; old crystal coordinates: K_old = K_new P^-1 (A_new = Q A_old P L)
    who = "after " + ", ".join(st.done) if st.done else "at the start"
    m = st.m
    if st.super != 1:
        PM = st.PM
        n = st.super * st.mult * st.root["nb"]
        # all k of the original crystal that fold onto K
        inv = np.linalg.inv(PM)
        G = [g for g in np.ndindex(4, 4, 4)]
        fold = []
        for g in G:
            x = np.array(g, float) @ inv
            if not any(np.allclose(x - y, np.round(x - y), atol=1e-8) for y in fold):
                fold.append(x)
        assert len(fold) == st.super
        want = np.sort(np.repeat(np.concatenate([crystal_bands(st.root, K @ inv + x) for x in fold], axis=1), mu, axis=1) * es + sh, axis=1)
        close(m.bands(K @ Ai), want, "bands of the supercell " + who, 1e-7, 1 + np.max(np.abs(want)))
        return
    want = np.sort(np.repeat(crystal_bands(st.root, K @ np.linalg.inv(st.P)), mu, axis=1) * es + sh, axis=1)
    close(m.bands(K @ Ai), want, "bands " + who, 1e-7, 1 + np.max(np.abs(want)))
    if not st.done:
        return
    b = st.base
    r = observe(m, st.A, st.root, es, mu, sh)
    scale = es * (b["range"][1] - b["range"][0])
    tol = 1e-6
    close(r["range"], b["range"] * es + sh, "energy range " + who, tol, scale)
    close(r["ranges"], np.repeat(b["ranges"], mu, axis=0) * es + sh, "ranges of the bands " + who, tol, scale)
    require((r["gap"] == 0) == (b["gap"] == 0), "metal or isolator %s: %s %s", who, r["gap"], b["gap"])
    close(r["gap"], b["gap"] * es, "band gap " + who, tol, scale)
    close(r["ef"], b["ef"] * es + sh, "Fermi energy " + who, tol, scale)
    close(r["states"], b["states"] * mu, "states below " + who, 1e-5, mu)
    close(r["density"], b["density"] * mu / es, "density " + who, 1e-5, mu / es)
    close(r["mu"], b["mu"] * es + sh, "chemical potentials " + who, 1e-4, scale)
    close(r["heat"], b["heat"] * mu, "heat capacity " + who, 1e-3, abs(b["heat"]) * mu)
    # energy = sum over electrons (spin factor 2)
    # (at T > 0 up to the precision of the number of electrons in the chemical potential)
    want = (b["energy"] * es + 2 * st.root["el"] * sh) * mu
    close(r["energy"][0], want[0], "energy " + who, 1e-4, scale * mu)
    close(r["energy"][1], want[1], "energy at T > 0 " + who, 1e-4, (scale + 30 * abs(sh)) * mu)
    require(sorted(set(i // mu for i in r["cut"])) == b["cut"], "bands at the Fermi level %s: %s %s", who, r["cut"], b["cut"])
    # (areas are measured in units of the reciprocal cell volume, like the densities)
    close(r["area"], b["area"] * mu * L, "area of the Fermi surface " + who, 1e-4, b["area"] * mu * L)
    if b["L"] is None:
        return
    Q, det = st.Q, np.linalg.det(st.Q)
    wL = np.einsum("ia,jb,ntab->ntij", Q, Q, b["L"]) * mu / L * (es ** np.arange(1, len(b["L"]) + 1))[:, None, None, None]
    w2 = Q @ b["s2"] @ Q.T * mu * es / L
    w3 = det * np.einsum("ia,jb,kc,tabc->tijk", Q, Q, Q, b["s3"]) * mu * es**2 * L
    for a in range(len(wL)):
        close(r["L"][a], wL[a], f"L^({a}) " + who, 1e-3, np.max(np.abs(wL[a])) + 1e-3 * np.max(np.abs(wL[0])) * (kB * 3000 * es)**a)
    close(r["s2"], w2, "conductivity " + who, 1e-3, np.max(np.abs(w2)))
    close(r["s3"], w3, "Hall tensor " + who, 1e-3, np.max(np.abs(w3)))


def canon(st):
    m = st.m
    if lib(st) == "asym":
        p = (np.round(m.H.neighbors / np.linalg.norm(st.A), 6), np.round(m.H.H_r, 6))
    else:
        p = (np.round(np.asarray(m.neighbors) / np.linalg.norm(st.A), 6), np.round(m.params, 6))
    return (lib(st), round(st.es, 6), round(st.sh, 6), st.mult, round(st.L, 9), st.super, tuple(np.round(st.Q.ravel(), 6) + 0), tuple(np.round(st.A.ravel() / np.linalg.norm(st.A), 6) + 0)) + tuple(tuple(np.round(np.ravel(x), 6) + 0) for x in p)


def roots(tier):
    out = []
    for lat in LATS:
        for nb, el in ((1, 0.4), (2, 0.7), (2, 1.0), (3, 1.6)):
            if tier == "quick" and (lat, nb, el) not in [("cubic", 2, 0.7), ("skew", 1, 0.4), ("fcc", 2, 1.0), ("skew", 3, 1.6)]:
                continue
            out.append(dict(lat=lat, nb=nb, el=el))
    out.append(dict(lat="skew", nb=2, el=0.6, S=True))
    out.append(dict(lat="skew", nb=2, el=0.6, smear="spheres"))
    out.append(dict(lat="skew", nb=2, el=0.6, smear="cubes", grad=True))
    return out


def subs(tier):
    return [BFS("descriptions", roots, make, ops, step, check, canon, lambda r, t: 3 if t != "quick" and r in roots("quick") else 2,
                "every sequence of changes of the description of a crystal up to the depth; all physical results are computed anew after each change")]
