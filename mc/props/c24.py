"""C24: Fermi surfaces: crossing bands, exported meshes and plotted surfaces / cuts against the level sets of the sampled bands."""
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import matplotlib
from matplotlib import pyplot as plt
from ..core import Enum, Skip, Violation, require
from ..util import gen, genc, herm, close
from tight_binding_redweasel import fermi_surface as fs
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.symmetry import Symmetry

LEVEL = "exploration"
ASSUMPTIONS = ["scikit-image's marching cubes and matplotlib's contours are taken as the definition of the interpolated level set inside of a cell; on the edges of the grid it is checked against linear interpolation",
               "vertices of exported files are given in units of grid steps (to four digits), those of plots in k-space",
               "plotted triangles are enlarged by 3 % around their centre (documented in the source)"]


def uniq(a):
    return {tuple(x) for x in (np.round(np.asarray(a), 3) + 0.0).tolist()}


def crossings(vol, skip_zero=True):
    """points (in grid units) on the edges of the grid where the values change sign"""
    vol = np.asarray(vol, float)
    out = []
    for ax in range(vol.ndim):
        a = np.moveaxis(vol, ax, 0)
        lo, hi = a[:-1], a[1:]
        for idx in np.argwhere((lo < 0) & (hi > 0) | (lo > 0) & (hi < 0)):
            x, y = lo[tuple(idx)], hi[tuple(idx)]
            p = list(idx[1:].astype(float))
            p.insert(ax, idx[0] + x / (x - y))
            out.append(p)
    return np.array(out).reshape(-1, vol.ndim)


def match(got, want, tol, what):
    """every wanted point is there and every vertex on an edge of the grid is wanted"""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if len(want):
        require(len(got) > 0, "%s: no vertices", what)
        d = np.min(np.max(np.abs(want[:, None] - got[None]), axis=-1), axis=1)
        require(np.all(d < tol), "%s: no vertex at the crossing %s", what, want[np.argmax(d)])
        # vertices inside of a cube are only allowed in ambiguous cubes
        on_edge = np.sum(np.abs(got - np.round(got)) > 2 * tol, axis=1) <= 1
        g = got[on_edge]
        d = np.min(np.max(np.abs(g[:, None] - want[None]), axis=-1), axis=1)
        require(np.all(d < tol), "%s: vertex %s is not on the surface", what, g[np.argmax(d)])
        return int(np.sum(~on_edge))
    return 0


def cubes(vol):
    out = []
    n = np.array(vol.shape) - 1
    for i in itertools.product(*map(range, n)):
        c = vol[tuple(slice(j, j + 2) for j in i)]
        if np.any(c > 0) and np.any(c < 0):
            out.append(i)
    return out


def mesh(verts, faces, vol, what, strict=True):
    """a valid, closed mesh (apart from the border of the grid)"""
    shape = np.array(vol.shape)
    require(np.all(verts >= -1e-6) and np.all(verts <= shape - 1 + 1e-6), "%s: vertices outside of the grid", what)
    T = verts[faces]
    require(np.all(np.ptp(T, axis=1) <= 1 + 2e-4), "%s: a face connects different cells", what)
    if not strict:
        return
    edges = {}
    for f in faces:
        require(len(set(f)) == 3, "%s: face %s", what, f)
        for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])):
            edges[min(a, b), max(a, b)] = edges.get((min(a, b), max(a, b)), 0) + 1
    for (a, b), cnt in edges.items():
        if cnt % 2:
            p, q = verts[a], verts[b]
            border = any((abs(p[i] - s) < 1e-3 and abs(q[i] - s) < 1e-3) for i in range(3) for s in (0, shape[i] - 1))
            require(border, "%s: the surface has a hole at %s %s", what, p, q)
    inside = [tuple(c) for c in cubes(vol)]
    mid = np.floor(np.mean(T, axis=1)).astype(int)
    have = {tuple(np.minimum(m, shape - 2)) for m in mid}
    if strict:
        for c in inside:
            # each cell that contains the surface has triangles; a centre on a cell wall may be counted next to it
            require(c in have or any(np.all(np.abs(np.mean(t, axis=0) - np.array(c) - 0.5) <= 0.5 + 1e-3) for t in T), "%s: no triangle in the cell %s", what, c)


def parse_obj(path):
    """OBJ file -> (material library, [(group, material, vertices, faces)])"""
    verts, groups, lib, mat, g = [], [], [], None, None
    for line in open(path):
        w = line.split()
        if not w or w[0].startswith("#"):
            continue
        if w[0] == "mtllib":
            lib.append(line.split(None, 1)[1].rstrip("\n"))
        elif w[0] == "g":
            g = w[1]
            groups.append([g, None, [], [], len(verts)])
        elif w[0] == "v":
            require(len(w) == 4, "vertex %s", line)
            verts.append([float(x) for x in w[1:]])
            if groups:
                groups[-1][2].append(verts[-1])
        elif w[0] == "usemtl":
            mat = w[1]
        elif w[0] == "f":
            require(groups and len(w) == 4, "face %s", line)
            idx = [int(x.split("/")[0]) for x in w[1:]]
            idx = [i - 1 if i > 0 else len(verts) + i for i in idx]
            require(all(0 <= i < len(verts) for i in idx), "face %s references a vertex that does not exist (yet)", line)
            if groups[-1][1] is None:
                groups[-1][1] = mat
            require(groups[-1][1] == mat, "several materials in a group")
            groups[-1][3].append([i - groups[-1][4] for i in idx])
    return lib, groups


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="c24_")
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def export(model, ef, name="fs", **kw):
    """export and parse: {band: (vertices, faces)}, materials"""
    with Scratch() as d:
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name))
        path = name if not name.startswith("@") else os.path.join(d, name[1:])
        fs.export_3D_fermi_surface(path, model, ef, **kw)
        lib, groups = parse_obj(path + ".obj")
        require(len(lib) == 1, "material files %s", lib)
        mtl = os.path.join(os.path.dirname(path), lib[0])
        require(os.path.exists(mtl), "the material file %r is not found from the place of the OBJ file %r", lib[0], name + ".obj")
        mats = {}
        for line in open(mtl):
            w = line.split()
            if w and w[0] == "newmtl":
                require(w[1] not in mats, "material %s is defined twice", w[1])
                mats[w[1]] = cur = {}
            elif w and w[0] in ("Kd", "Ka", "Ks"):
                cur[w[0]] = [float(x) for x in w[1:]]
        files = sorted(os.path.join(r, f)[len(d) + 1:] for r, _, fl in os.walk(d) for f in fl)
        nm = name.lstrip("@")
        require(files == [nm + ".mtl", nm + ".obj"], "files %s", files)
    for m in mats.values():
        require(len(m["Kd"]) == 3 and all(0 <= x <= 1 for x in m["Kd"]), "colour %s", m)
    out = {}
    for g, mat, v, f, _ in groups:
        require(g not in out, "band %s twice", g)
        require(mat in mats, "material %s of %s is not defined", mat, g)
        out[g] = (np.array(v).reshape(-1, 3), np.array(f, int).reshape(-1, 3), mat)
    return out, mats


def axes_k(rng, N):
    return np.linspace(rng[0], rng[1], N)


def grid(rng, N, dim=3):
    x = axes_k(rng, N)
    return np.stack(np.meshgrid(*[x] * dim, indexing="ij"), axis=-1)


def triangles(ax):
    polys = []
    for c in ax.collections:
        F = getattr(c, "_faces", None)
        require(F is not None, "unknown collection %s", type(c))
        polys.append(np.asarray(F, float).reshape(-1, 3, 3))
    return np.concatenate(polys) if polys else np.zeros((0, 3, 3))


def plot3(model, ef, N, rng=None):
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection="3d")
        if rng is None:
            fs.plot_3D_fermi_surface_to_ax(ax, model, ef, N)
        else:
            fs.plot_3D_fermi_surface_to_ax(ax, model, ef, N, list(rng))
        T = triangles(ax)
        lim = [ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]
        col = np.concatenate([np.asarray(c._facecolor3d, float) for c in ax.collections]) if ax.collections else np.zeros((0, 4))
    finally:
        plt.close("all")
    return T, lim, col


# ---------------------------------------------------------------- models (plain functions)
def cosband(i, kind):
    def f(k):
        k = 2 * np.pi * k
        w = 1 + 0.1 * gen(50 + i, (3,))
        if kind == "cos":
            return np.cos(k) @ w + 0.2 * np.sin(k[:, 0] + 0.3 * i)
        if kind == "plane":
            return k @ w / 5 + 0.05
        if kind == "sphere":
            return np.sum((k - 0.37 * gen(9, (3,))) ** 2, axis=-1) / 10 - 1 + 0.03 * i
        return np.cos(k[:, 0]) * np.cos(k[:, 1] + 0.2) + 0.3 * np.cos(k[:, 2] + 0.1 * i)   # saddle
    return f


def bandmodel(kinds, offs):
    """sorted bands"""
    fl = [cosband(i, k) for i, k in enumerate(kinds)]

    def model(k):
        k = np.asarray(k)
        require(k.ndim == 2 and k.shape[1] == 3, "the model was called with the shape %s", k.shape)
        return np.sort(np.stack([f(k) + o for f, o in zip(fl, offs)], axis=-1), axis=-1)
    return model


MODELS = {
    "one": (("cos",), (0,)), "plane": (("plane",), (0,)), "sphere": (("sphere",), (0,)), "saddle": (("saddle",), (0,)),
    "two": (("cos", "cos"), (0, 0.9)), "gap": (("cos", "saddle", "cos"), (-8, 0, 8)), "mix": (("cos", "sphere", "plane", "saddle"), (-6, -1, 0.5, 6)),
    "many": (("saddle",) * 12, tuple(np.arange(12) * 0.05)), "lots": (("plane",) * 23, tuple(np.arange(23) * 0.011)),
}
ENERGIES = (-30.0, -1.1, 0.0137, 0.4, 5.03, 30.0)


def samples(m, N, rng, ef):
    g = grid(rng, N)
    return m(g.reshape(-1, 3)).reshape(N, N, N, -1) - ef


def crossing_bands(b):
    return [i for i in range(b.shape[-1]) if np.any(b[..., i] > 0) and np.any(b[..., i] < 0)]


def run_volumes(c):
    m = bandmodel(*MODELS[c["model"]])
    n = 0
    for ef in ENERGIES:
        for shape in [(1,), (7,), (3, 4), (2, 3, 4), (1, 5, 1), (2, 2, 2, 2)]:
            k = gen(3, shape + (3,)) * 0.5
            for arg in (k, k.tolist()):
                vols, idx = fs.fermi_surface(m, ef, arg)
                b = (m(k.reshape(-1, 3)) - ef).reshape(shape + (-1,))
                want = crossing_bands(b)
                require(list(idx) == want, "bands %s instead of %s", list(idx), want)
                require(len(vols) == len(want), "number of fields")
                for v, i in zip(vols, want):
                    close(v, b[..., i], "signed field of band %d" % i, 1e-12)
                n += 1
    return dict(n=n, nontrivial=True)


def run_export(c):
    m = bandmodel(*MODELS[c["model"]])
    N, rng = c["N"], c["range"]
    n = nb = 0
    for ef in ENERGIES:
        for name in ("fs", "sub/fs_1", "@abs"):
            if name != "fs" and ef != 0.0137:
                continue
            kw = {} if rng is None else dict(k_range=list(rng))
            r = rng or (-0.5, 0.5)
            b = samples(m, N, r, ef)
            want = crossing_bands(b)
            out, mats = export(m, ef, name, N=N, **kw)
            require(list(out) == ["Band%d" % i for i in want], "groups %s instead of the bands %s", list(out), want)
            for i in want:
                v, f, mat = out["Band%d" % i]
                w = "band %d at %s" % (i, ef)
                match(v, crossings(b[..., i]), 2e-4, w)
                mesh(v, f, b[..., i], w)
                n += 1
            nb = max(nb, len(want))
            if len(want) <= len(mats):
                require(len({out["Band%d" % i][2] for i in want}) == len(want), "bands share a material")
    return dict(n=n + 1, nontrivial=nb > 0, outcome=(c["model"], nb))


def sign_model(vals, rng):
    vals = np.asarray(vals, float)
    N = vals.shape[0]

    def model(k):
        i = np.round((np.asarray(k) - rng[0]) / (rng[1] - rng[0]) * (N - 1)).astype(int)
        return vals[tuple(i.T)][:, None]
    return model


def run_signs(c):
    """every sign pattern of the corners of a cell"""
    n = 0
    mag = 1 + np.abs(gen(8, (2, 2, 2)))
    hit = 0
    for low in range(32):
        pat = c["high"] * 32 + low
        s = np.array([1 if pat >> i & 1 else -1 for i in range(8)], float).reshape(2, 2, 2)
        for vol in ((s * mag), s):
            m = sign_model(vol, (-0.5, 0.5))
            out, _ = export(m, 0.0, N=2)
            crosses = 0 < pat < 255
            require(list(out) == (["Band0"] if crosses else []), "pattern %d: groups %s", pat, list(out))
            if crosses:
                v, f, _ = out["Band0"]
                match(v, crossings(vol), 2e-4, "pattern %d" % pat)
                mesh(v, f, vol, "pattern %d" % pat)
                hit += 1
            n += 1
    return dict(n=n, nontrivial=hit > 0)


def run_touch(c):
    """every pattern of negative, zero and positive corners: a valid mesh (a surface through samples)"""
    n = 0
    for rest in itertools.product((-1, 0, 1), repeat=4):
        s = np.array(tuple(c["head"]) + rest, float).reshape(2, 2, 2)
        m = sign_model(s, (-0.5, 0.5))
        out, _ = export(m, 0.0, N=2)
        crosses = np.any(s > 0) and np.any(s < 0)
        require(list(out) == (["Band0"] if crosses else []), "groups %s", list(out))
        if crosses:
            v, f, _ = out["Band0"]
            require(len(v) and len(f), "no surface")
            mesh(v, f, s, "pattern", strict=False)
            on = np.sum(np.abs(v - np.round(v)) > 4e-4, axis=1) <= 1
            W = crossings(s)
            Z = np.argwhere(s == 0).astype(float)
            W = np.concatenate([W, Z])
            d = np.min(np.max(np.abs(v[on][:, None] - W[None]), axis=-1), axis=1, initial=9)
            require(np.all(d < 2e-4), "vertex %s is not on the surface", v[on][np.argmax(d)])
        n += 1
    return dict(n=n, nontrivial=True)


def run_plot3(c):
    m = bandmodel(*MODELS[c["model"]])
    N, rng = c["N"], c["range"]
    r = np.array(rng or (-0.5, 0.5), float)
    n = tot = 0
    for ef in ENERGIES:
        b = samples(m, N, r, ef)
        want = crossing_bands(b)
        T, lim, col = plot3(m, ef, N, rng)
        for l in lim:
            close(np.array(l), r, "limits of the plot", 1e-9)
        require(len(T) == 0 or len(want) > 0, "triangles without a crossing band")
        require(np.all(np.isfinite(col)) and np.all(col >= 0) and np.all(col <= 1), "colours")
        if not want:
            continue
        # undo the enlargement
        cen = T.mean(axis=1, keepdims=True)
        V = (cen + (T - cen) / 1.03 - r[0]) / (r[1] - r[0]) * (N - 1)
        pts = V.reshape(-1, 3)
        W = [crossings(b[..., i]) for i in want]
        allW = np.concatenate(W)
        for i, w in zip(want, W):
            d = np.array([np.min(np.max(np.abs(pts - x), axis=-1)) for x in w])
            require(np.all(d < 1e-3), "the surface of band %d is not plotted (nothing at %s, in units of the sampling)", i, w[np.argmax(d)])
        on = np.sum(np.abs(pts - np.round(pts)) > 2e-3, axis=1) <= 1
        d = np.array([np.min(np.max(np.abs(allW - x), axis=-1)) for x in pts[on]])
        require(np.all(d < 1e-3), "the plotted point %s is not on the surface", pts[on][np.argmax(d)])
        require(np.all(np.ptp(V, axis=1) <= 1 + 1e-3), "a triangle connects different cells")
        n += len(want)
        tot += len(T)
    return dict(n=n + 1, nontrivial=tot > 0)


def run_show(c):
    """the ready made plot only draws that"""
    m = bandmodel(*MODELS[c["model"]])
    shown = []
    real = plt.show
    try:
        plt.show = lambda *a, **k: shown.append([triangles(ax) for f in plt.get_fignums() for ax in plt.figure(f).axes])
        fs.plot_3D_fermi_surface(m, c["ef"], N=6)
    finally:
        plt.show = real
        plt.close("all")
    require(len(shown) == 1 and len(shown[0]) == 1, "shown %s", shown)
    close(shown[0][0], plot3(m, c["ef"], 6)[0], "triangles", 1e-9)
    return dict(n=1, nontrivial=True)


def contours(ax):
    """[(colour, line style, points)]"""
    out = []
    for c in ax.collections:
        V = [p.vertices for p in c.get_paths()]
        col = tuple(np.round(np.asarray(c.get_edgecolor()).reshape(-1, 4)[0], 6))
        out.append((col, str(c.get_linestyle()), np.concatenate(V) if V else np.zeros((0, 2))))
    return out


def tb(n):
    m = BandStructureModel.init_tight_binding(Symmetry.none(3), np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)], float), n, cos_reduced=False, exp=True)
    m.params = np.array([herm(3, n) + np.diag(np.arange(n) * 1.0)] + [genc(4 + i, (n, n)) * 0.3 + np.eye(n) * 0.3 for i in range(4)])
    return m


def cut(model, ef, z, N, rng):
    x = axes_k(rng, N)
    k = np.stack(np.meshgrid(x, x, [z], indexing="ij"), axis=-1).reshape(-1, 3)
    b = model(k) - ef
    return b.reshape(N, N, -1)


def check2(got, vol, N, rng, what):
    W = crossings(vol)
    P = (got - rng[0]) / (rng[1] - rng[0]) * (N - 1)
    d = np.array([np.min(np.max(np.abs(P - w), axis=-1), initial=9) for w in W])
    require(np.all(d < 1e-6), "%s: the contour misses %s", what, W[np.argmax(d)] if len(W) else "")
    d = np.array([np.min(np.max(np.abs(W - p), axis=-1), initial=9) for p in P])
    require(np.all(d < 1e-6), "%s: the contour contains %s", what, P[np.argmax(d)] if len(P) else "")


def run_plot2(c):
    N, rng, zs = c["N"], c["range"], c["z"]
    r = np.array(rng or (-0.5, 0.5), float)
    ms = [bandmodel(*MODELS[x]) if isinstance(x, str) else tb(x) for x in c["models"]]
    kw = {} if rng is None else dict(k_range=list(rng))
    if zs is not None:
        kw["z"] = list(zs)
    n = lines = 0
    zl = [0, 0.5] if zs is None else zs
    for ef in ENERGIES + (0.2, 1.3):
        acc = c["acc"]
        arg = ms[0] if len(ms) == 1 and not c["list"] else (ms if c["list"] != "tuple" else tuple(ms))
        if acc and not hasattr(arg, "f"):
            raise Skip
        figs = []

        def show():
            figs.append(contours(plt.gca()))
            require(abs(plt.gca().get_xlim()[0] - r[0]) < 1e-9 and abs(plt.gca().get_ylim()[1] - r[1]) < 1e-9, "limits")
            plt.close("all")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fs.plot_2D_fermi_surface(arg, ef, N=N, show=show if c["show"] else None, accelerate=acc, **kw)
            if not c["show"]:
                figs.append(contours(plt.gca()))
        finally:
            plt.close("all")
        want = []
        for z in zl:
            w = []
            for mi, m in enumerate(ms):
                b = cut(m, ef, z, N, r)
                if acc:
                    b = np.prod(b, axis=-1)[..., None]
                w += [(mi, j, b[..., i]) for j, i in enumerate(crossing_bands(b))]
            want.append(w)
        if not c["show"]:
            want = [sum(want, [])]
        require(len(figs) == len(want), "%d plots are shown instead of %d", len(figs), len(want))
        for fig, w in zip(figs, want):
            require(len(fig) == len(w), "%d contours instead of %d crossing bands", len(fig), len(w))
            styles = {}
            for (col, ls, pts), (mi, j, vol) in zip(fig, w):
                check2(pts, vol, N, r, "model %d" % mi)
                if not acc:
                    require(col == tuple(np.round(matplotlib.colors.to_rgba("C%d" % j), 6)), "colour of the crossing band %d", j)
                styles.setdefault(mi, set()).add(ls)
                n += 1
                lines += len(pts) > 0
            for a, b in itertools.combinations(styles, 2):
                require((a - b) % 4 == 0 or not styles[a] & styles[b], "models share a line style")
    return dict(n=n + 1, nontrivial=lines > 0)


def subs(tier):
    th = tier == "thorough"
    RNG = [None, (-0.5, 0.5), (0.0, 1.0), (-0.25, 0.75)]
    NS = (2, 3, 5, 8) + ((13, 20) if th else ())
    vol = [dict(model=m) for m in MODELS]
    ex = [dict(model=m, N=N, range=r) for m in MODELS for N in NS for r in RNG if th or N < 8 or r != RNG[1]]
    p3 = [dict(model=m, N=N, range=r) for m in MODELS for N in NS[:4] for r in RNG if th or N < 8 or r is None]
    p2 = []
    for models, lst in [([m], False) for m in MODELS] + [(["one", "two"], "list"), (["one"], "list"), (["one", "two", "saddle", "plane", "gap"], "list"), (["mix", "one"], "tuple"), ([1], False), ([2], False), ([3], False), ([2, 3], "list")]:
        for N in (2, 3, 8) + ((20,) if th else ()):
            for r in RNG:
                for z in (None, [0.31], [0.0, -0.2, 0.45], []):
                    for show in (True, False):
                        for acc in (False, True):
                            if acc and not isinstance(models[0], int):
                                continue
                            if not th and (z == [] or r == RNG[1]) and N != 3:
                                continue
                            p2.append(dict(models=models, list=lst, N=N, range=r, z=z, show=show, acc=acc))
    return [
        Enum("crossing bands", lambda t: vol, run_volumes, "models x Fermi energies x sample shapes"),
        Enum("exported meshes", lambda t: ex, run_export, "models (1-23 bands) x samplings x ranges x Fermi energies x kinds of file names"),
        Enum("sign patterns", lambda t: [dict(high=h) for h in range(8)], run_signs, "all 256 sign patterns of a cell, two sets of magnitudes"),
        Enum("touching patterns", lambda t: [dict(head=list(h)) for h in itertools.product((-1, 0, 1), repeat=4)], run_touch, "all 6561 patterns of negative, zero and positive corners of a cell"),
        Enum("plotted surfaces", lambda t: p3, run_plot3, "models x samplings x ranges x Fermi energies"),
        Enum("shown plot", lambda t: [dict(model=m, ef=e) for m in MODELS for e in (0.0137, 30.0)], run_show, "models x Fermi energies"),
        Enum("plotted cuts", lambda t: p2, run_plot2, "lists of models x samplings x ranges x cut positions x show x accelerated, 8 Fermi energies each"),
    ]
