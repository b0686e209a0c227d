"""C27: plots of bands, crystals and optimisation logs: the drawn artists against the data"""
import contextlib
import io
import itertools
import os
import numpy as np
import matplotlib
from matplotlib import pyplot as plt
from mpl_toolkits.mplot3d import art3d
from ..core import Enum, BFS, require
from ..util import gen, herm, close
from .c20 import scratch, xml_file, XA, BOHR, HA, qe
from tight_binding_redweasel import bandstructure as bs
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.logger import OptimisationLogger

LEVEL = "exploration"
ASSUMPTIONS = ["basis positions are in the half open interval (-1, 2) (an integer below 0 or above 1 is not looked for by the plot of one cell)",
               "matplotlib draws the artists it is given"]
CYC = plt.rcParams["axes.prop_cycle"].by_key()["color"]


@contextlib.contextmanager
def figure():
    plt.close("all")
    try:
        yield plt.figure()
    finally:
        plt.close("all")


# ---------------------------------------------------------------- bands

def run_bands(c):
    nk, nb, dim, kind = c["nk"], c["nb"], c["dim"], c["kind"]
    k = np.linspace(-0.5, 0.7, nk)[:, None] * gen(3, (dim,)) if dim else np.linspace(-0.5, 0.7, nk)
    bands = gen(5, (nk, nb))
    if kind == "model":
        d = max(dim, 1)
        m = BandStructureModel.init_tight_binding(bs.Symmetry.none(d) if hasattr(bs, "Symmetry") else sym(d), [(0,) * d, (1,) * d], nb)
        for i in range(len(m.params)):
            m.params[i] = herm(10 + i, nb) if i == 0 else m.params[i]
        bands = np.asarray(m.bands(k if dim else k[:, None]))
    args, kw = {"plain": ((), {}), "fmt": (("--",), {}), "kw": ((), {"color": "k", "linewidth": 3})}[c["style"]]
    ks = k.tolist() if c["list"] else k
    with figure():
        for rep in range(c["calls"]):
            if kind == "bandstructure":
                bs.plot_bands_generic(ks, bands.tolist() if c["list"] else bands, *args, **kw)
            elif kind == "model":
                m.plot_bands(k if dim else k[:, None], *args, **kw)
            elif kind == "qe":
                qe.plot_bands_generic(bands.tolist() if c["list"] else bands, None, *args, **kw)
            else:
                qe.plot_bands_generic(bands, ks if dim == 0 else np.arange(nk) * 0.5, *args, **kw)
        require(len(plt.gcf().axes) == 1, "axes")
        lines = plt.gca().get_lines()
        require(len(lines) == nb * c["calls"], "%d lines for %d bands", len(lines), nb)
        if kind == "qe":
            x = np.arange(nk)
        elif kind == "qex":
            x = k if dim == 0 else np.arange(nk) * 0.5
        else:
            x = np.ravel(k) if dim < 2 else np.arange(nk)
        for j, l in enumerate(lines):
            close(np.asarray(l.get_xdata(), float).ravel(), np.asarray(x, float), "x values of band %d" % j, 1e-12)
            close(np.asarray(l.get_ydata(), float), bands[:, j % nb], "values of band %d" % j, 1e-9)
            require(matplotlib.colors.to_rgb(l.get_color()) == matplotlib.colors.to_rgb("k" if c["style"] == "kw" else CYC[j % nb % len(CYC)]), "colour of band %d in call %d", j % nb, j // nb)
            require(l.get_linestyle() == ("--" if c["style"] == "fmt" else "-") and (c["style"] != "kw" or l.get_linewidth() == 3), "style")
    return dict(n=2 * nb, nontrivial=nk > 1)


def sym(d):
    from tight_binding_redweasel.symmetry import Symmetry
    return Symmetry.none(d)


# ---------------------------------------------------------------- plot of bands.x

def run_qebands(c):
    nb, secs, fermi = c["nb"], c["sections"], 0.3
    x, symx, pos = [], [0.0], 0.0
    for i, n in enumerate(secs):
        s = pos + np.arange(n) * 0.25
        x += list(s)            # sections share their end point or jump
        pos = s[-1]
        symx.append(pos)
    x = np.array(x)
    b = np.round(gen(nb, (nb, len(x))) * 5, 4)
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3) * 3, [(0, 0, 0)], ["Cu"], 30.0)
        with open("foo.gnu", "w") as f:
            for j in range(nb):
                f.writelines("%10.4f%10.4f\n" % (a, e) for a, e in zip(x, b[j]))
                f.write("\n")
        with open("mat.bandx.out", "w") as f:
            f.writelines("     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate   %.4f\n" % s for s in symx)
            f.write("\n     Plottable bands (eV) written to file foo.gnu\n")
        open("qe-data/mat.xml", "w").write(xml_file(dict(A=np.eye(3) * 3 / BOHR, k=np.zeros((1, 3)), bands=np.zeros((1, 2)), sym=[], fermi=fermi)))
        with figure():
            r = cr.plot_bands()
            close(np.asarray(r, float), symx, "returned symmetry points", 1e-4)
            ax = plt.gca()
            seg = set()
            hor = []
            for l in ax.get_lines():
                xd, yd = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                if len(xd) == 2 and np.all(yd == yd[0]) and l.get_transform() != ax.transData:
                    hor.append(yd[0])
                    continue
                for a in range(len(xd) - 1):
                    if not np.any(np.isnan([xd[a], xd[a + 1], yd[a], yd[a + 1]])):
                        seg.add((round(xd[a], 3), round(yd[a], 3), round(xd[a + 1], 3), round(yd[a + 1], 3)))
            want = {(round(x[i], 3), round(b[j, i], 3), round(x[i + 1], 3), round(b[j, i + 1], 3)) for j in range(nb) for i in range(len(x) - 1) if x[i + 1] > x[i]}
            require(seg == want, "segments missing %s, too many %s", sorted(want - seg)[:4], sorted(seg - want)[:4])
            require(len(hor) == 1 and abs(hor[0] - fermi * HA) < 1e-6, "Fermi energy line at %s", hor)
            lim = (b.min(), b.max())
            close(np.array(ax.get_ylim()), lim, "energy limits", 1e-9)
            close(np.array(ax.get_xlim()), [x[0], x[-1]], "limits", 1e-9)
            vl = [p for col in ax.collections for p in col.get_segments()]
            close(np.array(sorted(p[0, 0] for p in vl)), np.array(sorted(symx)), "vertical lines", 1e-4)
            require(all(p[0, 0] == p[1, 0] for p in vl), "vertical lines")
            require("mat" in ax.get_title(), "title")
    return dict(n=4 + len(want), nontrivial=len(want) > 1)


def run_wannier(c):
    n, nb = c["n"], c["nb"]
    x, b = np.arange(n) * 0.5, np.round(gen(3, (nb, n)), 4)
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3) * 3, [(0, 0, 0)], ["Cu"], 30.0)
        with open("mat_band.dat", "w") as f:
            for j in range(nb):
                f.writelines("%14.8f %14.8f\n" % (a, e) for a, e in zip(x, b[j]))
                f.write("\n")
        with figure():
            cr.plot_wannier_bands()
            ls = plt.gca().get_lines()
            pts = {(round(float(a), 4), round(float(e), 4)) for l in ls for a, e in zip(np.ravel(l.get_xdata()), np.ravel(l.get_ydata()))}
            require(all(l.get_linestyle() in ("None", "none", "") for l in ls), "different bands are joined")
    want = {(round(float(a), 4), round(float(e), 4)) for j in range(nb) for a, e in zip(x, b[j])}
    require(pts == want, "points of the bands")
    return dict(n=len(want), nontrivial=True)


# ---------------------------------------------------------------- crystals

BASES = {"one": ([(0, 0, 0)], ["Cu"]), "two": ([(0, 0, 0), (.25, .25, .25)], ["Ga", "As"]), "mix": ([(0.5, 0, 0.25), (0, 0, 0), (1 / 3, 2 / 3, 0.5)], ["C", "H", "C"]),
         "out": ([(-0.25, 1.5, 0.5), (0.125, -0.5, 1.0)], ["Fe", "O"]), "same": ([(0, 0, 0), (0.5, 0.5, 0.5)], ["Na", "Na"]), "up": ([(1, 1, 1), (0.75, 0.5, 1)], ["Zn", "Cu"])}


def key(p):
    return tuple((np.round(np.asarray(p, float), 4) + 0.0).tolist())


def run_crystal(c):
    A = np.asarray(XA[c["lat"]], float)
    basis, types = BASES[c["basis"]]
    cr = qe.QECrystal("mat", A.copy(), basis, types, 30.0, unit=c["unit"])
    with figure():
        plt.close("all")
        kw = {} if c["repeat"] is None else {"repeat": c["repeat"]}
        if c["view"]:
            kw.update(turntable=70, elevation=-10)
        cr.plot_crystal(**kw)
        ax = plt.gcf().axes[0]
        rep = c["repeat"] or 1
        R = range(-1, 2) if rep == 1 else range(-((rep - 1) // 2), rep - (rep - 1) // 2)
        want, poles = {}, set()
        for b, t in zip(basis, types):
            for n in itertools.product(R, repeat=3):
                f = np.asarray(b, float) + n
                if rep == 1 and (np.any(f < 0) or np.any(f > 1)):
                    continue
                want.setdefault(t, set()).add(key(A @ f))
        for s in want.values():
            poles |= {p for p in s}
        atoms, large, dotted, edges, axes, labels, cols = {}, {}, set(), set(), [], {}, {}
        for l in ax.get_lines():
            x = np.array(l.get_data_3d(), float).T
            if l.get_marker() == "o":
                col = l.get_color()
                d = large if l.get_markersize() > 9 else atoms
                d.setdefault(col, set()).update(key(p) for p in x)
                if d is atoms:
                    labels[col] = l.get_label()
            elif l.get_linestyle() == ":":
                for a, b in zip(x[:-1], x[1:]):
                    if np.all(np.isfinite([a, b])):
                        require(abs(a[2] * b[2]) < 1e-12 and np.allclose(a[:2], b[:2]), "depth line")
                        dotted.add(key(b if abs(b[2]) > abs(a[2]) else a))
            elif l.get_linestyle() == "-":
                for a, b in zip(x[:-1], x[1:]):
                    if np.all(np.isfinite([a, b])):
                        edges.add(frozenset((key(a), key(b))))
            elif l.get_linestyle() == "--":
                axes.append(x)
        got = {labels[k]: v for k, v in atoms.items()}
        require(len(set(labels.values())) == len(labels), "one colour per type")
        for t in set(types):
            require(got.get(t, set()) == want.get(t, set()), "atoms of %s: missing %s, too many %s", t, sorted(want.get(t, set()) - got.get(t, set()))[:3], sorted(got.get(t, set()) - want.get(t, set()))[:3])
        for col, t in labels.items():
            require(large.get(col) == {key(A @ np.asarray(b, float)) for b, u in zip(basis, types) if u == t}, "marked atoms of %s", t)
        require(set(got) == set(types), "types %s", set(got))
        require(dotted == poles, "depth lines")
        corners = list(itertools.product((0, 1), repeat=3))
        want_e = {frozenset((key(A @ np.array(a)), key(A @ np.array(b)))) for a in corners for b in corners if sum(abs(x - y) for x, y in zip(a, b)) == 1}
        require(edges == want_e, "edges of the cell: %d missing, %d too many", len(want_e - edges), len(edges - want_e))
        txt = {t.get_text(): t for t in ax.texts}
        for i in range(3):
            p = txt["$a_%d$" % (i + 1)].get_position_3d()
            close(np.array(p, float), A[:, i], "label of lattice vector %d" % (i + 1), 1e-9)
        allp = np.array([p for s in want.values() for p in s] + [(0.0, 0.0, 0.0)])
        require(len(axes) == 3, "axes")
        for i, x in enumerate(axes):
            close(x[:, i], [allp[:, i].min(), allp[:, i].max()], "axis %d" % i, 1e-3)
            require(np.all(np.delete(x, i, axis=1) == 0), "axis %d", i)
        u = {"angstrom": ("\u00c5", "\u212b", "ngstrom"), "bohr": ("bohr",)}[c["unit"]]
        require(all(any(v in s for v in u) and i in s for i, s in zip("xyz", (ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()))), "labels of the axes")
        cube = (A @ np.array(corners).T)
        for i, lim in enumerate((ax.get_xlim(), ax.get_ylim())):
            lo, hi = (cube[i].min(), cube[i].max()) if rep == 1 else (allp[:, i].min(), allp[:, i].max())
            close(sorted(lim), [lo, hi], "limits", 1e-3) if rep == 1 and hi > lo else None
        require((ax.azim, ax.elev) == ((70, -10) if c["view"] else (14, 35)), "view")
    require(np.array_equal(np.asarray(cr.A), A), "lattice modified")
    close(np.asarray(cr.basis), np.array(basis), "basis modified")
    return dict(n=len(poles) + len(edges) + 8, nontrivial=len(poles) > 1)


# ---------------------------------------------------------------- optimisation log

def lmake(root):
    return {"log": OptimisationLogger(*root), "it": [], "loss": [], "stream": [], "aborted": False, "count": False}


def lops(root, st, tier):
    return [["data", i, l] for i, l in ((0, 1.5), (10, 0.25), (7, 1e-9))] + [["data3", 20, 0.5], ["msg"], ["count"], ["abort"], ["plot"]]


def lstep(st, op):
    log = st["log"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if op[0].startswith("data"):
            log.add_data(op[1], op[2], np.array([op[2]] if op[0] == "data" else [0.01, 0.5, 0.2]))
            st["it"].append(op[1] if not st["count"] else (st["it"][-1] if st["it"] else -1) + 1)
            st["loss"].append(op[2])
            st["stream"].append("d")
        elif op[0] == "msg":
            log.add_message("hello")
            st["stream"].append("hello")
        elif op[0] == "count":
            log.count = True
            st["count"] = True
        elif op[0] == "abort":
            try:
                log.abort()
                require(not st["aborted"], "aborted twice")
                st["aborted"] = True
                st["stream"].append("aborted")
            except ValueError:
                require(st["aborted"], "refused to abort")
        elif st["it"]:
            with figure():
                log.plot_loss("--")
                l, = plt.gca().get_lines()
                close(np.asarray(l.get_xdata(), float), np.array(st["it"], float), "iterations")
                close(np.asarray(l.get_ydata(), float), np.array(st["loss"], float), "loss")
                require(plt.gca().get_yscale() == "log" and l.get_linestyle() == "--", "scale and style")
                if st["it"][0] != st["it"][-1]:
                    close(np.array(plt.gca().get_xlim()), [st["it"][0], st["it"][-1]], "limits")
    txt = out.getvalue()
    v = st["root"] if "root" in st else None
    if op[0].startswith("data"):
        require(bool(txt.strip()) == bool(log.print_loss), "printed %r", txt)
        if log.print_loss:
            require("%3d" % op[1] in txt and "%.2e" % op[2] in txt, "printed %r", txt)
            bars = txt[txt.index("[") + 1:txt.index("]")]
            want = {"data": "\u2588", "data3": None}[op[0]]
            if want:
                require(bars == want, "error bars %r", bars)
            else:
                # relative errors 0.02, 1, 0.4: empty, full, in between (monotonic)
                require(len(bars) == 3 and bars[0] == " " and bars[1] == "\u2588" and 0x2581 < ord(bars[2]) < 0x2588, "error bars %r", bars)
    if op[0] == "msg":
        require(("hello" in txt) == bool(log.verbose), "printed %r", txt)
    return st


def lcheck(st):
    log = st["log"]
    require(list(log.iterations) == st["it"] and list(log.loss) == st["loss"], "recorded %s %s instead of %s %s", log.iterations, log.loss, st["it"], st["loss"])
    require(log.iteration_count() == (st["it"][-1] if st["it"] else -1), "iteration count")
    require(log.aborted == st["aborted"], "aborted")
    require(["d" if isinstance(s, tuple) else s for s in log.stream] == st["stream"], "stream %s", log.stream)
    if st["loss"]:
        require(log.last_loss() == st["loss"][-1], "last loss")


def lcanon(st):
    return (st["log"].verbose, st["log"].print_loss, st["log"].update_line, tuple(st["it"]), tuple(st["loss"]), tuple(st["stream"]), st["aborted"], st["count"])


def subs(tier):
    th = tier == "thorough"
    bands = [dict(nk=nk, nb=nb, dim=d, kind=kind, style=s, list=l, calls=n) for nk in (1, 2, 5) for nb in (1, 2, 12) for d in (0, 1, 2, 3) for kind in ("bandstructure", "model", "qe", "qex")
             for s in ("plain", "fmt", "kw") for l in (0, 1) for n in (1, 2) if not (kind == "model" and l)]
    qb = [dict(nb=nb, sections=list(s)) for nb in (1, 2, 5) for d in (1, 2, 3) for s in itertools.product((2, 3, 5), repeat=d)]
    cry = [dict(lat=l, basis=b, repeat=r, unit=u, view=v) for l in XA for b in BASES for r in (None, 1, 2, 3, 4) for u in ("angstrom", "bohr") for v in (0, 1) if th or r != 4 and not (v and u == "bohr")]
    return [Enum("band lines", lambda t: bands, run_bands, "sampling x bands x dimension x function x style x repeated calls"),
            Enum("bands.x plot", lambda t: qb, run_qebands, "bands x sections"),
            Enum("wannier plot", lambda t: [dict(n=n, nb=nb) for n in (2, 3, 7) for nb in (1, 2, 4)], run_wannier, "points x bands"),
            Enum("crystals", lambda t: cry, run_crystal, "lattice x basis x repetition x unit x view"),
            BFS("log", lambda t: [[a, b, c] for a in (True, False) for b in (True, False) for c in (True, False)], lmake, lops, lstep, lcheck, lcanon, lambda r, t: 4 if th else 3, "every history of log entries, messages, counting, aborts and plots")]
