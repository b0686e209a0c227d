"""C18: every sequence of path segments against an independent list of way points; plots; symmetry point tables."""
import contextlib
import io
import itertools
import re
import numpy as np
from ..core import Enum, Skip, require
from ..util import gen, close
from tight_binding_redweasel import kpaths as K
from tight_binding_redweasel import qespresso_interface as qe

LEVEL = "model_checking"
ASSUMPTIONS = ["segments have at least one sample", "the unit of the text form for Quantum Espresso (a factor of the coordinates) is not specified"]

OWN = {"A": (np.array([0.3, 0.1]), "Ä"), "B": (np.array([-0.5, 0.25]), "$B_1$")}
OWN1 = {"A": (np.array([0.25]), "a"), "B": (np.array([-1]), "b")}
# (start argument, list of (position, label or None), dictionary)
P = {k: tuple(map(float, np.array(v[0]).reshape(-1))) for k, v in K.points.items()}
LAB = {k: v[1] for k, v in K.points.items()}
STARTS = [
    (lambda: "G", ["G"], None), (lambda: "X2", ["X2"], None), (lambda: "G2d", ["G2d"], None), (lambda: "X1d", ["X1d"], None), (lambda: "A", ["A"], OWN), (lambda: "B", ["B"], OWN1),
    (lambda: (0, 0, 0), [(0, 0, 0)], None), (lambda: [0.5, 0.25], [(0.5, 0.25)], None), (lambda: (0.5,), [(0.5,)], None), (lambda: np.array([1, 0, 0]), [(1, 0, 0)], None),
    (lambda: np.array([0.1, 0.2, 0.3]), [(0.1, 0.2, 0.3)], None), (lambda: (np.float64(0.5), np.int64(1)), [(0.5, 1)], None),
    (lambda: ["G", "X", "M"], ["G", "X", "M"], None), (lambda: ("G2d", "M2d"), ["G2d", "M2d"], None), (lambda: [(0, 0, 1), "L", np.array([1, 2, 3])], [(0, 0, 1), "L", (1, 2, 3)], None),
    (lambda: [[0, 0], [1, 0.5]], [(0, 0), (1, 0.5)], None), (lambda: [np.array([0.0, 0, 0]), "H"], [(0, 0, 0), "H"], None), (lambda: ["G"], ["G"], None), (lambda: ([0.1],), [(0.1,)], None),
    (lambda: ["A", "B", "A"], ["A", "B", "A"], OWN),
]
PT = {1: [(0.3,), (-1,), (0.0,)], 2: [(0.3, 0.1), (1, 0), (0.0, 0.0)], 3: [(0.3, 0.1, -0.2), (0, 0, 1), (0.0, 0.0, 0.0)]}
NAMES = {1: ["G1d", "X1d"], 2: ["M2d", "X12d"], 3: ["G", "U"]}


def ops(dim, dic):
    """(point argument, position, explicit label, N)"""
    o = []
    for i, p in enumerate(PT[dim]):
        o.append(([lambda p=p: p, lambda p=p: list(p), lambda p=p: np.array(p)][i], p, [None, "lab", None][i], [None, 1, 3][i]))
    n = ["A", "B"] if dic is not None else NAMES[dim]
    src = dic if dic is not None else K.points
    o.append((lambda: n[0], tuple(np.array(src[n[0]][0]).reshape(-1)), None, 2))
    o.append((lambda: n[1], tuple(np.array(src[n[1]][0]).reshape(-1)), "$x$", None))
    o.append((lambda: n[1], tuple(np.array(src[n[1]][0]).reshape(-1)), None, 5))
    return o


def pos(x, dic):
    return tuple(np.array((dic or K.points)[x][0], float).reshape(-1)) if isinstance(x, str) else x


def lab(x, dic, first):
    return (dic or K.points)[x][1] if isinstance(x, str) else None


def check_path(path, verts, labels, Ns):
    """verts: way points, labels: expected label or None, Ns: samples of each segment"""
    pts, idx = [np.array(verts[0], float)], [0]
    for a, b, N in zip(verts[:-1], verts[1:], Ns):
        pts += [np.array(a, float) + (np.array(b, float) - np.array(a, float)) * (j / N) for j in range(1, N + 1)]
        idx.append(len(pts) - 1)
    got = np.array(path, dtype=float)
    require(len(path) == len(pts), "%s points of the path instead of %s", len(path), len(pts))
    require(got.shape == (len(pts), len(verts[0])) and path.dim() == len(verts[0]), "shape %s", got.shape)
    close(got, np.array(pts), "points of the path", 1e-12)
    require(list(path.indices) == idx, "indices %s of the way points instead of %s", path.indices, idx)
    for i in (0, len(pts) - 1, -1, len(pts) // 2):
        close(np.array(path[i], float), pts[i], "indexing", 1e-12)
    close(np.array(list(iter(path)), float), np.array(pts), "iteration", 1e-12)
    require(len(path[1:]) == len(pts) - 1, "slice")
    x = [0.0]
    for a, b in zip(pts[:-1], pts[1:]):
        x.append(x[-1] + float(np.sum((b - a)**2))**0.5)
    close(np.array(path.x()), x, "plot coordinate", 1e-12, 1 + x[-1])
    require(np.all(np.diff(path.x()) >= 0), "plot coordinate decreases")
    close(np.array(path.sym_x(), float), np.array(x)[idx], "plot coordinates of the symmetry points", 1e-12, 1 + x[-1])
    names = path.sym_x_names()
    require(len(names) == len(idx) == len(path.sym_x()), "%s names for %s symmetry points", len(names), len(idx))
    for got_n, want, v in zip(names, labels, verts):
        if want is None:
            nums = [float(t) for t in re.findall(r"[-+]?[0-9.]+(?:e[-+]?[0-9]+)?", got_n)]
            require(len(nums) == len(v) and np.allclose(nums, v, atol=5e-4), "name %r of the point %s", got_n, v)
        else:
            require(got_n == want, "name %r instead of %r", got_n, want)
    if len(verts[0]) == 3:
        lines = str(path).strip().split("\n")
        require(lines[0].startswith("K_POINTS") and int(lines[1]) == len(pts) == len(lines) - 2, "header of the text form")
        v = np.array([[float(t) for t in l.split()] for l in lines[2:]])
        require(v.shape[1] == 4 and np.all(v[:, 3] == 1), "weights of the text form")
        s = np.sum(v[:, :3] * np.array(pts)) / max(np.sum(np.array(pts)**2), 1e-300)
        close(v[:, :3], s * np.array(pts), "points of the text form", 1e-9)
        require(s > 0.1 or not np.any(pts), "scale of the text form")
    return 8 + len(pts)


def run_path(c):
    st, verts0, dic = STARTS[c["start"]]
    verts = [pos(v, dic) for v in verts0]
    labels = [lab(v, dic, i == 0) for i, v in enumerate(verts0)]
    name = "first" if c["name"] else None
    if name:
        labels[0] = name
    before = {k: (np.array(v[0]), v[1]) for k, v in (dic or K.points).items()}
    arg = st()
    path = K.KPath(arg, name) if dic is None else K.KPath(arg, name, points=dic)
    Ns = [32] * (len(verts) - 1)
    menu = ops(len(verts[0]), dic)
    cnt = check_path(path, verts, labels, Ns)
    for j in c["seq"]:
        a, p, l, N = menu[j]
        arg2 = a()
        kw = {}
        if l is not None:
            kw["name"] = l
        if N is not None:
            kw["N"] = N
        r = path.to(arg2, **kw)
        require(r is path, "to does not return the path")
        verts.append(p)
        labels.append(l if l is not None else lab(arg2, dic, False))
        Ns.append(N or 32)
    cnt += check_path(path, verts, labels, Ns)
    for k, v in before.items():
        w = (dic or K.points)[k]
        require(np.array_equal(v[0], w[0]) and v[1] == w[1], "the dictionary of points was modified")
    require(len(before) == len(dic or K.points), "points were added to the dictionary")
    # points of another dimension are refused and do not change the path
    try:
        path.to((0.1,) * (len(verts[0]) % 3 + 1))
    except AssertionError:
        pass
    else:
        require(False, "a point of another dimension was accepted")
    return dict(n=cnt, nontrivial=len(verts) > 1)


DEFAULT = {"SC_PATH": "G X M G R X", "FCC_PATH": "G X2 W L G K", "BCC_PATH": "G H P G N P", "DIAMOND_PATH": "L G X2 U G K", "SC_PATH_2D": "G2d X2d M2d G2d", "PATH_1D": "G1d X1d"}


def parse_label(t):
    out = []
    for r in t.split(","):
        a, _, b = r.partition("-")
        out += list(range(int(a), int(b or a) + 1))
    return out


def run_plot(c):
    from matplotlib import pyplot as plt
    path = getattr(K, c["path"]) if isinstance(c["path"], str) else K.KPath(c["path"][0])
    if not isinstance(c["path"], str):
        for p in c["path"][1:]:
            path.to(p, N=4)
    d = path.dim()
    nb, kind = c["nb"], c["bands"]
    shift = np.arange(nb) * 0.7 if kind != "deg" else np.zeros(nb) + np.arange(nb) // 2 * 1.5
    f = lambda k: np.cos(2 * np.pi * np.asarray(k)).sum(-1)[:, None] * (1 if kind != "cross" else (-1.0)**np.arange(nb)) + shift
    calls = []

    def func(k):
        calls.append(np.array(k))
        return f(k)
    fig = plt.figure()
    try:
        ylim = c["ylim"]
        if c["comp"] is None:
            r = path.plot(func, band_offset=c["off"], label_bands=c["label"], ylim=ylim)
            want = [(f, nb)]
        else:
            g = lambda k: f(k)[:, c["comp"][0]:][:, :c["comp"][1]] + 0.01
            r = path.plot_comparison(func, g, label_bands=c["label"], ylim=ylim)
            want = [(f, nb), (g, min(c["comp"][1], nb - c["comp"][0]))]
        require(all(x.ndim == 2 and x.shape[1] == d for x in calls), "shape of the points given to the function")
        axs = fig.axes
        lines = [l for a in axs for l in a.get_lines()]
        vert = sorted(float(np.ravel(l.get_xdata())[0]) for l in lines if len(l.get_xdata()) == 2 and np.ptp(np.ravel(l.get_xdata())) == 0)
        data = [l for l in lines if len(l.get_xdata()) == len(path) and not (len(path) == 2 and np.ptp(np.ravel(l.get_xdata())) == 0)]
        x = np.array(path.x())
        require(len(data) == sum(w[1] for w in want), "%s lines in the plot", len(data))
        i = 0
        cols = []
        for w, n in want:
            b = w(np.array(path, float))
            for j in range(n):
                l = data[i]
                i += 1
                close(np.array(l.get_xdata(), float), x, "x of the line", 1e-12)
                close(np.array(l.get_ydata(), float), b[:, j], "y of the line", 1e-12)
                cols.append(l.get_color())
        if c["comp"] is None:
            cyc = plt.rcParams["axes.prop_cycle"].by_key()["color"]
            require(cols == [cyc[(j + c["off"]) % len(cyc)] for j in range(nb)], "colors with offset %s", c["off"])
        else:
            # bands of the reference have the colors of the bands they match
            n = want[1][1]
            require(cols[nb:] == cols[c["comp"][0]:c["comp"][0] + n], "colors %s of the reference, model %s", cols[nb:], cols[:nb])
        rep = len(want)
        close(np.array(sorted(vert)), np.array(sorted(list(path.sym_x()[1:-1]) * rep)), "vertical lines", 1e-12)
        ax = axs[0]
        bot = [a for a in axs if len(a.get_xticks()) == len(path.sym_x()) and [t.get_text() for t in a.get_xticklabels()] == list(path.sym_x_names())]
        require(bot, "no axis has the symmetry points as ticks")
        close(np.array(bot[0].get_xticks()), np.array(path.sym_x(), float), "ticks", 1e-12)
        close(np.array(bot[0].get_xlim()), [x[0], x[-1]], "limits of x", 1e-12)
        if c["label"]:
            require(isinstance(r, tuple) and len(r) == 2, "axes returned")
            b = want[-1][0](np.array(path, float))[-1 if c["label"] == "right" else 0]
            lim = r[0].get_ylim()
            if ylim is not None:
                close(np.array(lim), ylim, "limits of y", 1e-12)
            close(np.array(r[1].get_ylim()), np.array(lim), "limits of both axes", 1e-12)
            tick_ax = [a for a in axs if [t.get_text() for t in a.get_yticklabels()] and all(re.fullmatch(r"[0-9,\-]+", t.get_text()) for t in a.get_yticklabels()) and len(a.get_yticks()) == len(a.get_yticklabels())]
            ok = False
            for a in tick_ax:
                lab = [parse_label(t.get_text()) for t in a.get_yticklabels()]
                tk = a.get_yticks()
                if sorted(sum(lab, [])) == list(range(len(b))):
                    size = 8 * (lim[1] - lim[0]) / fig.get_figheight() * 0.15
                    ok = all(abs(tk[i] - b[j]) <= 0.051 * size + 1e-9 for i, l in enumerate(lab) for j in l)
            require(ok, "band labels %s at %s, bands %s", [[t.get_text() for t in a.get_yticklabels()] for a in tick_ax], [a.get_yticks() for a in tick_ax], b)
        elif ylim is not None:
            close(np.array(plt.gca().get_ylim()), ylim, "limits of y", 1e-12)
    finally:
        plt.close(fig)
    return dict(n=6 + len(data), nontrivial=True)


def run_default(c):
    path = getattr(K, c["name"])
    keys = DEFAULT[c["name"]].split()
    N = 100 if c["name"] == "PATH_1D" else 32
    return dict(n=check_path(path, [P[k] for k in keys], [LAB[k] for k in keys], [N] * (len(keys) - 1)), nontrivial=True)


G = np.array(list(itertools.product(range(-4, 5), repeat=3)))


def planes(A, k):
    """inside of the closed first zone, number of Bragg planes through k"""
    g = G @ np.linalg.inv(A)
    d = np.sum((k - g)**2, -1) - k @ k
    s = max(k @ k, 1e-3)
    return bool(d.min() > -1e-9 * s), int(np.sum(np.abs(d) < 1e-8 * s)) - 1


TABLE = {"hex": dict(G=0, A=1, M=1, K=2, L=3, H=5), "bct<": dict(G=0, X=1, N=1, M=3, P=3, Z=4, Z1=4),
         "bct>": dict(G=0, X=1, M=1, M2=1, Z=1, N=1, N0=1, N1=1, Sig=2, S0=2, S=2, Sig1=2, S2=2, R=3, Y=3, P=3, Y1=3, GG=3, G0=3),
         "tri<": dict(G=0, Z=1, L=1, L1=1, F=1, X=2, P=2, P1=2, P2=2, Q=2, B=3, B1=3), "tri>": dict(G=0, X=1, F=1, F1=1, L=1, Z=5, Q=3, Q1=3, P1=2, P=2),
         "fcc": dict(G=0, X2=1, L=1, K=2, U=2, W=3), "sc": dict(G=0, X=1, M=3, R=7), "bcc": dict(G=0, N=1, H=5, H1=5, P=3)}


def run_points(c):
    before = {k: (np.array(v[0]), v[1]) for k, v in K.points.items()}
    obj = K.points
    k, v = c["kind"], c["v"]
    if k == "hex":
        a, h = v
        A, pts = qe.hexagonal(a, h), K.hexagonal_points(1 / a, 1 / h)
    elif k.startswith("bct"):
        A, pts = qe.tetragonal_body_centered(1.0, v), K.tetragonal_bc_points(v)
    elif k.startswith("tri"):
        A, pts = qe.rhombohedral(1.0, v[0]), K.trigonal_points(v[0], mirror_x=v[1])
        if v[1]:
            A = A[[1, 0, 2]]
    else:
        A, pts = {"fcc": qe.fcc, "sc": qe.sc, "bcc": qe.bcc}[k](1.0), {n: K.points[n] for n in TABLE[k]}
    require(K.points is obj and set(before) == set(K.points) and all(np.array_equal(before[n][0], K.points[n][0]) for n in before), "the global dictionary of points was replaced or modified")
    require(set(pts) == set(TABLE[k]), "points %s", sorted(pts))
    for n, want in TABLE[k].items():
        inside, cnt = planes(A, np.array(pts[n][0], float))
        require(inside, "point %s=%s is outside of the first Brillouin zone", n, pts[n][0])
        require(cnt == want, "point %s=%s lies on %s instead of %s faces of the zone", n, pts[n][0], cnt, want)
        require(isinstance(pts[n][1], str) and len(pts[n][1]) > 0, "label of %s", n)
    # points which are zone faces: half of a reciprocal vector
    names = sorted(pts)
    path = K.KPath("G", points=pts).to(names[-1]).to(names[1])
    check_path(path, [np.array(pts[x][0], float) for x in ("G", names[-1], names[1])], [pts[x][1] for x in ("G", names[-1], names[1])], [32, 32])
    require(np.array_equal(K.tetragonal_bc_points(1)["X2"][0], [0, 1, 0]) and K.tetragonal_bc_points(1.0) is K.points, "cubic points of tetragonal_bc_points(1)")
    return dict(n=2 * len(pts), nontrivial=True, outcome=k)


def subs(tier):
    th = tier == "thorough"
    D = 4 if th else 3
    paths = [dict(start=i, name=n, seq=list(s)) for i in range(len(STARTS)) for d in range(D + 1) for s in itertools.product(range(6), repeat=d) for n in ((0, 1) if d < 2 else (0,))]
    plots = [dict(path=p, nb=nb, bands=b, off=o, label=l, ylim=y, comp=None) for p in ("PATH_1D", "SC_PATH_2D", "FCC_PATH", ["G", "X", "M"], [(0.1, 0.2), (0.5, 0)]) for nb, b in ((1, "ord"), (4, "ord"), (5, "deg"), (3, "cross")) for o in (0, 2)
             for l in (None, "", "left", "right") for y in (None, (-1.5, 4.0)) if th or (o == 0 or l != "left") and (nb != 3 or y is None)]
    plots += [dict(path=p, nb=nb, bands="ord", off=0, label=l, ylim=None, comp=cp) for p in ("SC_PATH_2D", ["G", "X"]) for nb, cp in ((3, (0, 3)), (4, (1, 2)), (4, (2, 2)), (5, (0, 3)), (2, (1, 1))) for l in (None, "left", "right")]
    cs = [0.4, 0.5, 0.7, 0.9, 0.99, 1.01, 1.1, 1.3, 1.6, 2.0, 3.0] if th else [0.5, 0.8, 0.99, 1.01, 1.3, 2.0]
    al = [a / 180 * np.pi for a in ([20, 30, 45, 60, 75, 85, 89, 91, 95, 100, 105, 109, 112, 115, 118] if th else [40, 60, 80, 89, 91, 100, 115])]
    pts = [dict(kind="hex", v=v) for v in ((1.0, 1.6), (1.0, 0.5), (2.0, 3.0), (0.7, 0.7))] + [dict(kind="bct<" if c < 1 else "bct>", v=c) for c in cs] + \
          [dict(kind="tri<" if a < np.pi / 2 else "tri>", v=[a, m]) for a in al for m in (False, True)] + [dict(kind=k, v=None) for k in ("fcc", "sc", "bcc")]
    return [
        Enum("paths", lambda t: paths, run_path, "every start form x every sequence of segments to the depth"),
        Enum("default paths", lambda t: [dict(name=n) for n in DEFAULT], run_default, "every default path"),
        Enum("plots", lambda t: plots, run_plot, "path x band set x options"),
        Enum("points", lambda t: pts, run_points, "every symmetry point table x lattice parameters: faces of the Brillouin zone each point lies on"),
    ]
