"""C05: saving and loading models: value patterns, save/load histories, failing paths, print options."""
import itertools
import json
import os
import shutil
import tempfile
import warnings
import numpy as np
from ..core import BFS, Enum, Violation, require
from ..util import gen, genc, herm, gen_k, close, shells
from .c03 import groups, reps
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel, HermitianFourierSeries
from tight_binding_redweasel.symmetry import Symmetry

LEVEL = "model_checking"
ASSUMPTIONS = ["the documented limits of the formats are the domain: JSON stores neither a coefficient symmetry nor an overlap matrix and rounds components below 1e-14 to 0, "
               "the python format loads into the cosine basis (compared up to rounding)", "hermitian coefficients for groups with inversion and non-exponential bases"]

TINY = 5e-324
VALUES = (0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, -2 / 3, np.pi, 1e-13, 1.0000000000000002, 1e-300, -1e300, 1.7976931348623157e308 / 64, TINY, 2.0**-1040, 123456789.123456789,
          9007199254740993.0, 1e-14, -0.99e-14, 0.30000000000000004, 1e16, 5e-15)

PRINT = {"default": {}, "rough": {"precision": 2, "suppress": True, "threshold": 3, "edgeitems": 1}, "legacy": {"legacy": "1.13", "linewidth": 20},
         "formatter": {"formatter": {"float_kind": lambda x: "F", "complex_kind": lambda x: "C"}}, "sign": {"sign": "+", "floatmode": "fixed", "precision": 3, "nanstr": "foo"}}


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c05_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def setopt(name):
    base = dict(edgeitems=3, threshold=1000, floatmode="maxprec", precision=8, suppress=False, linewidth=75, nanstr="nan", infstr="inf", sign="-", formatter=None, legacy=False)
    base.update(PRINT[name])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.set_printoptions(**base)


def round14(a):
    a = np.asarray(a, dtype=complex)
    return np.where(np.abs(a.real) < 1e-14, 0, a.real) + 1j * np.where(np.abs(a.imag) < 1e-14, 0, a.imag)


def parse_json(path):
    d = json.load(open(path))
    n = d["band_count"]
    H = []
    for p in d["params"]:
        require(p["dim"] == [n, n] and p["v"] == 1 and len(p["data"]) == n * n, "matrix header in the JSON file")
        H.append(np.array([complex(x, y) for x, y in p["data"]]).reshape(n, n))
    return np.array(d["neighbors"], dtype=float), np.array(H)


def parse_python(path):
    txt = open(path).read()
    require("..." not in txt, "file is abbreviated")
    H, nb, S, inv = eval(txt, {"array": lambda x, **kw: np.array(x, **kw), "__builtins__": {"True": True, "False": False}})
    return np.asarray(nb, float), np.asarray(H, complex), np.asarray(S, float), bool(inv)


def same(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, "%s: shape %s instead of %s", msg, a.shape, b.shape)
    if not np.all(a == b):
        i = np.unravel_index(int(np.argmax(a != b)), a.shape)
        raise Violation("%s: %r instead of %r at %s (not bit exact)" % (msg, a[i], b[i], tuple(int(x) for x in i)))


def lookup(nb, H):
    return {tuple(r): h for r, h in zip(np.asarray(nb, float).tolist(), H)}


def check_file(path, fmt, nb, H, S=None, inv=None):
    if fmt == "json":
        fnb, fH = parse_json(path)
        same(fnb, nb, "neighbours in the file")
        same(fH, round14(H), "coefficients in the file")
    else:
        fnb, fH, fS, fi = parse_python(path)
        same(fnb, nb, "neighbours in the file")
        same(fH, H, "coefficients in the file")
        same(fS, S, "symmetry operations in the file")
        require(fi == inv, "inversion flag in the file")


# ------------------------------------------------------------------ values
def vcases(tier):
    dims = (1, 2, 3)
    for dim in dims:
        for kind in ("asym", "bsm"):
            for fmt in ("json", "python"):
                if kind == "asym" and fmt == "python":
                    continue
                for n in (1, 2, 3):
                    for vi in range(len(VALUES)):
                        for part in ("real", "imag", "all"):
                            for opt in PRINT if tier == "thorough" or (n == 2 and part == "all") else ("default", "rough"):
                                yield {"dim": dim, "kind": kind, "fmt": fmt, "n": n, "v": vi, "part": part, "opt": opt}


def matrices(c, cnt):
    n, v = c["n"], VALUES[c["v"]]
    H = [herm(3 + i, n) if i == 0 else genc(3 + i, (n, n)) for i in range(cnt)]
    for i in range(1, cnt):
        if c["part"] == "all":
            for a in range(n):
                for b in range(n):
                    H[i][a, b] = complex(VALUES[(c["v"] + a + b * n + i) % len(VALUES)], -VALUES[(c["v"] + b) % len(VALUES)])
        elif c["part"] == "real":
            H[i][0, -1] = complex(v, H[i][0, -1].imag)
        else:
            H[i][-1, 0] = complex(0.0, v)
    if c["part"] != "all":
        H[0][0, 0] = v
    return np.array(H)


def build(c):
    dim = c["dim"]
    nb = np.array(shells(dim, 3 if dim == 1 else 5), float)
    # neighbours in non integer units, with ties in length and in an order that is not the sorted one
    nb[1:] = nb[1:][::-1] * 0.1
    H = matrices(c, len(nb))
    if c["kind"] == "asym":
        return AsymTightBindingModel(HermitianFourierSeries(nb, H.copy())), nb, H
    m = BandStructureModel.init_tight_binding(Symmetry.none(dim), nb, c["n"], cos_reduced=False, exp=True)
    m.set_params_complex(H.copy())
    return m, nb, H


def vrun(c):
    setopt(c["opt"])
    m, nb, H = build(c)
    opts = np.get_printoptions()
    with scratch() as d:
        ext = {"json": ".json", "python": ".repr"}[c["fmt"]]
        f = os.path.join(d, "m" + ext)
        m.save(f)
        require(np.get_printoptions() == opts, "print options changed by save")
        check_file(f, c["fmt"], nb, H, np.eye(c["dim"])[None], False)
        same(m.H.H_r if c["kind"] == "asym" else m.params, H, "saving changed the model")
        g = os.path.join(d, "noext")
        m.save(g, c["fmt"])
        require(open(f).read() == open(g).read(), "second save has another content")
        want = round14(H) if c["fmt"] == "json" else H
        n = 4
        # loaders
        for cls in ("asym", "bsm"):
            l = (AsymTightBindingModel if cls == "asym" else BandStructureModel).load(f)
            require(np.get_printoptions() == opts, "print options changed by load")
            lnb, lH = (l.H.neighbors, l.H.H_r) if cls == "asym" else (l.neighbors, l.params_complex())
            A, B = lookup(lnb, lH), lookup(nb, want)
            require(sorted(A) == sorted(B), "loaded neighbours differ")
            if cls == "asym" or c["fmt"] == "json":
                for r in B:
                    same(A[r], B[r], "loaded coefficients for " + str(r))
            else:
                for r in B:   # sine/cosine basis: linear combinations round (H(0) relative to the sum)
                    close(A[r], B[r], "loaded coefficients for %s" % (r,), tol=1e-13, scale=np.abs(B[r]).max() + (np.abs(want).max() * len(nb) if not any(r) else 0))
            ns = np.linalg.norm(lnb, axis=-1)
            require(not np.any(lnb[0]), "zero is not the first neighbour of the loaded model")
            if cls == "asym" and c["fmt"] == "json":   # save the loaded model
                h = os.path.join(d, "again.json")
                l.save(h)
                same(l.H.H_r, np.array([B[tuple(r)] for r in lnb.tolist()]), "saving a loaded model changed it")
                hnb, hH = parse_json(h)
                A = lookup(hnb, hH)
                for r in B:
                    same(A[r], B[r], "resaved coefficients for " + str(r))
                n += 1
        if np.abs(H).max() < 1e3:
            k = gen_k(c["dim"])
            l = BandStructureModel.load(f)
            m0 = AsymTightBindingModel(HermitianFourierSeries(nb, H))
            close(l.bands(k), m0.bands(k), "bands of the loaded model")
    return {"n": n, "nontrivial": True}


# ------------------------------------------------------------------ symmetric models
def scases(tier):
    for dim in (1, 2, 3):
        for sym in groups(dim):
            for cos in (False, True):
                for exp in (False, True):
                    for n in (1, 2, 3):
                        for opt in ("default", "rough", "sign") if n == 2 or tier == "thorough" else ("default",):
                            yield {"dim": dim, "sym": sym, "cos": cos, "exp": exp, "n": n, "opt": opt}


def srun(c):
    setopt(c["opt"])
    dim, n = c["dim"], c["n"]
    sym = groups(dim)[c["sym"]]
    nb = reps(sym, shells(dim, {1: 3, 2: 5, 3: 6}[dim]))
    m = BandStructureModel.init_tight_binding(sym, nb, n, cos_reduced=c["cos"], exp=c["exp"])
    H = np.array([herm(5 + i, n) if i == 0 or sym.inversion else genc(5 + i, (n, n)) for i in range(len(nb))])
    m.set_params_complex(H)
    pc = m.params_complex()
    p0 = m.params.copy()
    k = gen_k(dim)
    fk = m.f(k)
    with scratch() as d:
        f = os.path.join(d, "m.repr")
        m.save(f)
        check_file(f, "python", nb, pc, np.asarray(sym.S), sym.inversion)
        same(m.params, p0, "saving changed the model")
        l = BandStructureModel.load(f)
        same(l.neighbors, nb, "loaded neighbours")
        same(np.asarray(l.sym.S), np.asarray(sym.S), "loaded symmetry")
        require(l.sym.inversion == sym.inversion, "loaded inversion flag")
        close(l.f(k), fk, "loaded Hamiltonian")
        close(l.bands(k), m.bands(k), "loaded bands")
        # chain: save the loaded model (other basis) and load again
        g = os.path.join(d, "n.repr")
        l.save(g)
        l2 = BandStructureModel.load(g)
        close(l2.f(k), fk, "Hamiltonian after two round trips")
        if len(sym.S) == 1 and not sym.inversion:
            for cos, exp in itertools.product((False, True), repeat=2):
                j = os.path.join(d, "m.json")
                m.save(j)
                lj = BandStructureModel.load(j, cos_reduced=cos, exp=exp)
                require(lj.cos_reduced == cos and lj.exp == exp, "basis of the loaded model")
                close(lj.f(k), fk, "Hamiltonian loaded from JSON")
            close(AsymTightBindingModel.load(j).H.f(k), fk, "JSON as asymmetric model")
            close(AsymTightBindingModel.load(f).H.f(k), fk, "python format as asymmetric model")
    return {"n": 8}


# ------------------------------------------------------------------ histories
DIRS = []


class St:
    pass


def make(root):
    st = St()
    st.root = root
    st.dir = tempfile.mkdtemp(prefix="c05_")
    DIRS.append(st.dir)
    st.opt = "default"
    setopt("default")
    st.expect = np.get_printoptions()
    st.files = {}
    st.err = None
    c = {"dim": root["dim"], "kind": root["kind"], "n": 2, "v": 4, "part": "real"}
    st.m, st.nb, st.H = build(c)
    st.extra = 0
    return st


OPS = [["save", "json"], ["save", "python"], ["load", "json"], ["load", "python"], ["save_to", "missing"], ["save_to", "ext"], ["save_to", "format"], ["save_to", "wannier90"],
       ["load_from", "missing"], ["load_from", "ext"], ["load_from", "format"], ["load_from", "garbage"], ["scale"], ["print", "rough"], ["print", "formatter"], ["print", "sign"], ["save_nosym"], ["save_nonb"]]


def ops(root, st, tier):
    out = []
    for o in OPS:
        if root["kind"] == "asym" and (o in (["save", "python"], ["load", "python"]) or o[0].startswith("save_no")):
            continue
        if o[0] == "load" and o[1] not in st.files:
            continue
        if o == ["scale"] and st.extra >= 1:
            continue
        if o[0] == "print" and st.opt == o[1]:
            continue
        out.append(o)
    return out


EXT = {"json": "m.json", "python": "m.repr"}


def step(st, op):
    cls = type(st.m)

    def fails(fn):
        try:
            fn()
        except Exception:
            return
        raise Violation("%s: no error" % (op,))
    if op[0] == "save":
        st.m.save(os.path.join(st.dir, EXT[op[1]]))
        st.files[op[1]] = lookup(st.nb, st.H)
    elif op[0] == "load":
        H = st.files[op[1]]
        st.m = cls.load(os.path.join(st.dir, EXT[op[1]]))
        nb = st.m.neighbors if st.root["kind"] == "bsm" else st.m.H.neighbors
        require(sorted(map(tuple, nb.tolist())) == sorted(H), "neighbours of the loaded model")
        st.nb = np.array(nb)
        st.H = np.array([H[tuple(r)] for r in st.nb.tolist()])
    elif op[0] == "save_to":
        p, f = {"missing": (os.path.join(st.dir, "nodir", "m.json"), None), "ext": (os.path.join(st.dir, "m.xyz"), None),
                "format": (os.path.join(st.dir, "m2.json"), "hdf5"), "wannier90": (os.path.join(st.dir, "m_hr.dat"), None)}[op[1]]
        fails(lambda: st.m.save(p, f))
    elif op[0] == "load_from":
        g = os.path.join(st.dir, "garbage.json")
        with open(g, "w") as fl:
            fl.write('{"band_count": 2, "neighbors": [[0,0]], "params": [')
        p, f = {"missing": (os.path.join(st.dir, "nothing.json"), None), "ext": (os.path.join(st.dir, "m.xyz"), None),
                "format": (g, "hdf5"), "garbage": (g, None)}[op[1]]
        fails(lambda: cls.load(p, f))
    elif op[0] == "scale":
        st.m = st.m * 0.5
        st.H = st.H * 0.5
        st.extra += 1
    elif op[0] == "print":
        setopt(op[1])
        st.opt = op[1]
        st.expect = np.get_printoptions()
    elif op[0] == "save_nosym":
        m = st.m.copy()
        m.sym = None
        fails(lambda: m.save(os.path.join(st.dir, "x.repr")))
    elif op[0] == "save_nonb":
        m = BandStructureModel(st.m.f_i, st.m.df_i, st.m.params.copy())
        fails(lambda: m.save(os.path.join(st.dir, "x.json")))


def check(st):
    got = np.get_printoptions()
    require(got == st.expect, "print options are %s instead of %s", got, st.expect)
    pc = st.m.params_complex() if st.root["kind"] == "bsm" else st.m.H.H_r
    nb = st.m.neighbors if st.root["kind"] == "bsm" else st.m.H.neighbors
    close(pc, st.H, "coefficients of the model", tol=1e-13)
    same(nb, st.nb, "neighbours of the model")
    for fmt, B in st.files.items():
        p = os.path.join(st.dir, EXT[fmt])
        fnb, fH = parse_json(p) if fmt == "json" else parse_python(p)[:2]
        A = lookup(fnb, fH)
        require(sorted(A) == sorted(B), "neighbours in the file %s", fmt)
        for r in B:
            close(A[r], round14(B[r]), "coefficients in the %s file" % fmt, tol=1e-13)


class Hist(BFS):
    """removes the scratch directory of every replayed history"""

    def explore(self, root, tier, deadline, out):
        try:
            return BFS.explore(self, root, tier, deadline, out)
        finally:
            for d in DIRS:
                shutil.rmtree(d, ignore_errors=True)
            del DIRS[:]

    def _guard(self, fn, root, hist, out):
        try:
            return BFS._guard(self, fn, root, hist, out)
        finally:
            setopt("default")
            for d in list(DIRS):
                shutil.rmtree(d, ignore_errors=True)
                DIRS.remove(d)


def canon(st):
    return (st.opt, st.extra, tuple(map(tuple, st.nb.tolist())), tuple(np.round(st.H, 9).ravel()),
            tuple(sorted((k, tuple(sorted((r, tuple(np.round(h, 9).ravel())) for r, h in v.items()))) for k, v in st.files.items())), getattr(st.m, "exp", None))


def bcases(tier):
    # sizes around and beyond every abbreviation threshold of array printing
    for n, nbc in ((1, 40), (6, 30), (20, 3), (32, 40), (18, 310), (40, 63), (34, 90)):
        for opt in ("default", "rough"):
            yield {"n": n, "nb": nbc, "opt": opt}


def brun(c):
    setopt(c["opt"])
    n = c["n"]
    nb = np.array([[i, 0, 0] for i in range(c["nb"])], float)
    H = gen(3, (len(nb), n, n)) + 0j
    H[0] += H[0].T.conj()
    m = BandStructureModel.init_tight_binding(Symmetry.none(3), nb, n, cos_reduced=False, exp=True)
    m.set_params_complex(H)
    with scratch() as d:
        for ext, fmt in ((".repr", "python"), (".json", "json")):
            f = os.path.join(d, "m" + ext)
            m.save(f)
            check_file(f, fmt, nb, H, np.eye(3)[None], False)
            l = BandStructureModel.load(f)
            same(l.neighbors, nb, "neighbours")
            close(l.params_complex(), H, "coefficients", tol=1e-12)
    return {"n": 4}


# every order of the neighbour list, with equal and nearly equal lengths
LATT = {"chain": [(1.0,), (2.0,), (3.0,), (1 + 1e-9,)], "square": [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, -1.0), (0.0, 1 + 1e-12)],
        "hex": [(1.0, 0.0), (0.5, 0.75**0.5), (-0.5, 0.75**0.5), (0.0, 3**0.5), (1.5, 0.75**0.5)],
        "fcc": [(0.0, 0.1, 0.1), (0.1, 0.0, 0.1), (0.1, 0.1, 0.0), (0.2, 0.0, 0.0), (0.3, 0.1 + 0.2, 0.0)],
        "skew": [(0.7, 0.1, 0.0), (0.1 + 0.2, 0.3, 0.6), (0.3, 0.6, 0.1 + 0.2), (0.6, 0.3, 0.3), (5.0, 5.0, 5.0)]}


def ocases(tier):
    for lat, nb in LATT.items():
        for p in itertools.permutations(range(len(nb))):
            yield {"lat": lat, "perm": list(p)}


def orun(c):
    setopt("default")
    nb = np.array([[0.0] * len(LATT[c["lat"]][0])] + [LATT[c["lat"]][i] for i in c["perm"]])
    H = np.array([herm(3, 2)] + [genc(4 + i, (2, 2)) for i in c["perm"]])
    B = lookup(nb, H)
    n = 0
    a = AsymTightBindingModel(HermitianFourierSeries(nb, H.copy()))
    b = BandStructureModel.init_tight_binding(Symmetry.none(nb.shape[1]), nb, 2, cos_reduced=False, exp=True)
    b.set_params_complex(H.copy())
    with scratch() as d:
        for src, ext in ((a, ".json"), (b, ".json"), (b, ".repr")):
            f = os.path.join(d, "m" + ext)
            src.save(f)
            for cls in (AsymTightBindingModel, BandStructureModel):
                l = cls.load(f)
                lnb, lH = (l.H.neighbors, l.H.H_r) if cls is AsymTightBindingModel else (l.neighbors, l.params_complex())
                A = lookup(lnb, lH)
                require(sorted(A) == sorted(B), "loaded neighbours differ")
                for r in B:
                    close(A[r], B[r], "coefficients loaded for " + str(r), tol=1e-12)
                n += 1
    return {"n": n}


def subs(tier):
    return [Enum("neighbour orders", ocases, orun, "every order of five neighbour lists with equal and nearly equal lengths x class x format"),
            Enum("values", vcases, vrun, "every extreme value x component x model kind x format x print options"),
            Enum("symmetric models", scases, srun, "every group x basis x size: file content, loaded model, second round trip"),
            Enum("big models", bcases, brun, "sizes on both sides of the abbreviation thresholds"),
            Hist("save/load histories", lambda t: [{"kind": k, "dim": d} for k in ("asym", "bsm") for d in ((1, 2, 3) if t == "thorough" else (2, 3))], make, ops, step, check, canon,
                 lambda r, t: 6 if t == "thorough" else 4, "every save/load/print option/failing call sequence; file content and print options after each")]
