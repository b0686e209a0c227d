"""C20: lattice constructors, densities, written input files and every reader of calculation output against independently generated files."""
import contextlib
import io
import itertools
import os
import shutil
import struct
import tempfile
import numpy as np
from . import c06
from ..core import Enum, Skip, require
from ..util import gen, genc, close
from tight_binding_redweasel import qespresso_interface as qe
from tight_binding_redweasel import Symmetry, kpaths

LEVEL = "exploration"
ASSUMPTIONS = ["file formats as Quantum Espresso 7 writes them (XML schema qes, projwfc 7.3.1 text, fortran records of wfc and charge-density files), one spin channel per k point in XML files; with smearing (a Fermi-energy is stated)",
               "k points are compared modulo reciprocal lattice vectors",
               "atomic masses are the standard atomic weights up to 0.1 % (the electron mass is handled inconsistently in the code, below that)"]

BOHR = 0.529177210903
HA = 27.211386245988
MASS = {"H": 1.008, "C": 12.011, "Si": 28.085, "Cu": 63.546, "Ga": 69.723, "As": 74.9216, "Po": 208.98, "U": 238.0289, "O": 15.999, "Na": 22.98977, "Cl": 35.45, "Fe": 55.845}
U = 1.66053906660e-27


@contextlib.contextmanager
def scratch():
    """own working directory, no external program is ever started"""
    d = tempfile.mkdtemp(prefix="c20_")
    old = os.getcwd()
    calls = []

    class Res:
        stdout = b""
        stderr = b""
        returncode = 0

    def system(cmd):
        calls.append(cmd)
        return 0

    def run(cmd, *a, **kw):
        calls.append(cmd)
        return Res()

    saved = qe.os.system, qe.subprocess.run, qe.subprocess.Popen, qe.pp_files
    qe.os.system, qe.subprocess.run = system, run
    qe.subprocess.Popen = None
    qe.pp_files = {}
    try:
        os.chdir(d)
        os.mkdir("qe-data")
        with contextlib.redirect_stdout(io.StringIO()):
            yield calls
    finally:
        qe.os.system, qe.subprocess.run, qe.subprocess.Popen, qe.pp_files = saved
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- lattices

def conv_mono(a, b, c, be):
    return np.array([[a, 0, 0], [0, b, 0], [c * np.cos(be), 0, c * np.sin(be)]]).T


CENTRING = {"P": [], "C": [(.5, .5, 0)], "I": [(.5, .5, .5)], "F": [(0, .5, .5), (.5, 0, .5), (.5, .5, 0)]}
LATS = {
    "sc": (("a",), "P"), "fcc": (("a",), "F"), "bcc": (("a",), "I"),
    "orthorhombic": (("a", "b", "c"), "P"), "orthorhombic_base_centered": (("a", "b", "c"), "C"), "orthorhombic_body_centered": (("a", "b", "c"), "I"), "orthorhombic_face_centered": (("a", "b", "c"), "F"),
    "tetragonal": (("a", "c"), "P"), "tetragonal_body_centered": (("a", "c"), "I"),
    "monoclinic": (("a", "b", "c", "beta"), "P"), "monoclinic_base_centered": (("a", "b", "c", "beta"), "C"),
}
LEN = {"a": (0.5, 1.0, 3.61), "b": (1.0, 4.2), "c": (0.7, 1.0, 6.0), "beta": (0.9, np.pi / 2, 2.1)}


def lat_cases(t):
    out = []
    for n, (args, _) in LATS.items():
        for v in itertools.product(*[LEN[a] for a in args]):
            out.append(dict(lat=n, args=list(v)))
    for a, c in itertools.product(LEN["a"], LEN["c"]):
        out.append(dict(lat="hexagonal", args=[a, c]))
    angles = (0.6, 1.0, np.pi / 2, 1.9) if t == "quick" else (0.3, 0.6, 1.0, 1.3, np.pi / 2, 1.9, 2.5)
    for a, al in itertools.product(LEN["a"], (0.01, 0.3, 1.0, np.pi / 3, np.pi / 2, 1.9, 2.09)):
        out.append(dict(lat="rhombohedral", args=[a, al]))
    for a, b, c, al, be, ga in itertools.product((1.0, 3.6), (1.0, 0.5), (1.0, 2.2), angles, angles, angles):
        out.append(dict(lat="triclinic", args=[a, b, c, al, be, ga]))
    # invalid parameters
    for n, (args, _) in LATS.items():
        if n in ("sc", "fcc", "bcc"):
            continue
        for i, x in enumerate(args):
            for bad in ((0.0, -1.0) if x != "beta" else (0.0, -0.5, np.pi, 3.5)):
                v = [LEN[y][0] for y in args]
                v[i] = bad
                out.append(dict(lat=n, args=v, bad=1))
    for v in ([0, 1.0], [-1, 1.0], [1.0, 0], [1.0, -0.1], [1.0, 2 * np.pi / 3 + 1e-3], [1.0, 3]):
        out.append(dict(lat="rhombohedral", args=v, bad=1))
    for v in ([0, 1, 1, 1, 1, 1], [1, -1, 1, 1, 1, 1], [1, 1, 0, 1, 1, 1], [1, 1, 1, 0, 1, 1], [1, 1, 1, 1, np.pi, 1], [1, 1, 1, 1, 1, -1], [1, 1, 1, 2.2, 2.1, 2.0], [1, 1, 1, 2, 0.5, 0.5], [1, 1, 1, 0.5, 2, 0.5], [1, 1, 1, 0.5, 0.5, 2]):
        out.append(dict(lat="triclinic", args=v, bad=1))
    return out


def ang(x, y):
    return np.arccos(np.clip(x @ y / np.linalg.norm(x) / np.linalg.norm(y), -1, 1))


def valid_angles(al, be, ga):
    return al + be + ga < 2 * np.pi and al < be + ga and be < al + ga and ga < al + be


def run_lat(c):
    n, v = c["lat"], c["args"]
    f = getattr(qe, n)
    if c.get("bad") or (n == "triclinic" and not valid_angles(*v[3:])):
        try:
            r = f(*v)
        except AssertionError:
            return dict(n=1, nontrivial=True, outcome="rejected")
        require(False, "invalid parameters gave %s", r)
    A = np.asarray(f(*v))
    require(A.shape == (3, 3), "shape")
    L = np.linalg.norm(A, axis=0)
    if n == "triclinic":
        close(L, v[:3], "lengths", 1e-9)
        close([ang(A[:, 1], A[:, 2]), ang(A[:, 0], A[:, 2]), ang(A[:, 0], A[:, 1])], v[3:], "angles", 1e-7)
    elif n == "rhombohedral":
        close(L, [v[0]] * 3, "lengths", 1e-9)
        close([ang(A[:, 1], A[:, 2]), ang(A[:, 0], A[:, 2]), ang(A[:, 0], A[:, 1])], [v[1]] * 3, "angles", 1e-7)
        s = A.sum(axis=1)
        close(s[:2], [0, 0], "threefold axis along z", 1e-9)
        require(abs(np.linalg.det(A)) > 0, "volume")
    elif n == "hexagonal":
        close(L, [v[0], v[0], v[1]], "lengths", 1e-9)
        close([ang(A[:, 1], A[:, 2]), ang(A[:, 0], A[:, 2]), ang(A[:, 0], A[:, 1])], [np.pi / 2, np.pi / 2, 2 * np.pi / 3], "angles", 1e-9)
    else:
        cen = CENTRING[LATS[n][1]]
        p = dict(zip(LATS[n][0], v))
        conv = conv_mono(p["a"], p.get("b", p["a"]), p.get("c", p["a"]), p.get("beta", np.pi / 2))
        pts = np.concatenate([conv.T, (conv @ np.array(cen).T).T if cen else np.zeros((0, 3))]).T
        x = np.linalg.solve(A, pts)
        close(x, np.round(x), "lattice points of the centred cell", 1e-9)
        close(abs(np.linalg.det(A)), abs(np.linalg.det(conv)) / (1 + len(cen)), "volume", 1e-9)
    return dict(n=9, nontrivial=True, outcome="ok")


# ---------------------------------------------------------------- density

def crystals():
    out = {}
    for u in ("angstrom", "bohr"):
        out["cu", u] = (qe.fcc(3.61), [(0, 0, 0)], ["Cu"])
        out["gaas", u] = (qe.fcc(5.65), [(0, 0, 0), (.25, .25, .25)], ["Ga", "As"])
        out["left", u] = (qe.hexagonal(2.46, 6.7) @ np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1]]), [(1 / 3, 2 / 3, .25), (0, 0, .25), (0.5, 0.5, 0.5)], ["C", "C", "H"])
        out["int", u] = (np.array([[4, 0, 0], [0, 4, 1], [0, 0, 5]]), [(0, 0, 0), (.5, .5, .5), (.5, 0, 0.1)], ["Na", "Cl", "Na"])
        out["tri", u] = (qe.triclinic(3.0, 4.0, 5.0, 1.2, 1.4, 1.7), [(0.1, 0.2, 0.3), (0.9, 0.75, -0.5)], ["U", "O"])
        out["list", u] = ([[3.0, 0.5, 0], [0, 4.0, 0.25], [0.125, 0, 5.0]], [[0, 0, 0]], ["Fe"])
    return out


def run_density(c):
    A, basis, types = crystals()[c["crystal"], c["unit"]]
    A0 = np.array(A, dtype=float)
    cr = qe.QECrystal("x", A, basis, types, 40.0, unit=c["unit"])
    si = {"angstrom": 1e-10, "bohr": BOHR * 1e-10}[c["unit"]]
    m = sum(MASS[t] for t in types) * U
    V = abs(np.linalg.det(A0)) * si**3
    close(cr.lattice_vectors_in_m() * 1e10, A0 * si * 1e10, "lattice vectors in m", 1e-8)
    require(abs(cr.mass_density() / (m / V) - 1) < 3e-4, "mass density %s instead of %s", cr.mass_density(), m / V)
    other = qe.QECrystal("y", A, basis, types, 40.0, unit=c["unit"])
    before = cr.mass_density()
    for i, rho in enumerate(c["scale"]):
        cr.scale_to_density(rho)
        require(abs(cr.mass_density() / rho - 1) < 1e-9, "density %s after scaling to %s", cr.mass_density(), rho)
        s = (before / rho)**(1 / 3)
        close(np.asarray(cr.A), A0 * s, "shape of the scaled lattice", 1e-9)
        require(np.array_equal(np.asarray(A, dtype=float), A0), "the lattice vectors of the caller were modified")
        require(abs(other.mass_density() / before - 1) < 1e-12, "the density of another crystal changed")
        close(np.asarray(cr.basis), np.array(basis), "basis", 1e-12)
    return dict(n=2 + 4 * len(c["scale"]), nontrivial=True)


# ---------------------------------------------------------------- written input

def parse_input(text):
    """small independent parser of pw.x input: namelists and cards"""
    nml, cards, cur, card = {}, {}, None, None
    for line in text.splitlines():
        s = line.strip()
        if not s:
            continue
        if s.startswith("&"):
            cur = s[1:].lower()
            nml[cur] = {}
            continue
        if s == "/":
            cur = None
            continue
        if cur is not None:
            s = s.split("!")[0]
            for part in s.split(","):
                if "=" in part:
                    k, v = part.split("=")
                    nml[cur][k.strip().lower()] = v.strip().strip("'\"")
            continue
        w = s.split()
        if w[0] in ("CELL_PARAMETERS", "ATOMIC_SPECIES", "ATOMIC_POSITIONS", "K_POINTS"):
            card = w[0]
            require(card not in cards, "card %s written twice", card)
            cards[card] = (" ".join(w[1:]).strip("{}() "), [])
        else:
            cards[card][1].append(w)
    return nml, cards


BOOL = {".true.": True, "true": True, ".false.": False, "false": False}


def check_crystal(cards, nml, cr, A0, basis, types):
    unit, rows = cards["CELL_PARAMETERS"]
    require(unit == cr.unit, "unit of the cell")
    close(np.array(rows, dtype=float), A0.T, "lattice vectors in the rows", 1e-9)
    sp = {w[0]: w for w in cards["ATOMIC_SPECIES"][1]}
    require(sorted(sp) == sorted(set(types)) and len(cards["ATOMIC_SPECIES"][1]) == len(set(types)), "species %s", sorted(sp))
    for t in sp:
        require(abs(float(sp[t][1]) / MASS[t] - 1) < 1e-3, "mass")
        require(sp[t][2] == PP[t], "pseudo potential")
    kind, rows = cards["ATOMIC_POSITIONS"]
    require(kind == "crystal", "positions in crystal coordinates")
    require([w[0] for w in rows] == list(types), "types of the positions")
    close(np.array([w[1:] for w in rows], dtype=float), np.array(basis, dtype=float), "positions", 1e-12)
    require(int(nml["system"]["nat"]) == len(types) and int(nml["system"]["ntyp"]) == len(set(types)) and int(nml["system"]["ibrav"]) == 0, "counts")
    require(float(nml["system"]["ecutwfc"]) == cr.kinetic_energy_cutoff, "cutoff")
    require(nml["control"]["prefix"] == cr.name, "prefix")
    require(nml["control"]["outdir"] == "./qe-data/" and nml["control"]["pseudo_dir"] == "./pseudo/", "folders")
    rel = "lspinorb" in nml["system"]
    require(rel == bool(cr.relativistic) and (not rel or (BOOL[nml["system"]["lspinorb"]] and BOOL[nml["system"]["noncolin"]])), "relativistic")


PP = {t: t + ".pbe-1.UPF" for t in MASS}


def run_input(c):
    A, basis, types = crystals()[c["crystal"], c["unit"]]
    A0 = np.array(A, dtype=float)
    with scratch() as calls:
        qe.pp_files = dict(PP)
        cr = qe.QECrystal("mat", A, basis, types, 37.5, unit=c["unit"], relativistic=c["rel"])
        cr.T = c["T"]
        cr.set_multitasking_parameters(3, 2, 1, 4)
        job, kk = c["job"], c["k"]
        if job == "scf":
            cr.scf(*kk)
            name, calc = "scf", "scf"
        elif job == "nscf":
            cr.nscf(qe.k_grid(*kk), 11)
            name, calc = "nscf", "nscf"
        elif job == "nscf_nosym":
            cr.nscf_nosym(qe.k_points(PTS, "crystal"), 12)
            name, calc = "nscf", "nscf"
        elif job == "bands":
            cr.bands(13, qe.k_points(PTS, "tpiba_b"))
            name, calc = "band", "bands"
        else:
            cr.relax(kk[0], bool(c["fix"]))
            name, calc = "relax", "vc-relax"
        files = sorted(os.listdir("."))
        require(files == sorted(["mat.%s.in" % name, "qe-data"]), "files %s", files)
        nml, cards = parse_input(open("mat.%s.in" % name).read())
        require(len(calls) == 1 and ("mat.%s.in" % name) in calls[0] and "pw" in calls[0] and "-nk 3" in calls[0] and "-nd 2" in calls[0] and "-nt 4" in calls[0], "command %s", calls)
    require(nml["control"]["calculation"] == calc, "calculation %s", nml["control"]["calculation"])
    check_crystal(cards, nml, cr, A0, basis, types)
    if job in ("nscf", "nscf_nosym", "bands"):
        require(int(nml["system"]["nbnd"]) == {"nscf": 11, "nscf_nosym": 12, "bands": 13}[job], "nbnd %s", nml["system"].get("nbnd"))
    if job != "bands":
        sm = nml["system"]
        require(sm["occupations"] == "smearing", "occupations")
        if c["T"]:
            require(sm["smearing"] == "fermi-dirac" and abs(float(sm["degauss"]) / (c["T"] * 1.380649e-23 / 2.1798723611035e-18) - 1) < 1e-6, "temperature %s", sm)
        else:
            require(sm["smearing"] == "marzari-vanderbilt" and float(sm["degauss"]) > 0, "smearing %s", sm)
    if job in ("scf", "nscf", "relax"):
        g = list(kk) if job != "relax" else [kk[0]]
        g = g + [g[0]] * (3 - len(g))
        kind, rows = cards["K_POINTS"]
        require(kind == "automatic" and [int(x) for x in rows[0]] == g + [0, 0, 0] and len(rows) == 1, "grid %s", rows)
    else:
        kind, rows = cards["K_POINTS"]
        require(kind == ("crystal" if job == "nscf_nosym" else "tpiba_b"), "k unit")
        require(int(rows[0][0]) == len(PTS) == len(rows) - 1, "count of the k points")
        close(np.array(rows[1:], dtype=float)[:, :3], np.array(PTS), "k points", 1e-12)
        require(len({w[3] for w in rows[1:]}) == 1 and float(rows[1][3]) > 0, "weights")
        if job == "nscf_nosym":
            require(BOOL[nml["system"]["nosym"]] and BOOL[nml["system"]["noinv"]], "symmetries are on")
    return dict(n=12, nontrivial=True)


PTS = [(0, 0, 0), (0.5, 0.25, -0.125), (1 / 3, 2 / 3, 0), (-0.75, 1e-3, 2.0)]


def blocks(text):
    out, cur = {}, None
    opts = {}
    for line in text.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == "begin":
            cur = w[1]
            out[cur] = []
        elif w[0] == "end":
            require(w[1] == cur, "block")
            cur = None
        elif cur:
            out[cur].append(w)
        elif "=" in line:
            k, v = line.split("!")[0].split("=", 1) if "=" in line.split("!")[0] else (None, None)
            if k:
                opts[k.strip()] = v.strip()
    require(cur is None, "open block")
    return out, opts


def run_wannier(c):
    A, basis, types = crystals()[c["crystal"], c["unit"]]
    n = c["grid"]
    with scratch() as calls:
        cr = qe.QECrystal("mat", A, basis, types, 37.5, unit=c["unit"])
        g = np.stack(np.meshgrid(*(np.arange(n) / n,) * 3, indexing="ij"), axis=-1).reshape(-1, 3)
        os.mkdir("qe-data/mat.save")
        d = dict(A=np.array(A, dtype=float) / (BOHR if c["unit"] == "angstrom" else 1), k=g, bands=gen(3, (len(g), 5)), sym=[], fermi=0.3)
        open("qe-data/mat.save/data-file-schema.xml", "w").write(xml_file(d))
        if c["job"] == "wannier":
            cr.prepare_wannier((-5.5, 20.25), (-4.0, 3.5), wannier_count=c["count"], grid_size=None if c["auto"] else n, iterations=17, disentangle_iterations=29)
        else:
            path = kpaths.KPath('G').to('X').to('M', N=4).to('R')
            An = np.array([[1, 0, 0.5], [0, 2, 0], [0.25, 0, 1]])
            cr.prepare_plot_wannier_bands(path, An, wannier_count=c["count"], grid_size=None if c["auto"] else n)
        out, opts = blocks(open("mat.win").read())
        require(len(calls) == 1 and "wannier90" in calls[0], "command %s", calls)
    require(int(opts["num_bands"]) == 5 and int(opts["num_wann"]) == (c["count"] or 5), "counts %s", opts)
    require([int(x) for x in opts["mp_grid"].split()] == [n] * 3, "grid")
    close(np.array(out["unit_cell_cart"][1:], dtype=float), np.array(A, dtype=float).T, "lattice vectors in the rows", 1e-6)
    require(out["unit_cell_cart"][0] == [c["unit"]], "unit")
    require([w[0] for w in out["atoms_frac"]] == list(types), "types")
    close(np.array([w[1:] for w in out["atoms_frac"]], dtype=float), np.array(basis, dtype=float), "positions", 1e-9)
    kp = np.array(out["kpoints"], dtype=float)
    require(len(kp) == n**3, "count of k points")
    if c["auto"]:
        close(np.mod(kp + 1e-6, 1), np.mod(g + 1e-6, 1), "k points in the order of the calculation", 1e-5)
    else:
        key = lambda x: sorted(map(tuple, np.round(np.mod(x + 1e-6, 1), 4)))
        require(key(kp) == key(g), "k grid")
    if c["job"] == "wannier":
        require([float(opts[k]) for k in ("dis_win_min", "dis_win_max", "dis_froz_min", "dis_froz_max")] == [-5.5, 20.25, -4.0, 3.5], "energy windows")
        require(int(opts["num_iter"]) == 17 and int(opts["dis_num_iter"]) == 29, "iterations")
    else:
        pts = [np.asarray(path[i]) for i in path.indices]
        rows = out["kpoint_path"]
        require(len(rows) == len(pts) - 1, "path segments")
        for r, a, b in zip(rows, pts[:-1], pts[1:]):
            close(np.array(r[1:4] + r[5:8], dtype=float), np.concatenate([An.T @ a, An.T @ b]), "path", 1e-9)
    return dict(n=10, nontrivial=True)


# ---------------------------------------------------------------- xml

def fmt(x):
    return " ".join("%.15E" % v for v in np.ravel(x))


def wrapped(x, per=5):
    x = list(np.ravel(x))
    return "\n" + "\n".join("  " + " ".join("%.15E" % v for v in x[i:i + per]) for i in range(0, len(x), per)) + "\n        "


def cell_xml(A):
    return "<cell><a1>%s</a1><a2>\n %s\n</a2><a3>%s</a3></cell>" % tuple(fmt(A[:, i]) for i in range(3))


def xml_file(d, A_in=None, smear=None, smear_in=None, cut=22.5, cut_in=30.0, basis=(), types=(), basis_in=(), types_in=(), pools=(1, 8, 8, 1), lattice_syms=()):
    A = d["A"]
    alat = np.linalg.norm(A[:, 0])
    B = np.linalg.inv(A).T * alat  # in units of 2pi/alat
    A_in = A if A_in is None else A_in

    def structure(A, basis, types):
        at = "".join('<atom name="%s" index="%d">%s</atom>' % (t, i + 1, fmt(A @ np.array(b))) for i, (b, t) in enumerate(zip(basis, types)))
        return '<atomic_structure nat="%d" alat="%.15E"><atomic_positions>%s</atomic_positions>%s</atomic_structure>' % (len(types), alat, at, cell_xml(A))

    def species(types):
        return '<atomic_species ntyp="%d">%s</atomic_species>' % (len(set(types)), "".join('<species name="%s"><mass>%.15E</mass><pseudo_file>%s</pseudo_file></species>' % (t, MASS[t], PP[t]) for t in sorted(set(types))))

    sm = lambda s: '<smearing degauss="%.16E">%s</smearing>' % (s[1], s[0]) if s else ""
    syms = ""
    for s, t in d["sym"]:
        tr = "<fractional_translation>%s</fractional_translation>" % wrapped(t, 3)
        syms += '<symmetry><info name="x" class="not found">crystal_symmetry</info><rotation rank="2" dims="3 3">%s</rotation>%s<equivalent_atoms size="1" nat="1"> 1 </equivalent_atoms></symmetry>' % (wrapped(s, 3), tr)
    for s in lattice_syms:
        syms += '<symmetry><info name="x">lattice_symmetry</info><rotation rank="2" dims="3 3">%s</rotation></symmetry>' % wrapped(s, 3)
    ks = ""
    for k, b in zip(d["k"], d["bands"]):
        ks += '<ks_energies><k_point weight="1.0E-1">%s</k_point><npw>12</npw><eigenvalues size="%d">%s</eigenvalues><occupations size="%d">%s</occupations></ks_energies>' % (fmt(B @ k), len(b), wrapped(b), len(b), wrapped(np.ones(len(b))))
    return """<?xml version="1.0" encoding="UTF-8"?>
<qes:espresso xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:qes="http://www.quantum-espresso.org/ns/qes/qes-1.0" Units="Hartree atomic units">
<parallel_info><nprocs>%d</nprocs><nthreads>1</nthreads><ntasks>%d</ntasks><nbgrp>1</nbgrp><npool>%d</npool><ndiag>%d</ndiag></parallel_info>
<input>%s%s<bands><nbnd>1</nbnd>%s<occupations>smearing</occupations></bands><basis><gamma_only>false</gamma_only><ecutwfc>%.15E</ecutwfc><ecutrho>1.0E+2</ecutrho></basis></input>
<output>%s%s<symmetries><nsym>%d</nsym><nrot>%d</nrot>%s</symmetries>
<basis_set><ecutwfc>%.15E</ecutwfc><reciprocal_lattice><b1>
 %s
</b1><b2>%s</b2><b3>%s</b3></reciprocal_lattice></basis_set>
<band_structure><nbnd>%d</nbnd><fermi_energy>%.15E</fermi_energy>%s%s</band_structure></output>
</qes:espresso>
""" % (pools[1], pools[3], pools[0], pools[2], species(types_in), structure(A_in, basis_in, types_in), sm(smear_in), cut_in, species(types), structure(A, basis, types),
       len(d["sym"]), len(d["sym"]) + len(lattice_syms), syms, cut, fmt(B[:, 0]), fmt(B[:, 1]), fmt(B[:, 2]), len(d["bands"][0]), d["fermi"], sm(smear), ks)


XA = {"cubic": np.diag([6.8, 6.8, 6.8]), "fcc": qe.fcc(6.83), "hex": qe.hexagonal(4.6, 12.0), "tri": np.array([[3.0, 0.5, 0.25], [0.0, 4.0, 0.125], [1.0, 0, 5.0]]), "left": np.array([[0, 3.0, 0], [4.0, 0, 1.0], [0, 0, 5.0]])}


def sym_sets(name, A):
    """list of (real space operation in crystal coordinates, translation)"""
    e = np.eye(3)
    z = np.zeros(3)
    inv = -e
    two = np.diag([-1.0, -1, 1])
    c4 = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]])
    c6 = np.array([[1, -1, 0], [1, 0, 0], [0, 0, 1.0]])  # crystal coordinates of hexagonal axes at 120 degrees
    if name == "none":
        return []
    if name == "id":
        return [(e, z)]
    if name == "inv":
        return [(e, z), (inv, z)]
    if name == "two":
        return [(e, z), (two, z)]
    if name == "c4":
        return [(np.linalg.matrix_power(c4, i), z) for i in range(4)]
    if name == "c6":
        return [(np.linalg.matrix_power(c6, i), z) for i in range(6)]
    if name == "screw":
        return [(e, z), (two, np.array([0, 0, 0.5]))]
    if name == "glide":
        return [(e, z), (np.diag([1.0, -1, 1]), np.array([0.5, 0, 0]))]
    if name == "d2":
        return [(e, z), (two, np.array([0.5, 0, 0.5])), (np.diag([1.0, -1, -1]), np.array([0.5, 0.5, 0])), (np.diag([-1.0, 1, -1]), np.array([0, 0.5, 0.5]))]
    raise KeyError(name)


def run_bands(c):
    A = XA[c["lat"]]
    nk, nb = c["nk"], c["nb"]
    k = gen(13, (nk, 3)) * 1.3
    k[0] = 0
    if nk > 1:
        k[1] = [0.5, -0.5, 0.75]
    bands = np.sort(gen(17, (nk, nb)) * 3, axis=1)
    sym = sym_sets(c["sym"], A)
    lat = [-np.eye(3), np.diag([1.0, -1, -1])] if c["lattice_syms"] else []
    d = dict(A=A, k=k, bands=bands, sym=sym, fermi=-0.123456789)
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0, unit=c["unit"])
        require(not cr.read_available(), "result is available before it exists")
        # the other files contain different data
        other = xml_file(dict(d, bands=bands + 1, k=k * 0.5, fermi=7.0), lattice_syms=lat)
        os.mkdir("qe-data/mat.save")
        open("qe-data/mat.save/data-file-schema.xml", "w").write(xml_file(d, lattice_syms=lat) if c["incomplete"] else other)
        open("qe-data/mat.xml", "w").write(other if c["incomplete"] else xml_file(d, lattice_syms=lat))
        require(cr.read_available(), "result is not available")
        gk, gb, S, fermi = cr.read_bands_crystal(incomplete=bool(c["incomplete"]))
    require(gk.shape == (nk, 3) and gb.shape == (nk, nb), "shapes %s %s", gk.shape, gb.shape)
    dk = gk - k
    close(dk - np.round(dk), np.zeros((nk, 3)), "k points", 1e-9)
    close(gb, bands * HA, "bands in eV", 1e-6)
    close(fermi, -0.123456789 * HA, "fermi energy in eV", 1e-6)
    close(cr.A, A * (BOHR if c["unit"] == "angstrom" else 1), "lattice vectors", 1e-7)
    # symmetries act on k space in crystal coordinates. As a set, so inverses don't matter.
    S = np.asarray(S)
    trans = any(np.linalg.norm(t) > 0 for _, t in sym)
    exp = {tuple(np.round(np.linalg.inv(s.T)).astype(int).ravel()) for s, _ in (sym or [(np.eye(3), None)])}
    require(S.shape[1:] == ((4, 4) if trans else (3, 3)), "shape of the symmetries %s", S.shape)
    got = {tuple(np.round(s[:3, :3]).astype(int).ravel()) for s in S}
    require(len(S) == len(exp) and got == exp, "symmetries %s instead of %s", sorted(got), sorted(exp))
    close(S[:, :3, :3], np.round(S[:, :3, :3]), "integer symmetries", 1e-9)
    if trans:
        moved = {tuple(np.round(s[:3, :3]).astype(int).ravel()) for s in S if np.linalg.norm(s[:3, 3]) + np.linalg.norm(s[3, :3]) > 1e-6}
        expm = {tuple(np.round(np.linalg.inv(s.T)).astype(int).ravel()) for s, t in sym if np.linalg.norm(t) > 0}
        require(moved == expm, "operations with a translation")
        pg = Symmetry.point_group(S)
    else:
        pg = Symmetry.point_group(S)
    full = {tuple(np.round(s * i).astype(int).ravel()) for s in pg.S for i in ((1, -1) if pg.inversion else (1,))}
    require(full == exp, "point group")
    return dict(n=8, nontrivial=True, outcome=len(S))


def run_disk(c):
    A, Ain = XA[c["lat"]], XA[c["lat"]] * 1.25
    basis = [(0, 0, 0), (0.25, -0.25, 0.5), (0.125, 0.75, 1 / 3)][:c["nat"]]
    types = ["Ga", "As", "Ga"][:c["nat"]]
    bin_ = [tuple(np.array(b) + 0.0625) for b in basis] + [(0.5, 0.5, 0.5)]
    tin = types + ["Cu"]
    degs = {"none": None, "mv": ("mv", 0.01), "fd": ("fd", 300 * 6.3336231269e-6 / 2), "fd2": ("fd", 1234.5 * 6.3336231269e-6 / 2)}
    T = {"none": 0, "mv": 0, "fd": 300, "fd2": 1234.5}
    d = dict(A=A, k=[np.zeros(3)], bands=[[0.5]], sym=[], fermi=0.1)
    with scratch() as calls:
        s_in = "fd2" if c["smear"] != "fd2" else "mv"
        open("qe-data/mat.xml", "w").write(xml_file(d, A_in=Ain, smear=degs[c["smear"]], smear_in=degs[s_in], cut=c["cut"], cut_in=c["cut"] + 5, basis=basis, types=types, basis_in=bin_, types_in=tin, pools=c["pools"]))
        if c["prepare"]:
            os.mkdir("pseudo")
            for t in set(tin):
                open("pseudo/" + PP[t], "w").write("x")
        cr = qe.from_disk("mat", read_output=bool(c["output"]), prepare_pseudopotentials=bool(c["prepare"]))
        require(calls == [], "commands %s", calls)
        if c["output"]:
            A_, b_, t_, cut, s = A, basis, types, c["cut"], c["smear"]
        else:
            A_, b_, t_, cut, s = Ain, bin_, tin, c["cut"] + 5, s_in
        require(cr.name == "mat" and cr.unit == "angstrom", "name")
        close(cr.A, A_ * BOHR, "lattice vectors in angstrom", 1e-7)
        close(np.asarray(cr.basis).reshape(-1, 3), np.array(b_), "positions in crystal coordinates", 1e-7)
        require([str(t) for t in cr.types] == t_, "types %s", cr.types)
        close(cr.T, T[s], "temperature in Kelvin", 1e-6)
        close(cr.kinetic_energy_cutoff, 2 * cut, "cutoff in Rydberg, as in the input file", 1e-9)
        require((cr.nk, cr.nd, cr.nt) == (c["pools"][0], c["pools"][2], c["pools"][3]), "parallel setup")
        for t in t_:
            require(qe.pp_files[t] == PP[t], "pseudo potential")
        # the same calculation is written
        cr.scf(4)
        nml, cards = parse_input(open("mat.scf.in").read())
        check_crystal(cards, nml, cr, cr.A, b_ if False else cr.basis, t_)
        if T[s]:
            close(float(nml["system"]["degauss"]) / 2, degs[s][1], "smearing of a repeated calculation", 1e-12)
    return dict(n=10, nontrivial=True)


# ---------------------------------------------------------------- projections and text files

def run_proj(c):
    nk, nb, ns, nw = c["nk"], c["nb"], c["ns"], c["nw"]
    k = gen(3, (nk, 3))
    E = gen(4, (nk, nb))
    P = genc(5, (nk, nb, ns, nw))
    O = genc(6, (nk, ns * nw, ns * nw))
    O = O + np.conj(np.swapaxes(O, 1, 2))
    order = [(s, w) for s in range(ns) for w in range(nw)]
    if c["order"] == "rev":
        order = order[::-1]
    ri = lambda z: np.stack([np.real(z), np.imag(z)], axis=-1)
    per = c["per"]
    x = '<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n<HEADER NUMBER_OF_BANDS="%d" NUMBER_OF_K-POINTS="%d" NUMBER_OF_SPIN_COMPONENTS="%d" NUMBER_OF_ATOMIC_WFC="%d" NUMBER_OF_ELECTRONS="%.15E" FERMI_ENERGY="%.15E"/>\n<EIGENSTATES>\n' % (nb, nk, ns, nw, 7.5, 0.321)
    for i in range(nk):
        x += '<K-POINT Weight="1.0E-2">%s</K-POINT>\n<E>%s</E>\n<PROJS>\n' % (wrapped(k[i], 3), wrapped(E[i], per))
        for s, w in order:
            x += '<ATOMIC_WFC index="%d" spin="%d">%s</ATOMIC_WFC>\n' % (w + 1, s + 1, wrapped(ri(P[i, :, s, w]), per - per % 2))
        x += "</PROJS>\n"
    x += "</EIGENSTATES>\n"
    if c["ovl"]:
        x += "<OVERLAPS>\n" + "".join('<OVPS dim="%d" tag="1">%s</OVPS>\n' % (ns * nw, wrapped(ri(O[i]), 2)) for i in range(nk)) + "</OVERLAPS>\n"
    x += "</PROJECTIONS>\n"
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        os.mkdir("qe-data/mat.save")
        path = "other.xml" if c["file"] else "qe-data/mat.save/atomic_proj.xml"
        open(path, "w").write(x)
        gk, gE, proj, fermi, ne = cr.read_projections("other.xml") if c["file"] else cr.read_projections()
    if c["ovl"]:
        proj, ov = proj
        # hermitian, the order of the two indices is not documented
        require(ov.shape == O.shape, "shape of the overlaps")
        dev = min(np.max(np.abs(ov - O)), np.max(np.abs(ov - np.swapaxes(O, 1, 2))))
        require(dev < 1e-9, "overlaps")
    close(gk, k, "k points", 1e-12)
    close(gE, E * HA / 2, "bands in eV", 1e-6)
    require(proj.shape == (nk, nb, ns, nw), "shape %s", proj.shape)
    close(proj, P, "projections", 1e-12)
    close(fermi, 0.321 * HA / 2, "fermi energy", 1e-6)
    close(ne, 7.5, "electrons", 1e-12)
    return dict(n=6, nontrivial=True)


ORB = {"s": "", "p": "pz,px,py", "d": "dz2,dxz,dyz,dx2-y2,dxy"}


def run_orbitals(c):
    types = c["types"]
    txt = "\n     Program PROJWFC v.7.3.1 starts\n\n Atomic states used for projection\n  state #   1: atom   1 (Cu ), wfc  1 (l=0 m= 1)\n\nLowdin Charges: \n\n"
    exp = []
    for i, shells in enumerate(c["shells"]):
        for sh in shells:
            txt += "     Atom # %3d: total charge =  %7.4f, %s =  %7.4f, " % (i + 1, 3.5 + i, sh, 1.25)
            for j, o in enumerate([x for x in ORB[sh].split(",") if x]):
                txt += "%s=  %7.4f, " % (o, 0.1 * (j + 1))
                exp.append((i, o))
            if sh == "s":
                exp.append((i, "s"))
            txt += "\n"
    txt += "     Spilling Parameter:   %7.4f\n\n     PROJWFC      :      1.69s CPU\n" % 0.0123
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0.1 * i, 0, 0) for i in range(len(types))], types, 30.0)
        open("mat.projwfc.out", "w").write(txt)
        order, sp = cr.read_projections_order_spilling()
    require(order == ["%d%s_%s" % (i + 1, types[i], o) for i, o in exp], "orbitals %s", order)
    close(sp, 0.0123, "spilling", 1e-12)
    return dict(n=1 + len(order), nontrivial=True)


def run_print(c):
    amp = genc(c["n"], (c["n"],)) * 0.6
    if c["zero"]:
        amp = amp * 0
    names = ["o%d" % i for i in range(c["n"])]
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        qe.print_orbitals(amp if not c["list"] else list(amp), names, threshold=c["thr"], end="|")
    p = np.abs(amp)**2
    exp = [i for i in np.argsort(-p, kind="stable") if p[i] >= c["thr"]]
    require(f.getvalue().endswith("|"), "end")
    body = f.getvalue()[:-1]
    require(body == (", ".join("%s: %.1f%%" % (names[i], 100 * p[i]) for i in exp) or "None"), "printed %s", body)
    return dict(n=1, nontrivial=True)


def run_text(c):
    kind = c["kind"]
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        n, m = c["n"], c["m"]
        if kind == "bandx":
            k, b = np.round(gen(3, (n, 3)), 6), np.round(gen(5, (n, m)) * 20, 3)
            with open("mat.Bandx.dat", "w") as f:
                f.write(" &plot nbnd=%4d, nks=%6d /\n" % (m, n))
                for i in range(n):
                    f.write("          " + "".join("%10.6f" % x for x in k[i]) + "\n")
                    for j in range(0, m, 10):
                        f.write("".join(" %8.3f" % x for x in b[i, j:j + 10]) + "\n")
            gk, gb = cr.read_bandx_raw()
            close(gk, k, "k points", 1e-12)
            close(gb, b, "bands", 1e-12)
        elif kind == "gnu":
            x = np.cumsum(np.abs(gen(7, (n,)))).round(4)
            b = np.round(gen(5, (m, n)) * 20, 4)
            sx = [0.0, 0.7071, 1.5]
            with open("foo.gnu", "w") as f:
                for i in range(m):
                    for j in range(n):
                        f.write("%10.4f%10.4f\n" % (x[j], b[i, j]))
                    f.write("\n")
            with open("mat.bandx.out", "w") as f:
                f.write("     Program BANDS\n")
                for s in sx:
                    f.write("     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate   %.4f\n" % s)
                f.write("\n     Plottable bands (eV) written to file foo.gnu\n")
            gs, z = cr.read_bandx()
            close(gs, sx, "symmetry points", 1e-12)
            close(z, np.array([np.tile(x, m), b.ravel()]), "bands", 1e-12)
        elif kind == "dos":
            E, d, N = np.linspace(-5, 7, n).round(3), np.abs(gen(3, (n,))).round(6), np.cumsum(np.abs(gen(4, (n,)))).round(6)
            with open("mat.Dos.dat", "w") as f:
                f.write("#  E (eV)   dos(E)     Int dos(E)" + (" EFermi = %8.3f eV" % 12.345 if m else "") + "\n")
                for r in zip(E, d, N):
                    f.write("%8.3f  %11.4E  %11.4E\n" % r)
            (e2, d2, n2), fermi = cr.read_dos()
            close(e2, E, "energies", 1e-12)
            close(d2, d, "density", 1e-3)
            close(n2, N, "states", 1e-3)
            require(fermi == (12.345 if m else None), "fermi energy %s", fermi)
        else:
            w = np.linspace(0, 30, n)
            e = genc(3, (n, 3)).round(6)
            for p, y in (("epsr", e.real), ("epsi", e.imag)):
                with open(p + "_mat.dat", "w") as f:
                    f.write("# energy grid [eV]     epsr_x  epsr_y  epsr_z\n#\n# \n")
                    for i in range(n):
                        f.write("%15.9f %15.9f %15.9f %15.9f\n" % ((w[i],) + tuple(y[i])))
            gw, ge = cr.read_dielectric_function()
            close(gw, w, "energies", 1e-8)
            close(ge, e, "dielectric function", 1e-8)
    return dict(n=n * m + 1, nontrivial=True)


def rec(*parts):
    b = b"".join(p if isinstance(p, bytes) else np.asarray(p).tobytes() for p in parts)
    n = struct.pack("<i", len(b))
    return n + b + n


def run_wfc(c):
    nk, nb, pol = c["nk"], c["nb"], c["npol"]
    A = XA[c["lat"]]
    B = 2 * np.pi * np.linalg.inv(A).T
    k = gen(3, (nk, 3))
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        os.mkdir("qe-data/mat.save")
        open("qe-data/mat.save/charge-density.dat", "wb").write(b"x")
        open("qe-data/mat.save/wfc.txt", "w").write("x")
        data = []
        files = list(range(nk))
        for i in {"up": files, "down": files[::-1], "mid": files[1:] + files[:1]}[c["order"]]:
            ng = 1 + (i * 2 + c["ng"]) % 5
            mill = np.round(gen(20 + i, (ng, 3)) * 3).astype("<i4")
            psi = genc(40 + i, (nb, ng, pol))
            data.append((i, mill, psi))
            with open("qe-data/mat.save/wfc%d.dat" % (i + 1), "wb") as f:
                f.write(rec(np.int32(i + 1), B @ k[i], np.int32(1), np.int32(0), np.float64(1.0)))
                f.write(rec(np.array([ng + 2, ng, pol, nb], dtype="<i4")))
                f.write(rec(B.T.copy()))
                f.write(rec(mill))
                for b in range(nb):
                    # first all plane waves of the first spin component
                    f.write(rec(np.ascontiguousarray(psi[b].T)))
        data.sort(key=lambda x: x[0])
        # the order in which the file system lists the files
        real = os.listdir
        try:
            if "perm" in c:
                def listdir(path="."):
                    out = sorted(real(path), key=lambda x: (len(x), x))
                    w = [x for x in out if x.startswith("wfc") and x.endswith(".dat")]
                    rest = [x for x in out if x not in w]
                    return rest[:1] + ([w[i] for i in c["perm"]] if len(w) == len(c["perm"]) else w) + rest[1:]
                os.listdir = listdir
            gk, gg, ge = cr.read_wavefunctions()
        finally:
            os.listdir = real
    close(gk, k, "k points in crystal coordinates", 1e-9)
    require(len(gg) == nk and len(ge) == nk, "count")
    for (i, mill, psi), g, e in zip(data, gg, ge):
        require(np.array_equal(g, mill), "plane waves")
        require(e.shape == psi.shape, "shape %s", e.shape)
        close(e, psi, "coefficients", 1e-12)
    return dict(n=3 * nk, nontrivial=True)


def run_charge(c):
    ns, ng = c["ns"], c["ng"]
    A = XA[c["lat"]]
    B = 2 * np.pi * np.linalg.inv(A).T
    mill = np.round(gen(20, (ng, 3)) * 4).astype("<i4")
    rho = genc(4, (ns, ng))
    with scratch():
        cr = qe.QECrystal("mat", np.eye(3), [(0, 0, 0)], ["Cu"], 30.0)
        os.mkdir("qe-data/mat.save")
        with open("qe-data/mat.save/charge-density.dat", "wb") as f:
            f.write(rec(np.array([0, ng, ns], dtype="<i4")))
            f.write(rec(B.T.copy()))
            f.write(rec(mill))
            for i in range(ns):
                f.write(rec(rho[i]))
        g, r = cr.read_charge_density()
    require(np.shape(g) == (ng, 3), "shape of the vectors")
    close(g, mill, "integer vectors", 1e-12)
    require(np.shape(r) == (ns, ng), "shape of the coefficients")
    close(r, rho, "coefficients", 1e-12)
    return dict(n=2, nontrivial=True)


def run_pp(c):
    types, val = c["types"], {"Cu": 11, "Ga": 13, "As": 5, "H": 1}
    cut = {"Cu": 45.0, "Ga": 70.5, "As": 16.0, "H": 46.0}
    with scratch() as calls:
        os.mkdir("pseudo")
        for t in set(types):
            open("pseudo/" + PP[t], "w").write('<UPF version="2.0.1">\n<PP_HEADER\n element="%s"\n z_valence="   %.15E"\n wfc_cutoff="%.15E"\n rho_cutoff="4.0E+02"/>\n</UPF>\n' % (t, val[t], cut[t]))
        qe.qe_prepare({t: PP[t] for t in types})
        require(calls == [], "existing files were downloaded: %s", calls)
        cr = qe.QECrystal("mat", np.eye(3) * 4, [(0.1 * i, 0, 0) for i in range(len(types))], types, unit="bohr")
        require(cr.read_valence_electrons() == sum(val[t] for t in types), "valence electrons %s", cr.read_valence_electrons())
        close(cr.kinetic_energy_cutoff, max(cut[t] for t in types), "cutoff", 1e-12)
    return dict(n=2, nontrivial=True)


SPECIAL = ";&|$`'\"<>(){}[]*?!#~ \t\n\\"


def run_prepare(c):
    name = c["file"]
    with scratch() as calls:
        d = {"Cu": name}
        qe.qe_prepare(d)
        base = "https://pseudopotentials.quantum-espresso.org/upf_files/"
        if c["ok"]:
            require(len(calls) == 1 and calls[0] == "wget " + base + name, "command %r", calls)
        else:
            require(calls == [], "shell command with special characters %r", calls)
        require(os.path.isdir("pseudo") and os.path.isdir("qe-data"), "folders")
    return dict(n=1, nontrivial=True, outcome=len(calls))


def run_kout(c):
    pts = PTS[:c["n"]]
    t = qe.k_points(pts if not c["arr"] else np.array(pts, dtype=float), c["unit"])
    lines = t.strip().split("\n")
    require(lines[0].split()[0] == "K_POINTS" and lines[0].split()[1].strip("{}()") == c["unit"] and int(lines[1]) == len(pts) == len(lines) - 2, "header %s", lines[:2])
    close(np.array([l.split()[:3] for l in lines[2:]], dtype=float), np.array(pts), "points", 1e-12)
    cr = qe.QECrystal("x", np.eye(3), [], [], 1.0)
    w = cr.k_points_wannier(pts).split("\n")
    require(w[0] == "begin kpoints" and w[-1] == "end kpoints", "block")
    close(np.array([l.split() for l in w[1:-1]], dtype=float), np.array(pts), "points", 1e-12)
    for g in itertools.product((1, 4), (None, 3), (None, 2)):
        s = qe.k_grid(*g).split("\n")
        require("automatic" in s[0] and [int(x) for x in s[1].split()] == [g[0], g[1] or g[0], g[2] or g[0], 0, 0, 0], "grid %s", s)
    return dict(n=2 * len(pts) + 8, nontrivial=True)


# ---------------------------------------------------------------- pipelines

class Programs:
    """stand-in of the external programs: obeys the input file it is given and writes what the real program writes, with data of the given run"""

    def __init__(self):
        self.n = 0
        self.last = {}

    def __call__(self, cmd):
        self.n += 1
        w = cmd.split()
        prog = next(x for x in w if x.split("/")[-1].removesuffix(".x") in ("pw", "bands", "dos", "epsilon", "projwfc", "pw2wannier90", "wannier90", "fs", "xcrysden")).split("/")[-1].removesuffix(".x")
        require(any(x.split("/")[-1] == prog + ".x" for x in w) or prog == "xcrysden", "no such program: %s", cmd)
        tee = w[w.index("tee") + 1] if "tee" in w else None
        if prog == "xcrysden":
            require(os.path.exists(w[w.index("--bxsf") + 1]), "no such file: %s", cmd)
            return 0
        out = "     Program %s starts\n" % prog.upper()
        n = self.n
        if prog == "wannier90":
            args = w[w.index("|") - 1], "-pp" in w
            seed = args[0]
            opts = blocks(open(seed + ".win").read())[1]
            if args[1]:
                open(seed + ".nnkp", "w").write("%d\n" % n)
            else:
                for e in (".nnkp", ".mmn", ".amn"):
                    require(os.path.exists(seed + e), "wannier90 misses %s", seed + e)
                if opts.get("write_tb") == "true":
                    data = c06.content(2, 2, [1, 2], n % 3 + 1)
                    c06.write(seed + "_tb.dat", "tb", data, list(data), "columns")
                    self.last["tb", seed] = data
        else:
            f = w[w.index("<") + 1] if prog == "epsilon" else w[w.index("-in") + 1]
            nml, cards = parse_input(open(f).read())
            sec = nml[{"pw": "control", "bands": "bands", "dos": "dos", "epsilon": "inputpp", "projwfc": "projwfc", "pw2wannier90": "inputpp", "fs": "fermi"}[prog]]
            prefix, save = sec["prefix"], os.path.join(sec["outdir"], sec["prefix"] + ".save")
            if prog != "pw":
                require(os.path.exists(os.path.join(save, "data-file-schema.xml")), "%s is run before any pw.x calculation of %s", prog, prefix)
            if prog == "pw":
                os.makedirs(save, exist_ok=True)
                c = sec["calculation"]
                nb = int(nml["system"].get("nbnd", 3))
                if cards["K_POINTS"][0] == "automatic":
                    g = [int(x) for x in cards["K_POINTS"][1][0][:3]]
                    k = np.stack(np.meshgrid(*[np.arange(x) / x for x in g], indexing="ij"), axis=-1).reshape(-1, 3)
                else:
                    k = np.array(cards["K_POINTS"][1][1:], dtype=float)[:, :3]
                A = np.array(cards["CELL_PARAMETERS"][1], dtype=float).T
                d = dict(A=A / (BOHR if cards["CELL_PARAMETERS"][0] == "angstrom" else 1), k=k, bands=gen(n, (len(k), nb)), sym=[], fermi=0.01 * n)
                for path in (save + "/data-file-schema.xml", os.path.join(sec["outdir"], prefix + ".xml")):
                    open(path, "w").write(xml_file(d))
                self.last["pw", prefix] = d
            elif prog == "bands":
                k, b = np.round(gen(n, (4, 3)), 6), np.round(gen(n + 1, (4, 3)) * 20, 3)
                with open(sec["filband"], "w") as f:
                    f.write(" &plot nbnd=%4d, nks=%6d /\n" % (3, 4))
                    for i in range(4):
                        f.write("          " + "".join("%10.6f" % x for x in k[i]) + "\n" + "".join(" %8.3f" % x for x in b[i]) + "\n")
                with open(sec["filband"] + ".gnu", "w") as f:
                    for j in range(3):
                        f.writelines("%10.4f%10.4f\n" % (i, b[i, j]) for i in range(4))
                        f.write("\n")
                out += "     high-symmetry point:  0.0000 0.5000 0.0000   x coordinate   %.4f\n     Plottable bands (eV) written to file %s.gnu\n" % (0.25 * n, sec["filband"])
                self.last["bands", prefix] = k, b, 0.25 * n
            elif prog == "dos":
                E, D = np.linspace(-5, 7, 5), np.round(np.abs(gen(n, (2, 5))), 4)
                with open(sec["fildos"], "w") as f:
                    f.write("#  E (eV)   dos(E)     Int dos(E) EFermi = %8.3f eV\n" % (0.5 * n))
                    f.writelines("%8.3f  %11.4E  %11.4E\n" % (e, x, y) for e, x, y in zip(E, *D))
                self.last["dos", prefix] = E, D, 0.5 * n
            elif prog == "epsilon":
                e = genc(n, (4, 3)).round(6)
                nw = int(nml["energy_grid"]["nw"])
                for p, y in (("epsr", e.real), ("epsi", e.imag)):
                    open("%s_%s.dat" % (p, prefix), "w").write("# \n# \n# \n" + "".join("%15.9f %15.9f %15.9f %15.9f\n" % ((i,) + tuple(y[i])) for i in range(4)))
                self.last["epsilon", prefix] = e, nw
            elif prog == "projwfc":
                P, E, k = genc(n, (1, 2, 1, 2)), gen(n, (1, 2)), gen(n + 5, (1, 3))
                ov = sec["lwrite_overlaps"].lower() in ("true", ".true.")
                x = '<?xml version="1.0" encoding="UTF-8"?>\n<PROJECTIONS>\n<HEADER NUMBER_OF_BANDS="2" NUMBER_OF_K-POINTS="1" NUMBER_OF_SPIN_COMPONENTS="1" NUMBER_OF_ATOMIC_WFC="2" NUMBER_OF_ELECTRONS="%.15E" FERMI_ENERGY="0.25"/>\n<EIGENSTATES>\n' % n
                ri = lambda z: np.stack([np.real(z), np.imag(z)], axis=-1)
                x += "<K-POINT Weight=\"1.0\">%s</K-POINT>\n<E>%s</E>\n<PROJS>\n" % (wrapped(k[0]), wrapped(E[0])) + "".join('<ATOMIC_WFC index="%d" spin="1">%s</ATOMIC_WFC>\n' % (i + 1, wrapped(ri(P[0, :, 0, i]))) for i in range(2)) + "</PROJS>\n</EIGENSTATES>\n"
                if ov:
                    x += '<OVERLAPS><OVPS dim="2" tag="1">%s</OVPS></OVERLAPS>\n' % wrapped(ri(np.eye(2) + 0j))
                open(save + "/atomic_proj.xml", "w").write(x + "</PROJECTIONS>\n")
                out += "\nLowdin Charges: \n\n     Atom #   1: total charge =  3.5, s =  1.25, \n     Spilling Parameter:   %7.4f\n\n" % (0.001 * n)
                self.last["projwfc", prefix] = P, E, n, ov
            elif prog == "pw2wannier90":
                require(os.path.exists(sec["seedname"] + ".nnkp"), "pw2wannier90 misses %s.nnkp", sec["seedname"])
                require(BOOL[sec["write_mmn"]] and BOOL[sec["write_amn"]] and (sec.get("write_dmn") == sec.get("read_sym")), "outputs of pw2wannier90")
                for e in (".mmn", ".amn"):
                    open(sec["seedname"] + e, "w").write("%d\n" % n)
                self.last["dmn", prefix] = BOOL.get(sec.get("write_dmn"), False)
            elif prog == "fs":
                open(prefix + "_fs.bxsf", "w").write("%d\n" % n)
        if tee:
            open(tee, "w").write(out)
        return 0


JOBS = ["scf", "nscf", "bandx", "dos", "eps", "proj", "projo", "wannier", "wanniertb", "fs"]


def run_pipe(c):
    with scratch():
        sim = Programs()
        qe.os.system = sim
        qe.pp_files = dict(PP)
        crys = {}
        for name, cell in (("mat", "cu"), ("mat2", "gaas")):
            A, basis, types = crystals()[cell, "angstrom"]
            crys[name] = qe.QECrystal(name, A, basis, types, 37.5)
        for name in c["first"]:
            crys[name].scf(2)
        last = sim.last
        for job, name in c["jobs"]:
            cr = crys[name]
            ready = ("pw", name) in last
            n0 = sim.n
            do = {"scf": lambda: cr.scf(2, 1, 3), "nscf": lambda: cr.nscf(qe.k_grid(2, 2, 2), 5), "bandx": cr.bandx, "dos": cr.dos, "eps": lambda: cr.dielectric_function(), "proj": cr.projections, "projo": lambda: cr.projections(lwrite_overlaps=True), "fs": cr.fermi_surface}.get(job)
            if do is None:
                cr.nscf_nosym(qe.k_points(np.stack(np.meshgrid(*[[0, 0.5]] * 3, indexing="ij"), axis=-1).reshape(-1, 3), "crystal"), 4)
                cr.prepare_wannier((-5.0, 20.0), (-4.0, 3.0), write_tb=job == "wanniertb")
                cr.overlaps_for_wannier(use_sym=job == "wanniertb")
                cr.wannier()
                require(last["dmn", name] == (job == "wanniertb"), "symmetry files")
            else:
                do()
            require(sim.n > n0, "nothing was started")
            if job in ("proj", "projo"):
                require(last["projwfc", name][3] == (job == "projo"), "overlaps requested: %s", job)
        # everything that was computed last is read back, for both crystals
        n = 0
        for name, cr in crys.items():
            require(cr.read_available() == (("pw", name) in last), "finished calculation of %s", name)
            if ("pw", name) in last:
                d = last["pw", name]
                k, b, _, f = cr.read_bands_crystal(incomplete=True)
                close(k, d["k"], "k points of %s" % name, 1e-9)
                close(b, d["bands"] * HA, "bands of %s" % name, 1e-6)
                close(f, d["fermi"] * HA, "fermi energy of %s" % name, 1e-6)
            if ("bands", name) in last:
                k, b, s = last["bands", name]
                gk, gb = cr.read_bandx_raw()
                close(gk, k, "bands.x k points", 1e-9)
                close(gb, b, "bands.x bands", 1e-9)
                gs, z = cr.read_bandx()
                close(gs, [s], "symmetry points", 1e-4)
                close(z[1], b.T.ravel(), "plottable bands", 1e-3)
            if ("dos", name) in last:
                E, D, f = last["dos", name]
                g, gf = cr.read_dos()
                close(g, np.array([E, *D]), "density of states of %s" % name, 1e-3)
                require(gf == f, "fermi energy")
            if ("epsilon", name) in last:
                e, nw = last["epsilon", name]
                close(cr.read_dielectric_function()[1], e, "dielectric function of %s" % name, 1e-8)
                require(nw == 500, "energies")
            if ("projwfc", name) in last:
                P, E, m, ov = last["projwfc", name]
                _, gE, g, _, ne = cr.read_projections()
                require(isinstance(g, tuple) == ov, "overlaps")
                close(g[0] if ov else g, P, "projections of %s" % name, 1e-9)
                close(ne, m, "electrons", 1e-9)
                order, sp = cr.read_projections_order_spilling()
                require(len(order) == 1 and abs(sp - round(0.001 * m, 4)) < 1e-12, "output of %s", name)
            if ("tb", name) in last:
                nb, H, r = cr.read_wannier_tb()
                data = last["tb", name]
                for R, h in zip(nb, H):
                    R = tuple(int(x) for x in R)
                    close(h, data[R][1] / data[R][0], "wannier coefficients of %s" % name, 1e-5)
            n += 1
    return dict(n=n + len(c["jobs"]), nontrivial=len(c["jobs"]) > 1)


# standard atomic weights
ELEMENTS = "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og".split()
WEIGHTS = [1.008,4.0026,6.94,9.0122,10.81,12.011,14.007,15.999,18.998,20.180,22.990,24.305,26.982,28.085,30.974,32.06,35.45,39.948,39.098,40.078,44.956,47.867,50.942,51.996,54.938,55.845,58.933,58.693,63.546,65.38,69.723,72.630,74.922,78.971,79.904,83.798,85.468,87.62,88.906,91.224,92.906,95.95,97,101.07,102.91,106.42,107.87,112.41,114.82,118.71,121.76,127.60,126.90,131.29,132.91,137.33,138.91,140.12,140.91,144.24,145,150.36,151.96,157.25,158.93,162.50,164.93,167.26,168.93,173.05,174.97,178.49,180.95,183.84,186.21,190.23,192.22,195.08,196.97,200.59,204.38,207.2,208.98,209,210,222,223,226,227,232.04,231.04,238.03,237,244,243,247,247,251,252,257,258,259,266]


def run_element(c):
    s, z = c["element"], c["z"]
    cr = qe.QECrystal("x", np.eye(3) * 2.0, [(0, 0, 0)], [s], 40.0)
    m = cr.mass_density() * 8e-30 / U
    if z < len(WEIGHTS):
        require(abs(m / WEIGHTS[z] - 1) < (0.01 if s == "Li" else 2e-3), "mass of %s is %s instead of %s", s, m, WEIGHTS[z])
    else:
        require(260 < m < 300, "mass of %s is %s", s, m)
    with scratch() as calls:
        qe.pp_files = {s: s + ".UPF"}
        cr.scf(2)
        nml, cards = parse_input(open("x.scf.in").read())
    w = cards["ATOMIC_SPECIES"][1]
    require(len(w) == 1 and w[0][0] == s and w[0][2] == s + ".UPF" and abs(float(w[0][1]) / m - 1) < 1e-6, "species %s, mass %s", w, m)
    return dict(n=2, nontrivial=True)


def subs(tier):
    th = tier == "thorough"
    cr = sorted({k[0] for k in crystals()})
    units = ("angstrom", "bohr")
    dens = [dict(crystal=n, unit=u, scale=list(s)) for n in cr for u in units for s in ([], [1e3], [2500.0, 10.0], [1e4, 1e4, 3e3])]
    inp = [dict(crystal=n, unit=u, rel=r, T=T, job=j, k=list(k), fix=f) for n in cr for u in units for r in (False, True) for T in (0.0, 300.0, 15.5)
           for j, ks, fs in (("scf", ((4,), (4, 5), (2, 3, 4)), (0,)), ("nscf", ((6,), (6, 2, 1)), (0,)), ("nscf_nosym", ((1,),), (0,)), ("bands", ((1,),), (0,)), ("relax", ((3,),), (0, 1))) for k in ks for f in fs]
    wan = [dict(crystal=n, unit=u, grid=g, auto=a, count=w, job=j) for n in cr for u in units for g in (1, 2, 3) for a in (0, 1) for w in (None, 3) for j in ("wannier", "plot")]
    bands = [dict(lat=l, nk=nk, nb=nb, sym=s, unit=u, incomplete=i, lattice_syms=ls) for l in XA for nk in ((1, 2, 5) if not th else (1, 2, 3, 5, 11)) for nb in ((1, 4, 6, 11) if not th else tuple(range(1, 13))) for s in ("none", "id", "inv", "two", "c4", "c6", "screw", "glide", "d2")
             for u in units for i in (0, 1) for ls in (0, 1) if not (ls and s == "none")]
    disk = [dict(lat=l, nat=n, smear=s, cut=cu, output=o, prepare=p, pools=pl) for l in XA for n in (1, 2, 3) for s in ("none", "mv", "fd", "fd2") for cu in (22.5, 40.0) for o in (0, 1) for p in (0, 1) for pl in ([1, 8, 8, 1], [4, 16, 2, 3])]
    proj = [dict(nk=nk, nb=nb, ns=ns, nw=nw, order=o, per=per, ovl=ov, file=f) for nk in (1, 2, 4) for nb in (1, 2, 5) for ns in (1, 2) for nw in (1, 3, 4) for o in ("fwd", "rev") for per in (2, 5) for ov in (0, 1) for f in (0, 1)]
    shells = ("s", "sp", "spd", "d", "ps")
    orb = [dict(types=["Cu", "Ga", "Cu"][:n], shells=list(s)) for n in (1, 2, 3) for s in itertools.product(shells, repeat=n)]
    pri = [dict(n=n, thr=t, list=l, zero=z) for n in (1, 2, 3, 5, 9) for t in (0.05, 0.2, 0.0) for l in (0, 1) for z in (0, 1) if not (z and t == 0)]
    text = [dict(kind=k, n=n, m=m) for k in ("bandx", "gnu", "dos", "eps") for n in (2, 3, 7, 12) for m in ((1, 2, 9, 10, 11, 23) if k in ("bandx", "gnu") else (0, 1))]
    wfc = [dict(lat=l, nk=nk, nb=nb, npol=p, ng=g, order=o) for l in XA for nk in (1, 2, 3, 11) for nb in (1, 2, 4) for p in (1, 2) for g in range(5) for o in ("up", "down", "mid")]
    wfc += [dict(lat=l, nk=nk, nb=2, npol=p, ng=1, order="up", perm=list(o)) for l in XA for p in (1, 2) for nk in (2, 3, 4) for o in itertools.permutations(range(nk))]
    chg = [dict(lat=l, ns=ns, ng=ng) for l in XA for ns in (1, 2, 4) for ng in (1, 2, 3, 8)]
    pp = [dict(types=list(t)) for n in (1, 2, 3) for t in itertools.product(("Cu", "Ga", "As", "H"), repeat=n)]
    good = ["Cu.pbesol-dn-kjpaw_psl.1.0.0.UPF", "a", "9", "Si_ONCV_PBE-1.0.upf", "C.pz-vbc.UPF"]
    prep = [dict(file=g, ok=1) for g in good] + [dict(file=g[:i] + ch + g[i:], ok=0) for g in (good[0][:6], "a") for ch in SPECIAL for i in range(len(g) + 1)]
    kout = [dict(n=n, arr=a, unit=u) for n in range(1, 5) for a in (0, 1) for u in ("tpiba", "crystal", "tpiba_b", "crystal_b", "tpiba_c", "crystal_c")]
    names = ("mat", "mat2")
    steps = [(j, n) for j in JOBS for n in names]
    pipes = [dict(first=list(f), jobs=[list(x) for x in s]) for f in (names, names[:1]) for d in (1, 2, 3) for s in itertools.product(steps, repeat=d)
             if (len(f) == 2 or (s[0][1] == names[0] and d < 3)) and (th or d < 3 or len({j for j, _ in s}) == 3 and s[0][1] == names[0] and len({n for _, n in s}) == 2)]
    pipes = [p for p in pipes if len(p["first"]) == 2 or all(n == names[0] or j in ("scf", "nscf", "wannier", "wanniertb") or any(n2 == n and j2 in ("scf", "nscf", "wannier", "wanniertb") for j2, n2 in p["jobs"][:i]) for i, (j, n) in enumerate(p["jobs"]))]
    return [
        Enum("pipelines", lambda t: pipes, run_pipe, "every sequence of up to 3 calculations of two crystals in one folder, with stand-ins that obey the written input files; everything is read back"),
        Enum("lattices", lat_cases, run_lat, "constructor x parameters (valid and invalid)"),
        Enum("elements", lambda t: [dict(element=s, z=z) for z, s in enumerate(ELEMENTS)], run_element, "every element"),
        Enum("density", lambda t: dens, run_density, "crystal x unit x sequences of densities"),
        Enum("input files", lambda t: inp, run_input, "crystal x unit x calculation x grid x temperature"),
        Enum("wannier input", lambda t: wan, run_wannier, "crystal x grid x count"),
        Enum("k points", lambda t: kout, run_kout, "count x unit"),
        Enum("bands xml", lambda t: bands, run_bands, "lattice x k count x band count x symmetries x unit x file"),
        Enum("from_disk", lambda t: disk, run_disk, "lattice x atoms x smearing x cutoff x section"),
        Enum("projections", lambda t: proj, run_proj, "counts x order x overlaps"),
        Enum("orbitals", lambda t: orb, run_orbitals, "atoms x shells"),
        Enum("print", lambda t: pri, run_print, "amplitudes x threshold"),
        Enum("text files", lambda t: text, run_text, "file type x counts"),
        Enum("wavefunctions", lambda t: wfc, run_wfc, "lattice x counts x polarisation x order of the files (every order in which up to 4 files can be listed)"),
        Enum("charge density", lambda t: chg, run_charge, "lattice x counts"),
        Enum("pseudo potentials", lambda t: pp, run_pp, "types"),
        Enum("downloads", lambda t: prep, run_prepare, "file names: every special character at every position"),
    ]
