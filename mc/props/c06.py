"""C06: wannier90 files: every block order, degeneracy assignment and size against the Fourier sum of the text."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from ..core import Enum, require
from ..util import gen, genc, herm, gen_k, close
from tight_binding_redweasel.bandstructure import BandStructureModel
from tight_binding_redweasel.tight_binding_asym import AsymTightBindingModel
from tight_binding_redweasel import wannier90_tb_format as fmt90

LEVEL = "exploration"
ASSUMPTIONS = ["files as wannier90 writes them: for every R also -R, with the adjoint matrix and the same degeneracy"]

HALF = [(1, 0, 0), (0, 1, 0), (0, -1, 1), (1, 1, -2), (2, 0, 0), (0, 0, 3), (-1, 2, 1), (1, -1, 0), (2, 1, 0), (0, 2, -1), (1, 0, -1), (3, 0, 1), (-2, 0, 1), (1, 3, 0), (2, 2, 1), (1, 1, 1)]


def content(m, n, half_deg, d0):
    """dict R -> (degeneracy, H, r) with H(-R) = H(R)^+, values already rounded to what the file shows"""
    out = {(0, 0, 0): (d0, np.round(herm(3, n), 5), np.round(genc(4, (n, n, 3)), 5))}
    for i in range(m):
        R = HALF[i]
        H = np.round(genc(10 + i, (n, n)), 5)
        r = np.round(genc(60 + i, (n, n, 3)), 5)
        out[R] = (half_deg[i], H, r)
        out[tuple(-x for x in R)] = (half_deg[i], H.conj().T, np.conj(np.swapaxes(r, 0, 1)))
    return out


A = np.array([[1.5, 0, 0.25], [0, 2.5, 0], [0.125, 0, 3.5]])


def write(path, kind, data, order, style):
    n = len(data[(0, 0, 0)][1])
    pairs = [(i, j) for j in range(n) for i in range(n)]
    if style == "rows":
        pairs = [(i, j) for i in range(n) for j in range(n)]
    with open(path, "w") as f:
        f.write(" written on 12Mar2024 at 10:11:12 \n")
        if kind == "tb":
            for a in A:
                f.write("%14.8f%14.8f%14.8f\n" % tuple(a))
        f.write("%12d\n%12d\n" % (n, len(order)))
        deg = [data[R][0] for R in order]
        for i in range(0, len(deg), 15):
            f.write("".join("%5d" % d for d in deg[i:i + 15]) + "\n")
        if kind == "hr":
            for R in order:
                for i, j in pairs:
                    v = data[R][1][i, j]
                    f.write("%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (R + (i + 1, j + 1, v.real, v.imag)))
        else:
            for R in order:
                f.write("\n%5d%5d%5d\n" % R)
                for i, j in pairs:
                    v = data[R][1][i, j]
                    f.write("%5d%5d   %15.8E %15.8E \n" % (i + 1, j + 1, v.real, v.imag))
            for R in order:
                f.write("\n%5d%5d%5d\n" % R)
                for i, j in pairs:
                    v = data[R][2][i, j]
                    f.write("%5d%5d   " % (i + 1, j + 1) + "".join("%15.8E %15.8E " % (x.real, x.imag) for x in v) + "\n")
        if style == "trailing":
            f.write("\n\n")


K = np.concatenate([gen_k(3), [[0.25, 0, 0], [0.5, 0.5, 0]]])


def judge(d, kind, data, n, loaders=True):
    path = os.path.join(d, "wan_%s.dat" % kind)
    want = sum(H * np.exp(2j * np.pi * K @ np.array(R))[:, None, None] / deg for R, (deg, H, r) in data.items())
    cnt = 0
    bands = np.linalg.eigvalsh(want)
    la = AsymTightBindingModel.load(path)
    close(la.H.f(K), want, "Hamiltonian of the asymmetric model")
    close(la.bands(K), bands, "bands of the asymmetric model")
    cnt += 2
    for cos, exp in ((False, True), (True, True), (False, False), (True, False)) if loaders else ((False, True),):
        lb = BandStructureModel.load(path, cos_reduced=cos, exp=exp)
        require(lb.cos_reduced == cos and lb.exp == exp, "requested basis")
        close(lb.f(K), want, "Hamiltonian of the band structure model")
        cnt += 1
    # explicit format name
    other = os.path.join(d, "noext")
    shutil.copy(path, other)
    close(AsymTightBindingModel.load(other, format="wannier90" + kind).H.f(K), want, "explicit format")
    close(BandStructureModel.load(other, format="wannier90" + kind).f(K), want, "explicit format")
    # raw lists
    if kind == "hr":
        nb, H = fmt90.load_hr(path)
    else:
        nb, H, r, deg, A2 = fmt90.load_tb(path)
        close(A2, A, "lattice vectors")
        require(len(deg) == len(nb) == len(r), "one degeneracy and position matrix per returned vector")
        rk = 0
        for R, g, m in zip(nb, deg, r):
            require(g == data[tuple(int(x) for x in R)][0], "degeneracy of %s is %s", tuple(R), g)
            close(m, data[tuple(int(x) for x in R)][2] / g, "weighted position matrices of %s" % (tuple(R),))
    got = [tuple(int(x) for x in R) for R in nb]
    require(len(H) == len(got), "one matrix per vector")
    require(len(set(got)) == len(got) and len(got) == (len(data) + 1) // 2 and got[0] == (0, 0, 0), "vectors %s", got)
    for R, m in zip(got, H):
        require(R in data, "vector %s not in the file", R)
        close(m, data[R][1] / data[R][0], "weighted matrix of %s" % (R,))
    return cnt + 4


def run_file(c, data, order, style="columns"):
    d = tempfile.mkdtemp(prefix="c06_")
    try:
        write(os.path.join(d, "wan_%s.dat" % c["kind"]), c["kind"], data, order, style)
        return {"n": judge(d, c["kind"], data, c["n"])}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ocases(tier):
    for kind in ("hr", "tb"):
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            for m in (0, 1, 2):
                for p in itertools.permutations(range(2 * m + 1)):
                    yield {"kind": kind, "n": n, "order": list(p)}
        m = 3
        for n in ((1,) if tier == "quick" else (2,)):
            for idx, p in enumerate(itertools.permutations(range(7))):
                if tier == "quick" and p[0] > p[-1]:
                    continue
                yield {"kind": kind, "n": n, "order": list(p)}


def orun(c):
    m = len(c["order"]) // 2
    data = content(m, c["n"], [2, 1, 3][:m], 1)
    Rs = list(data)
    return run_file(c, data, [Rs[i] for i in c["order"]])


def dcases(tier):
    for kind in ("hr", "tb"):
        for n in (1, 3):
            for m in (0, 1, 2, 3):
                for deg in itertools.product((1, 2, 4), repeat=m):
                    for d0 in (1, 2):
                        for rot in range(0, 2 * m + 1, 2):
                            yield {"kind": kind, "n": n, "deg": list(deg), "d0": d0, "rot": rot}


def drun(c):
    m = len(c["deg"])
    data = content(m, c["n"], c["deg"], c["d0"])
    Rs = sorted(data)
    return run_file(c, data, Rs[c["rot"]:] + Rs[:c["rot"]])


def lcases(tier):
    """every number of vectors around the line length of the degeneracy list, every position of the zero vector at the line breaks"""
    for kind in ("hr", "tb"):
        for n in (1, 2, 3, 4):
            for m in range(0, 17):
                for zero in ("first", "middle", "last"):
                    for style in ("columns", "rows", "trailing"):
                        yield {"kind": kind, "n": n, "m": m, "zero": zero, "style": style}


def lrun(c):
    m = c["m"]
    data = content(m, c["n"], [1 + i % 3 for i in range(16)], 1)
    Rs = sorted(R for R in data if any(R))
    i = {"first": 0, "middle": m, "last": 2 * m}[c["zero"]]
    Rs.insert(i, (0, 0, 0))
    return run_file(c, data, Rs, c["style"])


def subs(tier):
    return [Enum("block orders", ocases, orun, "every permutation of up to 5 (7) R blocks"),
            Enum("degeneracies", dcases, drun, "every degeneracy assignment from {1,2,4} for up to 3 vector pairs"),
            Enum("sizes", lcases, lrun, "1 to 33 vectors (one to three degeneracy lines) x zero position x matrix element order")]
