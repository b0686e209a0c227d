#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/template.md and the tables below; the list of planted bugs comes from seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "C01": ("BFS over all edit sequences of depth 3 (4) of a model *and of the models derived from it* (add/limit/cleanup neighbours, permute, transform, scale, shift, direct sum, copy, replace coefficients) from 16 roots (dimension 1-3, neighbour sets, bands, overlap none/const/k-dependent); all pairs of number types; empty and unit models", "dictionary R -> matrix, summed by hand at generic k; every operand compared after every edit (no aliasing)", "60 s / 6 min"),
 "C02": ("model kinds (asym, band structure in 4 bases x groups, TightBindingModel) x dimension x bands x overlap; all compositions of 1-4 (6) touching levels x variables x batch form; touching bands; free electrons; electron-phonon coupling for all pairs of index forms", "8th-order central differences of the function itself (only where converged), degenerate perturbation theory by hand, gauge-invariant products", "7 s / 30 s"),
 "C03": ("BFS over edit sequences (depth 2-3) in all bases (cos x exp) x groups (1-3 D, with/without inversion) x neighbour shells x bands; number types; custom coefficient functions; starting models from a reference", "orbit sums written by hand from the group, shadow matrices of every edit", "60 s / 5 min"),
 "C04": ("matrix structures (generic, diagonal, degenerate, block, zero, real) x overlap x edit histories x normalise (twice); band models x bases x groups; models with symmetriser", "bands before = after, H(0) diagonal, S(0)=1, symmetriser relation, copies untouched", "25 s / 60 s"),
 "C05": ("orders of neighbour lists, extreme values x component x format x print option, groups x bases x sizes, sizes around numpy's abbreviation threshold, histories save/load/failing save", "independent parser of both formats, own Fourier sum of the file", "12 s / 60 s"),
 "C06": ("all permutations of up to 5 (7) R blocks, all degeneracy assignments from {1,2,4}, 1-33 vectors (1-3 degeneracy lines) x position of zero", "own writer and Fourier sum", "8 s / 40 s"),
 "C07": ("74 constructor calls; all pairs of the group menu (==, in, *, /); all generator sets of 2 (3) operations of the square, hexagonal and cubic groups; BFS over products/transforms/subgroups depth 3 (5); space groups", "brute-force closure, brute-force classes, normality and membership", "90 s / 8 min"),
 "C08": ("groups x functions with exactly the symmetry of every other group; point subsets x orders; grids x spacing x shifts; neighbour subsets", "explicit orbits, brute-force partition into classes", "25 s / 3 min"),
 "C09": ("groups x rank 0-4 with every left/right split x proper/pseudo, complete tensor basis", "explicit group average, projector identities", "50 s / 3 min"),
 "C10": ("built-in representations (every permutation, every single-operation corruption), all pairs for sum/product, all generator sets, every representation x neighbour list on a coefficient basis", "homomorphism test by brute force, explicit group average of coefficients", "55 s / 4 min"),
 "C11": ("group x orbital lists with up to three sites x neighbour lists (complete or not) on a coefficient basis, incl. hexagonal groups in orthogonal axes and orbital pairs on the diamond sublattices; BFS over construction calls depth 3 (4)", "U(k) of displaced orbitals written by hand; invariance, idempotence, projection, maximality", "60-145 s / 8 min"),
 "C12": ("directions with zeros, ties and tiny values x all permutations and signs x vertex energies; all multisets/orders of tetrahedra; all 0/1 labellings of a cube; grids x lattices (left-handed, sheared)", "exact rational volumes of cut polytopes", "16 s / 110 s"),
 "C13": ("lattice x model x smearing x grid x wrapping/midpoint/gradient, every band edge, every electron count in eighths plus doped insulators; affine maps, subsets, shifts", "direct cell sums, bracketing of the count", "60 s / 4 min"),
 "C14": ("kernels x degree, convolution of every sequence, models x smearing x temperature lists x counts, temperature drifts, thermodynamic derivatives", "Gauss-Legendre references and difference quotients of the same object", "100 s / 200 s"),
 "C15": ("models x lattices (left-handed, skew) x levels x weights; covariance under rotations/mirrors/units; sums; cubic point group; free-electron closed forms; Hessian and unit conversions", "direct surface sums, tensor transformation laws, closed forms", "20-90 s / 5 min"),
 "C16": ("every ordered pair of integer band sets over an alphabet (n,m<=3) x windows x offsets x weights; histograms", "brute-force best alignment", "2-15 s / 2 min"),
 "C17": ("**every** executed line of a fit interrupted (thorough: every bytecode) x optimiser configuration x logging mode; every logger operation sequence", "the state must be that of a whole number of iterations of the uninterrupted run, log consistent", "40-100 s / < 900 s"),
 "C18": ("every start form x every sequence of segments to depth 3; all symmetry-point tables x parameters; plots", "own path accounting, Brillouin-zone face count of each point from its definition", "11 s / 60 s"),
 "C19": ("grid shape x origin x method x sample order x group x choice of representatives", "polynomials/harmonics spanned by the method, exact at nodes", "32 s / 3 min"),
 "C20": ("writers for all file types x lattices x counts x orders (incl. all directory listing orders), input-file text for all option sets, every special character at every position of names; every sequence of up to 3 calculations of two crystals in one folder against stand-in programs that obey the written input", "the data written, independent parser of the input file", "12 s / 100 s"),
 "C21": ("sizes x batch shapes x real/complex/integer patterns x degeneracies; all block shapes; lattice x unimodular basis x radius; all pairs of small multisets; CG configurations", "definitions (residuals, brute force, difference quotients)", "20 s / 2 min"),
 "C22": ("optimiser x model kind x dimension x bands x options x windows x weights x zero patterns; fits from autofit", "exact start is fixed point, plain least squares, invariances, reported loss recomputed", "50-110 s / 10 min"),
 "C23": ("all integer matrices with small entries and determinant up to a bound x lattices x hoppings x model kinds; chains of two; refused matrices", "union of folded bands", "34 s / 3 min"),
 "C24": ("models with 1-23 bands x samplings x ranges x energies; all 256 sign patterns and 6561 -/0/+ patterns of a cell; plot options, lists of models, accelerated cuts", "edge crossings by linear interpolation, mesh validity (own OBJ/MTL parser), closedness, artists read back from matplotlib", "60 s / 4 min"),
 "C26": ("23 representations x neighbour shells x shapes of k arrays; fit options x band windows; orders of reference levels x additional bands", "matrix from its definition, Fourier sum, explicit group mean, level multisets", "10 s / 10 s"),
 "C27": ("samplings x bands x dimension x function x style x repeated calls; sections; lattices x bases x repetitions; BFS over log histories depth 3 (4)", "the drawn artists read back from matplotlib: segment sets, atom sets computed from the lattice, list model of the log", "14 s / 40 s"),
 "C28": ("BFS over 15 changes of the description (axes, handedness, units, zero, order, copies, formats, model class, supercell) depth 2 (3), for lattices x bands x electrons x smearing x overlap", "results of the first description, transformed by the known factors and tensor laws; folded bands for supercells", "90 s / 15 min"),
 "C25": ("groups x orbital lists x shells; BFS over set_parameter histories depth 3 (4); lattices x groups x ranges x orbitals x given integrals x form", "rank of the symmetrised coefficient space, last-value store, Fourier sum of two-centre integrals", "60 s / 3 min"),
}
WHY = """The stable tests sample a handful of fits, one lattice each and mostly default options.  The systematic part of each check lies in dimensions the tests never vary:
*histories* (C01, C03, C04, C05, C07, C11, C16-C18, C22, C23, C25, C28: aliasing between copies, order of edits, second calls, directory order), *interrupt points* (C17),
*degenerate and boundary inputs* (C02, C12-C14, C16, C21, C24: ties, touching bands, band edges, zero samples, flat bands), *handedness / shear / centring of lattices* (C12, C13, C15, C18, C20, C23),
*group structure* (C07-C11, C19: groups without inversion, subgroups, reordered generators, groups that occur in different representations), and *option pairs* (all of them)."""
FALSE = open(os.path.join(V, "tools", "design", "domain.md")).read().strip()
MISSED = {
 "c11-merge-rounding": "no hexagonal groups in orthogonal axes -> added (hexo, tri_o, tri_m, hexo_m)",
 "c13-insulator-doping": "only counts in eighths -> doped counts added",
 "c15-hessian-transform": "Hessians only for orthogonal lattices -> skew lattice added",
 "c19-periodic-wrap-edge": "only nodes and linear data -> sub \"smooth\" added",
 "c20-wavefunction-order": "only the sorted directory listing -> all listing orders",
 "c22-overlap-zero-mask": "keep_zeros without overlap -> asym models with train_S",
}
MISSED.update(json.load(open(os.path.join(V, "tools", "design", "missed.json"))))
t = open(os.path.join(V, "tools", "design", "template.md")).read()
title = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    title[p["id"]] = p["title"]
rows = "\n".join("| %s %s | %s | %s | %s |" % (i, title[i], *PROPS[i]) for i in sorted(title))
bugs = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    files = sorted(set(re.findall(r"^\+\+\+ b/src/tight_binding_redweasel/(\S+)", open(os.path.join(d, "patch.diff")).read(), re.M)))
    n = os.path.basename(d)
    bugs.append("| %s | %s | %s | %s |" % (n, ", ".join(files), m["property"], MISSED.get(n, "")))
t = t.replace("@@PROPS@@", rows).replace("@@WHY@@", WHY).replace("@@FALSE@@", FALSE).replace("@@BUGS@@", "\n".join(bugs))
fixes = sum(l.startswith("fixed:") for l in open(os.path.join(V, "known_findings.txt")))
t = re.sub(r"\d+ `fix:` commits", "%d `fix:` commits" % fixes, t)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
print(len(bugs), "bugs", fixes, "fixes")
