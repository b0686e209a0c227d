#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here so that they can be edited comfortably."""
import json, os
P = []
S = "src/tight_binding_redweasel/"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [S + f for f in files],
                    "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})


prop("C01", "A Fourier model is its hopping list, through every edit history",
     "After any sequence of edits (add, limit or clean up neighbours, permute, transform, scale, shift, direct sum, copy, replace coefficients) the matrix a tight-binding model without symmetrisation returns at any k is exactly the hermitian Fourier sum of the hoppings that history leaves, with H(0) alone counted once and every other hopping together with its hermitian conjugate. "
     "The bands are the ascending (generalised) eigenvalues of that matrix, for every shape of k array. "
     "An edit of a copy or of a derived model never changes the model it came from.",
     ["histories", "inputs"],
     "every sequence of model edits up to a depth, for every dimension 1-3, several neighbour sets and band counts, with and without an overlap matrix, evaluated at generic and special k",
     "The tests build a handful of models and never edit them; add_neighbors, limit_*, cleanup, transform, permute, + and * are never called, let alone in sequence.",
     ["tight_binding_asym.py", "linalg.py"],
     [("HermitianFourierSeries.f and neighbour editing", "tight_binding_asym.py"), ("AsymTightBindingModel.permute/transform/__add__/__mul__/copy", "tight_binding_asym.py"), ("geigvalsh", "linalg.py")],
     [("neighbors/H_r", "ordered hopping list, first entry is R=0", "tight_binding_asym.py")],
     ["model.H.f(k)", "model.bands(k)", "model(k)"])

prop("C02", "Analytic band and Hamiltonian derivatives are the true derivatives",
     "For every model class and parametrisation, the first and second k-derivatives returned for the Hamiltonian matrix are the exact derivatives of the matrix the same model returns. "
     "The returned band gradients and band Hessians are the derivatives of the returned bands wherever that band is separated from its neighbours, also when other bands touch at the same k, and are returned together with exactly the bands of the model. "
     "Where bands touch, their gradients sum to the derivative of the sum of the touching bands. This includes models with an overlap matrix and every k array shape the functions document. "
     "The electron-phonon coupling returned between any two lists of k points is the difference of those group velocities times the overlap of the eigenvectors.",
     ["inputs", "configurations"],
     "every dimension, parametrisation, band count, overlap choice and generic or symmetric k in a finite grid; degenerate points included",
     "Only the bands themselves are compared in the tests; no test compares a gradient or Hessian of any model with the function it differentiates.",
     ["tight_binding_asym.py", "bandstructure.py", "linalg.py"],
     [("df/ddf, df_i/ddf_i", "tight_binding_asym.py"), ("bands_grad, bands_grad_hess", "bandstructure.py"), ("geigh_grad, eigh_grad, eigh_grad_hess", "linalg.py")],
     (), ["bands_grad(k)", "bands_grad_hess(k)", "H.df/H.ddf", "df/ddf"])

prop("C03", "All coefficient parametrisations describe the same Hamiltonian",
     "A symmetry-reduced linear band-structure model (with hermitian coefficients in the sine/cosine bases and for groups with inversion, which is what normalising and fitting produce) is a hermitian matrix for every k, in each coefficient basis (cosine-reduced or not, exponential or sine/cosine) and for each symmetry it is invariant under every symmetry operation including inversion. "
     "Its complex-coefficient view is faithful: reading it gives Fourier matrices whose symmetrised sum over each neighbour orbit is the matrix of the model, and writing it (into the same or another basis) reproduces the same matrix at every k. "
     "Scaling, shifting, permuting, transforming or direct-summing such a model does exactly that to its matrix and bands and leaves its operands unchanged (a neighbour transformation is shared with copies, as documented).",
     ["configurations", "histories", "inputs"],
     "every combination of symmetry group, basis flag pair, neighbour shell set and band count in a finite menu, and every edit sequence up to a depth",
     "test_equivalence compares a few coefficient sets in one symmetry with one random matrix; sine basis, groups without inversion, and any sequence of edits are never run.",
     ["bandstructure.py"],
     [("init_tight_binding coefficient functions", "bandstructure.py"), ("params_complex/set_params_complex", "bandstructure.py"), ("permute/transform/__add__/__mul__/copy", "bandstructure.py")],
     [("params", "coefficient matrices of the basis functions", "bandstructure.py")],
     ["f(k)", "bands(k)", "params_complex()"])

prop("C04", "Normalisation never changes the physics and is repeatable",
     "Normalising a model of either kind leaves its bands at every k unchanged, makes the Hamiltonian at k=0 diagonal and, for models with an overlap matrix, the overlap at k=0 the identity. "
     "Normalising a second time changes nothing but the phases of equivalent bases (and the choice of basis where levels at k=0 are degenerate), so the set of diagonal values at k=0 and the bands stay the same, and copies made earlier are not modified. "
     "The constant matrix takes the role of the k=0 matrix in models that are not cosine-reduced, and a model with a symmetriser is normalised by exactly that symmetriser, which follows permutations and direct sums: a symmetric model stays as it is.",
     ["inputs", "histories"],
     "every model of a finite menu (bands, neighbour sets, overlap, degenerate and block structured H(0)), and histories that interleave normalise with edits",
     "Tests call normalize only implicitly inside one optimiser run and never compare bands before and after.",
     ["tight_binding_asym.py", "bandstructure.py"],
     [("normalize", "tight_binding_asym.py"), ("normalize", "bandstructure.py")], (), ["bands(k)", "H.f(0)", "f(0)"])

prop("C05", "Saving and loading a model is lossless and has no side effects",
     "For every supported file format, the file holds exactly the neighbours, coefficient matrices and (python format) symmetry of the model, for every magnitude and sign of the parameters and every model size (JSON, which stores no symmetry and no overlap matrix, sets components below 1e-14 to zero). "
     "Loading it, in any supported model class, dimension and basis, gives a model with the same neighbours and Hamiltonian at every k, and saving and loading again keeps it. "
     "A save or load that cannot succeed raises an error, and successful or failed ones leave the model and the process-wide number formatting as they were, whatever formatting was set before.",
     ["inputs", "histories", "fault_sequences"],
     "every format x model kind x extreme float value pattern x prior print-option setting, each save/load sequence up to a depth, and every failing path",
     "No test ever calls save or load.",
     ["json_tb_format.py", "bandstructure.py", "tight_binding_asym.py"],
     [("save/load", "json_tb_format.py"), ("save/load", "bandstructure.py"), ("save/load", "tight_binding_asym.py")], (),
     ["file content", "loaded model", "numpy.get_printoptions()"])

prop("C06", "Imported wannier90 Hamiltonians equal the file's Fourier sum",
     "Loading a wannier90 '_hr.dat' or '_tb.dat' file yields a model whose Hamiltonian at every k is the sum over the file's lattice vectors of the listed matrix times exp(2 pi i k.R) divided by that vector's degeneracy weight, whatever the order of the blocks, the position of the zero vector, the number of Wannier functions or the number of degeneracy lines. "
     "Reading a '_tb.dat' file directly also returns its lattice vectors as written and, for each returned vector, its degeneracy and its position matrices with the same weight; of R and -R one is returned, the zero vector first.",
     ["inputs"],
     "every ordering of the R blocks of small Hamiltonians, every degeneracy assignment from a small menu, band counts 1-3, 1-20 R vectors (one and several degeneracy lines)",
     "The wannier90 reader has 4% coverage; no test reads a file.",
     ["wannier90_tb_format.py", "tight_binding_asym.py", "bandstructure.py"],
     [("load_hr, load_tb", "wannier90_tb_format.py"), ("load", "tight_binding_asym.py"), ("load", "bandstructure.py")], (),
     ["AsymTightBindingModel.load(...).H.f(k)", "BandStructureModel.load(...).f(k)"])

prop("C07", "Point groups obey group algebra for every constructor and operation",
     "Every built-in or generated symmetry is a group: its list of operations (doubled by -1 when the inversion flag is set) is closed, has no duplicates, contains the identity and all inverses, and has the size it reports. "
     "Membership, equality, product (smallest common group), subgroup by a class function, conjugacy and equivalence classes, transpose, dual, copy and change of basis all agree with that set of matrices, whichever of the two inversion representations describes it, and leave their operands unchanged. "
     "A quotient that is returned holds exactly one operation of every coset and is a group; subgroups that are not normal, generators of infinite groups and lists without identity are refused with an error. "
     "The point group of a space group is the set of its rotation parts, each once, and the strict one those without translation.",
     ["inputs", "histories"],
     "every constructor and every ordered pair (and chains) of groups in the menu, every generator subset of the cubic/hexagonal groups up to size 2-3, every lattice in a menu",
     "test_symmetry samples a few constructors and one product; equality/containment across inversion representations, quotients and classes are only printed or spot-checked.",
     ["symmetry.py"],
     [("constructors, from_generator", "symmetry.py"), ("__contains__, __eq__, __mul__, __truediv__, subgroup", "symmetry.py"), ("conjugacy_classes, equivalence_classes", "symmetry.py"), ("point_group, space_group, transform, transpose, dual", "symmetry.py")],
     (), ["S, inversion, len, in, ==, get_symmetry_operations()"])

prop("C08", "Orbit expansion and reduction lose and invent no points",
     "Expanding points over a group lists every image of every point once per its own orbit with the data carried along, and reducing a set of points keeps exactly one member of each orbit, so that expand(reduce(X)) covers X and reducing again changes nothing, on coarse and on fine grids. "
     "The reported weights and class sizes are the true orbit (or class) sizes, so weighted sums over reduced points equal plain sums over the full set. "
     "Completing a neighbour list gives every orbit image exactly once up to sign with the original order and index mapping, the completeness test accepts exactly complete lists, and class labels coincide precisely for points in the same orbit.",
     ["inputs", "configurations"],
     "every group of the menu x every subset of points up to a size from a small lattice, and every full grid up to a size, in every order from a menu",
     "The tests expand one point list for a few groups and never test reduction on fine grids, groups without inversion, or the neighbour-list functions.",
     ["symmetry.py"],
     [("realize_symmetric(_data), reduce_symmetric_data", "symmetry.py"), ("complete_neighbors, check_neighbors, find_classes", "symmetry.py"), ("k_weight, r_class_size", "symmetry.py")],
     (), ["returned point lists, index arrays and weights"])

prop("C09", "Tensor symmetrisation is the projection onto invariant tensors",
     "Symmetrising a tensor of any rank under any point group returns a tensor that every operation of the group, inversion included, leaves invariant (up to the determinant sign for pseudo tensors). "
     "It leaves invariant tensors unchanged, is linear, and is idempotent.",
     ["inputs", "configurations"],
     "every group x rank 0-4 x proper/pseudo, on a complete basis of tensors (which decides every tensor by linearity)",
     "The single test symmetrises one tensor in one group.",
     ["symmetry.py"], [("symmetrize", "symmetry.py")], (), ["Symmetry.symmetrize"])

prop("C10", "Representation operations stay unitary representations of the group",
     "Every representation that the constructors, direct sum, repetition, product, permutation or generator expansion produce is a unitary (anti)homomorphism of its group in the sense the built-in check defines, and the built-in check accepts exactly those. "
     "Symmetrising matrices or neighbour-indexed coefficients under it is linear, idempotent, keeps hermiticity, has invariant results, and the reference, fast and precomputed implementations agree. "
     "The invariant subspaces reported partition the basis.",
     ["inputs", "configurations"],
     "every group and built-in representation in the menu, all sums/products of them up to a total dimension, and a full basis of matrices and coefficients",
     "test_unitary_representations covers one or two sums with one random matrix; product, repetition and permutation are not run.",
     ["unitary_representations.py"],
     [("__add__, __mul__, permute, from_generator, match_sym", "unitary_representations.py"), ("symmetrize, symmetrizer, symmetrize2", "unitary_representations.py"), ("check, subspaces", "unitary_representations.py")],
     (), ["U, inv_split, check(), symmetrize(...)"])

prop("C11", "Hamiltonian symmetrisation projects onto exactly the symmetric models",
     "For every set of orbitals at any positions, symmetrising Hamiltonian coefficients is linear, idempotent, keeps hermiticity and equals the slow reference implementation. "
     "Every symmetrised model has bands (and, at atoms on the origin, the full matrix transformed by the orbital representation) invariant under every group operation acting on k, inversion included, and the invariance operation itself applied to the coefficients changes nothing. "
     "Appending (also the orbital pairs on the two diamond sublattices, which 90 degree rotations and inversion exchange), copying or querying a symmetry object gives the documented order, names, dimensions and independent copies.",
     ["configurations", "inputs"],
     "every combination of point group, orbital list up to 3 sites, site position from a menu and neighbour shell, on a full basis of coefficient matrices",
     "test_hamiltonian_symmetry runs three fixed orbital lists in the cubic group with random coefficients.",
     ["hamiltonian_symmetry.py", "unitary_representations.py"],
     [("symmetrize, symmetrizer", "hamiltonian_symmetry.py"), ("append*, apply, copy, get_band_name", "hamiltonian_symmetry.py")],
     (), ["symmetrizer(neighbors)(H_r)", "symmetrize(...)", "apply(...)"])

prop("C12", "Cut volumes and areas of the integration cells are geometrically exact",
     "For every cell shape (cube, tetrahedron, tetrahedra-split cube) and every linear function on it, the volume below an energy is the exact geometric volume: 0 below the cell, full above it, continuous and non-decreasing between, independent of sign and order of the gradient components, including when some or all vanish. "
     "The density is the exact derivative of that volume, the combined volume/density function agrees with the separate ones, and the area and centre of mass functions describe the true cut surface.",
     ["inputs"],
     "every gradient from a finite lattice (with zeros, ties, signs, tiny components) x a dense energy grid including every vertex value; every vertex labelling from a small menu; every smearing method on small grids of straight, skew and left handed lattices",
     "test_cut_functions checks random directions against Monte Carlo; ties, zeros and the exact breakpoints are measure-zero for it.",
     ["smearing.py"],
     [("cube_cut_*", "smearing.py"), ("tetra_cut_*, unit_tetra_cut_*, cube_tetra_cut_*", "smearing.py"), ("*Smearing classes", "smearing.py")],
     (), ["cube_cut_volume(x, g)", "smearing(...)"])

prop("C13", "State counting and zero-temperature levels are consistent",
     "For every model, grid, smearing method and gradient/midpoint option the number of states below an energy is non-decreasing, is 0 below and the number of bands above the spectrum, is the sum of the per-band counts, and equals the integral of the density of states; for linear interpolation it equals the exact cell sum. "
     "The Fermi energy for any electron count is a level at which exactly that count lies below, the band gap and band ranges reported are those of the sampled bands, and selecting, cutting or wrapping bands and k ranges never changes the counts of the rest.",
     ["inputs", "configurations"],
     "every model of a menu x grid size x smearing x options x full energy grid including all band edges, and every electron count on a grid including the exact integers",
     "Three tests compare three models' densities with an analytic curve at loose tolerance; counting, Fermi energy and gap are not compared for any other configuration.",
     ["density_of_states.py", "smearing.py"],
     [("states_below, states_density, density", "density_of_states.py"), ("fermi_energy, bandgap, energy_range, cut_band_indices", "density_of_states.py")],
     (), ["DensityOfStates methods"])

prop("C14", "Finite-temperature averages are exact and conserve electrons",
     "The convolution of the density of states with Fermi-function derivatives integrates every polynomial in energy that the quadrature documents exactly, with correct moments and no dependence on where the level lies. "
     "At every temperature the chemical potential returned contains the requested number of electrons (up to the sampling error of the chosen number of energy samples), energy, heat capacity and Seebeck quantities are mutually consistent derivatives of it, and everything tends to the zero-temperature values as the temperature goes to zero.",
     ["inputs"],
     "every quadrature kernel x monomial up to and above its order x temperature/level grid, and every model x electron count x temperature in a menu",
     "The tests evaluate one temperature for the free-electron model.",
     ["density_of_states.py", "bulk_properties.py"],
     [("gauss_*, convolve_df/ddf, int_poly, secant", "density_of_states.py"), ("chemical_potential, energy, heat_capacity, seebeck", "density_of_states.py")],
     (), ["convolve_df(f, mu, T)", "DensityOfStates.chemical_potential"])

prop("C15", "Transport integrals and Fermi-surface sums respect scaling and symmetry",
     "k-space integrals of band quantities weighted with the Fermi-function derivative or over the Fermi surface equal direct sums over the sampled cells, are linear in the integrand, independent of the lattice orientation, and reproduce the closed-form free-electron results. "
     "Conductivity, Hall and thermoelectric tensors are symmetric or antisymmetric as their physics requires, invariant under the model's point group, scale with the documented powers of relaxation time and volume, and a constant relaxation time gives the same result as the equivalent function.",
     ["inputs", "configurations"],
     "every model of a menu x lattice x temperature x electron count x scalar/callable relaxation time",
     "Two tests check the free-electron conductivity for one lattice constant.",
     ["bulk_properties.py", "density_of_states.py"],
     [("KIntegral.*", "bulk_properties.py"), ("conductivity/hall/seebeck coefficients", "bulk_properties.py"), ("fermi_surface_samples", "density_of_states.py")],
     (), ["KIntegral methods", "fermi_surface_samples"])

prop("C16", "Fit errors and losses equal their definitions for every band alignment",
     "The loss is the root of the weighted mean squared band difference at the given band offset, the error is the maximal absolute difference per band with zero-weight bands counted as documented, and the error histogram lists those same differences. "
     "The windowed loss is the minimum of the loss over every admissible alignment of model and reference bands, including the first and the last offset, skipping bands only when that is allowed; each method of a model agrees with the standalone function and leaves its inputs unchanged.",
     ["inputs"],
     "every (model bands, reference bands, offset, weight vector, window, skip flag) combination up to 4x4 bands on small integer-valued data",
     "test_loss evaluates one configuration; windowed alignment and the histogram are never executed.",
     ["loss.py", "tight_binding_asym.py", "bandstructure.py"],
     [("model_error, model_loss, model_windowed_loss, model_error_hist", "loss.py")], (), ["return values"])

prop("C17", "An interrupted optimisation leaves a complete, loggable model",
     "Interrupting an optimisation at any point of any iteration makes the call return normally, flags the log as aborted exactly once and keeps the model in a usable state: hermitian, the band count and neighbours unchanged, normalised, with the finite parameters the uninterrupted run has after a whole number of iterations. "
     "An optimisation that is not interrupted reports, as its last logged loss, the loss the returned model has, logs one entry per reported iteration, and never flags the log as aborted; a log that is not aborted can be reused for a following optimisation.",
     ["crash_points", "fault_sequences", "histories"],
     "an interrupt injected at every executed line (thorough: every bytecode) of every optimiser of every model kind, also when sharing the log of an earlier run",
     "No test interrupts anything; an interrupt can strike at any of thousands of points.",
     ["tight_binding_asym.py", "bandstructure.py", "logger.py"],
     [("optimize/optimize_cg interrupt handling", "tight_binding_asym.py"), ("optimize/optimize_cg interrupt handling", "bandstructure.py"), ("OptimisationLogger", "logger.py")],
     [("log", "iteration entries and aborted flag", "logger.py")], ["model after return", "log"])

prop("C18", "A k-path visits exactly the points it was told to, in order",
     "For every sequence of path segments the points of a k-path start at the first point, end at the last, contain every named point exactly where its label says, and interpolate linearly between them with the requested number of samples. "
     "The plot coordinate is the cumulative length of the path measured between consecutive points, is non-decreasing, and has one label and one position per high-symmetry point in order; predefined paths consist of the high-symmetry points of their lattice.",
     ["histories", "inputs"],
     "every sequence of up to 4 segments from a small point menu, with every sample count and name choice, plus all predefined paths",
     "Only interpolation along one path is tested; path construction is not.",
     ["kpaths.py"], [("KPath.to/x/sym_x/sym_x_names", "kpaths.py"), ("predefined paths and point tables", "kpaths.py")], (), ["np.asarray(path)", "x()", "sym_x()"])

prop("C19", "Grid interpolation reproduces its data and its symmetry",
     "Interpolating sampled band data on a rectilinear grid (at least two samples per direction) reproduces every sample at its own k point (up to the accuracy of the spline solver for method=cubic), at every image of it under the symmetry it was given and, if periodic, at every translation by reciprocal lattice vectors, wherever the unit cell of the samples lies. Between the samples it is exact for functions the method spans (multilinear between neighbouring samples), and linear interpolation is invariant under operations that map the grid axes to each other. The result is independent of the order of the samples. The unstructured interpolator returns the sample within its distance and NaN elsewhere. "
     "The data handed in is not modified.",
     ["inputs", "configurations"],
     "every grid size, dimension, symmetry, periodicity flag, sample order and method in a menu, on a basis of grid functions",
     "One test interpolates one grid.",
     ["kpaths.py"], [("interpolate, interpolate_unstructured", "kpaths.py")], (), ["interpolant(k)"])

prop("C20", "Crystal construction and output parsing return what was specified",
     "Every lattice constructor returns lattice vectors with the specified lengths, angles and centring, and rejects invalid parameters; the mass density is the mass of the atoms divided by the cell volume in the chosen unit (for left handed and integer lattices too), and scaling to a density reaches it without touching other objects. "
     "Written input files state exactly the given lattice, atoms, k points, band count, cutoff and temperature, and file names with shell characters never reach a shell. "
     "Every quantity read back from calculation output (bands, k points, symmetries, Fermi energy, lattice, positions, cutoff, projections, plane wave coefficients, charge density) equals what the file states in the documented unit, for every band count, k-point count, spin component count and file order. In every sequence of calculations of several crystals in one folder each program gets input files that make it write where the matching reader looks, and what is read back is the last result of that crystal.",
     ["inputs", "configurations"],
     "every lattice constructor over a parameter grid, and generated output files over every small combination of counts and variants",
     "The interface has 12% coverage through one example file.",
     ["qespresso_interface.py"], [("lattice constructors, k_grid", "qespresso_interface.py"), ("QECrystal readers", "qespresso_interface.py")], (), ["return values", "written input files"])

prop("C21", "Linear-algebra helpers meet their definitions on every small input",
     "Generalised eigenvalues and vectors satisfy their equations with ascending real values and the overlap-orthonormal basis, direct sums and products have the block structure and multiply accordingly, and axis merging keeps element order, for every batch shape. "
     "Lattice points in a sphere are exactly the lattice vectors within the radius for every lattice basis, point-cloud distance and conjugate-gradient solving return the true distance and solution, and no helper modifies its arguments except the documented in-place one.",
     ["inputs"],
     "every matrix size 1-4 x batch shape x pattern (zero, degenerate, permuted, generic), and every lattice/radius in a menu compared with brute force",
     "No test calls these directly except one eigenvalue comparison.",
     ["linalg.py"], [("geigh, geigvalsh, direct_sum, kron, merge_axes", "linalg.py"), ("lattice_in_sphere, pointcloud_distance, conjugate_gradient_solve", "linalg.py")], (), ["return values"])

prop("C22", "Fitting never worsens an exact model or breaks requested structure",
     "An optimiser started at a model that reproduces the reference exactly leaves its bands unchanged, started close to it the reported loss does not increase, and bands with zero weight do not influence the result. "
     "Parameters that are fixed by options or by a symmetriser stay so: requested zeros stay zero, symmetrised models remain symmetric, neighbours never change, and the result has the reported loss.",
     ["inputs", "configurations"],
     "every optimiser x model kind x option combination in the menu on small exact fitting problems",
     "Two tests check that one loss decreases for one start.",
     ["tight_binding_asym.py", "bandstructure.py"], [("optimize, optimize_cg", "tight_binding_asym.py"), ("optimize, optimize_cg", "bandstructure.py")], (), ["bands(k)", "log.last_loss()"])

prop("C23", "A supercell describes the same crystal",
     "For every model and every non-singular integer supercell matrix, the supercell model has |det| times as many bands and at every k its bands are exactly the union of the original bands at all k that fold onto it, whatever the lattice basis (neighbours in the same units as the lattice vectors), the sign of the determinant, the range of the hoppings or an overlap matrix. "
     "The original model is left unchanged, and consecutive supercells compose.",
     ["inputs", "histories"],
     "every integer matrix with small entries and determinant up to a bound in dimension 1-3, each applied to several models in crystal and cartesian coordinates, and chains of two",
     "The free-electron test uses one diagonal supercell.",
     ["tight_binding_asym.py", "bandstructure.py"], [("supercell", "tight_binding_asym.py"), ("supercell", "bandstructure.py")], (), ["supercell(...).bands(k)"])

prop("C24", "Fermi surfaces are the level sets of exactly the crossing bands",
     "For any model, Fermi energy and sampling, fermi_surface returns, in band order, exactly the bands with samples on both sides of the Fermi energy, each with its index and its energies relative to it in the shape of the samples. "
     "The exported OBJ and MTL files hold one group per crossing band and are a valid mesh: faces only use existing vertices, materials are defined and found from the place of the file, the vertices on grid edges are exactly the linearly interpolated crossings (in grid steps), and the surface is closed apart from the border of the sampled range. "
     "The 3D plots show the same surfaces at the right place in k-space for every number of bands, and 2D cuts show for each cut position the level lines of exactly the crossing bands of each model (the accelerated variant the zero set of the determinant).",
     ["inputs", "configurations"],
     "models with 1-23 bands, sample counts, ranges, Fermi energies, all 256 sign patterns and all 6561 negative/zero/positive patterns of a cell, all plot options and lists of models in a finite menu",
     "No test imports the module; a missing band, a shifted surface or a file without its material looks plausible in a plot.",
     ["fermi_surface.py"],
     [("fermi_surface", "fermi_surface.py"), ("export_3D_fermi_surface", "fermi_surface.py"), ("plot_3D_fermi_surface_to_ax", "fermi_surface.py"), ("plot_2D_fermi_surface_to_ax", "fermi_surface.py")],
     (), ["returned fields", "OBJ/MTL files", "matplotlib artists"])

prop("C25", "Slater-Koster parameters are independent, complete and settable",
     "For a Hamiltonian symmetry of s, p and t2g orbitals (signed permutation representations), the parameters a Slater-Koster model lists are exactly independent coordinates of all symmetric coefficients, named by their orbitals and neighbour, and with real=True only those that may be real. "
     "Any sequence of parameter changes leaves each parameter at the last value it was set to, the others unchanged, and the model symmetric with the hermitian Fourier Hamiltonian of its coefficients. "
     "A model built from orbitals (cubic groups, one atom, s and p) is the Fourier sum of the two-centre integrals over all neighbours in range, whether these are given as functions, by distance or by vector and whichever representative of symmetric integrals is given.",
     ["inputs", "histories", "configurations"],
     "all groups of the menu x orbital lists x neighbour shells, every history of parameter changes up to a depth, and every lattice x group x range x orbital set x given integral x form of the integrals",
     "The module was never imported by a test (and could not be imported).",
     ["slater_koster.py", "hamiltonian_symmetry.py"],
     [("SlaterKoster.parameters", "slater_koster.py"), ("SlaterKoster.set_parameter", "slater_koster.py"), ("SlaterKoster.from_orbitals", "slater_koster.py")],
     (("model", "the tight binding model whose coefficients the parameters name", "slater_koster.py"),), ["parameters()", "model.params", "model.f(k)"])

prop("C26", "Models with a unitary representation obey it",
     "A TightBindingModel (trivial group or group with inversion) returns for every shape of k array the hermitian matrix its coefficients define, its complex coefficients are exactly the Fourier coefficients of that matrix, and setting complex coefficients gives the model they describe. "
     "Normalising it projects onto the matrices with H(Sk) = U H(k) U^+ for every operation including the inversion, and fitting keeps that symmetry, leaves an exact model as it is, keeps a fixed k=0 matrix and ignores bands of zero weight. "
     "A start model from reference bands has all reference energies at k=0. Copies are independent, and arguments are not modified.",
     ["inputs", "configurations"],
     "representations (trivial and with inversion, 1-3 dimensions) x neighbour shells x shapes of k arrays, fit options x band windows, orders of the reference levels and additional bands",
     "The tests only use this class with a trivial group and only compare bands.",
     ["tight_binding.py", "unitary_representations.py"],
     [("TightBindingModel.f, params_complex, set_from_complex", "tight_binding.py"), ("TightBindingModel.optimize", "tight_binding.py"), ("TightBindingModel.init_from_ref", "tight_binding.py")],
     (), ["f(k)", "bands(k)", "params_complex()"])

prop("C27", "Plots and optimisation logs show exactly the recorded data",
     "Every band plot draws one line per band with exactly the given energies over the given points, in the colour of its index in every repeated call, and passes the style on. The plot of computed bands consists of exactly the segments between consecutive points of each band, never joins bands or sections, and marks the Fermi energy and the symmetry points. "
     "The crystal plot contains exactly the atoms of each type inside the closed cell (or the given number of repetitions) at their Cartesian positions, the twelve edges of the cell and the lattice vectors with their labels, for every lattice, and modifies nothing. "
     "In every history of entries, messages, counting, aborts and plots the optimisation log records exactly what was added, aborts at most once, and plots the recorded losses.",
     ["inputs", "histories"],
     "samplings x bands x dimensions x styles x repeated calls, sections of band paths, lattices x bases x repetitions, and all histories of log operations up to a depth",
     "No test reads a plot back.",
     ["bandstructure.py", "qespresso_interface.py", "logger.py"],
     [("plot_bands_generic, BandStructureModel.plot_bands", "bandstructure.py"), ("QECrystal.plot_crystal, plot_bands, plot_wannier_bands", "qespresso_interface.py"), ("OptimisationLogger", "logger.py")],
     (("log", "iterations, losses and messages of a fit", "logger.py"),), ["artists of the matplotlib axes", "iterations, loss, stream"])

prop("C28", "Physical results do not depend on how the crystal is described",
     "The same crystal can be described with rotated, mirrored or differently labelled axes, in other units of length and energy, with another zero of energy, reordered or duplicated bands, normalised or not, with additional zero coefficients, as a supercell, or after saving and loading in any format and model class. "
     "After every sequence of such changes of the description, the bands at the same physical k, the band ranges, band gap, Fermi energy, states below and density at every energy, chemical potentials, total energy and heat capacity are the same up to the factor or shift the change implies, "
     "and the Fermi surface area, transport coefficients, conductivity and Hall tensor transform as tensors with the right power of the units (the Hall tensor as a pseudo tensor). For supercells, the bands are exactly those of the original crystal at all k which fold onto the same point.",
     ["inputs", "configurations", "histories"],
     "every sequence of 15 changes of the description up to a depth, for several lattices, band counts, electron counts, kinds of smearing and with an overlap",
     "The tests use one description per crystal, so a result which depends on the axes, the units or the zero of energy passes.",
     ["density_of_states.py", "bulk_properties.py", "tight_binding_asym.py", "bandstructure.py"],
     [("DensityOfStates", "density_of_states.py"), ("KIntegral.transport_coefficients, conductivity_hall_tensor", "bulk_properties.py"), ("AsymTightBindingModel", "tight_binding_asym.py"), ("BandStructureModel", "bandstructure.py")],
     (), ["energy_range()", "bandgap()", "fermi_energy()", "states_below()", "density()", "chemical_potential()", "energy()", "heat_capacity()", "transport_coefficients(A)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
