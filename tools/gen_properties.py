#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "The discretised wave operator is exactly the Maxwell operator",
 "For every lattice, wavevector, grid size, band count and positive-definite dielectric tensor distribution (and permeability, when one is given), the operator applied to a set of bands is the planewave discretisation of curl (1/eps) curl, sandwiched between transverse projections of 1/mu when a permeability is present. It is linear, Hermitian and positive semi-definite, gives the same answer for a band whether bands are processed singly or in blocks, and never touches memory outside its own arrays. The 1/mu metric and the curl used for group velocities likewise equal their definitions, and the preconditioners are Hermitian and positive definite.",
 ["inputs", "configurations"], "all lattices, k, 1-3D grids (even/odd, unequal sizes), eps/mu tensor fields, numbers of bands and FFT batch sizes, in the complex, inversion-symmetric and Hermitian-epsilon builds",
 "maxwell_test compares one lattice and one diagonal dielectric against itself; it never compares the operator against an independent dense discretisation, nor with tensor/Hermitian eps, mu or oblique lattices.",
 ["src/maxwell/maxwell_op.c", "src/maxwell/maxwell.c", "src/maxwell/maxwell_pre.c", "src/maxwell/xyz_loop.h", "src/maxwell/imaxwell.h"],
 [("curl in the transverse basis", "src/maxwell/maxwell_op.c"), ("planewave set-up and m,n bases", "src/maxwell/maxwell.c update_maxwell_data_k"), ("real/complex FFT glue", "src/maxwell/maxwell_op.c maxwell_compute_fft")],
 ["result vectors of the operator entry points of the Maxwell library"])

prop("P02", "The iterative solver returns the true lowest bands",
 "For every structure and wavevector, from generic starting fields, the computed frequencies are the lowest eigenfrequencies of the discretised problem, in ascending order and with none missing or repeated beyond its multiplicity, to within the requested tolerance. The accompanying modes are orthonormal eigenvectors of the discretised operator. The result does not depend on the solver settings (block size, restart and reset intervals, preconditioner, conjugate-gradient versus Davidson, line minimisation variants, starting vectors).",
 ["inputs", "configurations"], "all random structures, k-points (including zero), band counts, solver flags, block sizes, Davidson workspace sizes and random starting vectors",
 "check.ctl compares a few fixed structures under the default solver configuration against stored numbers; eigs_test runs a random dense matrix with one flag set; other combinations and structures are never compared with a dense diagonalisation.",
 ["src/matrices/eigensolver.c", "src/matrices/eigensolver_davidson.c", "src/matrices/eigensolver_utils.c", "src/matrices/linmin.c", "src/maxwell/maxwell_pre.c", "src/maxwell/maxwell_constraints.c", "mpb/mpb.c"],
 [("block CG on the trace", "src/matrices/eigensolver.c"), ("Davidson", "src/matrices/eigensolver_davidson.c"), ("blocked solution with deflation", "mpb/mpb.c solve_kpoint")],
 ["frequencies printed and returned by the program", "eigenvectors returned by the library"])

prop("P03", "Targeted solving returns the bands nearest the target frequency",
 "When a target frequency is set and the iteration converges, the returned bands are those of the discretised problem whose eigenvalues are closest to the target (by the documented squared-distance measure), sorted by frequency within each block of bands solved at a time and reported with their true frequencies. The modes are true eigenvectors and fields computed from them obey the same normalisation as in an ordinary solve. Returning the target to zero restores the lowest bands.",
 ["inputs", "configurations"], "all structures, k-points, band counts and target frequencies that are separated from the spectrum gaps' midpoints",
 "No test uses target-freq except one fixed case; the choice of bands depends on the spectrum.",
 ["src/maxwell/maxwell_op.c", "src/maxwell/maxwell_pre.c", "mpb/mpb.c"],
 [("squared shifted operator", "src/maxwell/maxwell_op.c maxwell_target_operator"), ("post-diagonalisation to true frequencies", "mpb/mpb.c solve_kpoint")],
 ["frequencies printed and returned by the program"])

prop("P04", "Symmetry-constrained runs return exactly the bands of that symmetry",
 "For a structure with a z or y mirror plane, a run restricted to a parity (TE, TM, z-even, z-odd, y-even, y-odd or their combinations) returns precisely the lowest bands of that parity, and the union over complementary parities reproduces the unrestricted spectrum. The parity reported for a mode is its true expectation value under the mirror, within [-1,1], and plus or minus one inside a restricted run. Switching parities between runs leaves no residue of the previous one.",
 ["inputs", "histories"], "all mirror-symmetric structures in 2D and 3D, k in the mirror plane, parity combinations and sequences of runs",
 "check.ctl tests a handful of TE/TM/zeven cases with stored frequencies; completeness of the sectors and the parity of arbitrary modes is not compared with anything independent.",
 ["src/maxwell/maxwell_constraints.c", "mpb/mpb.c", "mpb/mpb.scm.in"],
 [("parity projections", "src/maxwell/maxwell_constraints.c"), ("run-te / run-zeven etc.", "mpb/mpb.scm.in")],
 ["frequencies, zparity/yparity lines and returned parities"])

prop("P05", "The grid dielectric is a faithful sub-pixel average of the geometry",
 "For every geometry the effective tensor in each grid cell is Hermitian positive definite, lies between the harmonic and arithmetic means of the materials in that cell, reproduces homogeneous cells exactly and flat interfaces by their analytic anisotropic mean, and its stored inverse is its inverse. The average transforms covariantly under permutations, mirror operations and translations of the cell by whole pixels, the object order in the list decides precedence, and the reported epsilon is consistent across reading at a point, writing to file and field functions. Materials, permeabilities and material functions may all be anisotropic.",
 ["inputs", "configurations"], "all geometries, material tensors, lattices, resolutions and mesh sizes",
 "check.ctl checks frequencies of a few structures to 1e-3; an averaging error at the sub-percent level or only for some orientations/tensors goes through.",
 ["src/maxwell/maxwell_eps.c", "src/maxwell/maxwell.h", "mpb/medium.c", "mpb/epsilon.c", "src/util/sphere-quad.c"],
 [("Kottke / mean averaging over the mesh", "src/maxwell/maxwell_eps.c"), ("analytic object averaging", "mpb/medium.c mean_epsilon_func")],
 ["stored inverse tensors", "epsilon output files", "get-epsilon-point, get-epsilon-inverse-tensor-point"])

prop("P06", "Reported fields solve Maxwell's equations and are normalised",
 "For every band the D, E, H and B fields are mutually consistent: E is the local inverse-epsilon times D, H the inverse-mu times B, curl H gives D and curl E gives B with the band's frequency, and B and D are divergence free. The electric energy equals the magnetic energy and the energy density integrates to one over the cell; the reported per-component fractions, energy in objects or dielectric ranges, Poynting vectors and field integrals equal those computed from the fields. Field values at any point, including outside the first cell, are the Bloch-periodic multilinear interpolation of the grid values.",
 ["inputs", "configurations"], "all structures, k, bands, resolutions, 1-3D, with and without permeability, all field kinds, in every build variant",
 "check.ctl integrates a few energies on two structures; no test evaluates field equations, Bloch phases or interpolation at arbitrary points.",
 ["mpb/fields.c", "mpb/field-smob.c", "src/maxwell/maxwell_op.c", "mpb/mpb.scm.in"],
 [("field reconstruction and normalisation", "mpb/fields.c"), ("field objects and integration", "mpb/field-smob.c")],
 ["field values returned by point queries, HDF5 output, flux/energy printed lines"])

prop("P07", "Group velocities are the derivatives of the bands",
 "For every non-degenerate band the reported group velocity vector equals the derivative of its frequency with respect to the Cartesian wavevector, its components along any direction agree with the directional query, and it equals the ratio of the mode's time-average flux to its energy. This holds with anisotropic dielectrics and permeabilities, with and without parity constraints, for one band or all.",
 ["inputs"], "all structures, k and bands away from degeneracies",
 "check.ctl compares group velocities with stored numbers at two points; not with the derivative.",
 ["mpb/fields.c", "src/maxwell/maxwell_op.c", "mpb/mpb.c", "mpb/mpb.scm.in"],
 [("Hellmann-Feynman via the curl operator", "mpb/mpb.c compute_group_velocity_component")],
 ["velocity lines and returned vectors"])

prop("P08", "The inversion-symmetric build agrees with the general build",
 "For every structure with inversion symmetry, the inversion-symmetric executable returns the same frequencies, group velocities, field energies, fluxes, tensors and fields (up to one phase per band, or a rotation in degenerate groups) as the general executable, at every grid point, in files, at interpolated points and in integrals. Likewise the Hermitian-epsilon build agrees with the others on real-symmetric dielectrics.",
 ["inputs", "configurations"], "all inversion-symmetric structures, k, resolutions and output functions, across the three serial builds",
 "The test-suite runs each build against the same stored numbers with loose tolerance for a few quantities; the half-grid bookkeeping for odd/even sizes, outputs and integrals is never compared.",
 ["mpb/fields.c", "mpb/field-smob.c", "src/maxwell/maxwell_op.c", "src/maxwell/xyz_loop.h", "src/matrixio/fieldio.c", "src/maxwell/maxwell_eps.c"],
 [("half-complex storage and reconstruction of the other half", "mpb/fields.c, src/maxwell/xyz_loop.h")],
 ["program output and HDF5 files of the executables"])

prop("P09", "Results do not depend on the number of parallel processes",
 "For every problem and number of processes, including more processes than grid planes, a parallel run completes and reports the same frequencies, energies, velocities, epsilon statistics, point values and files as the serial program, up to the arbitrary phase of modes. Field and epsilon files have the same content and are readable by the serial program and vice versa. No process reads or writes outside its own share of the data.",
 ["inputs", "configurations", "schedules"], "all problems and process counts from 1 up",
 "The suite runs check.ctl only with two processes and loose tolerance; uneven and empty distributions are never run.",
 ["src/util/mpi_utils.c", "src/matrices/evectmatrix.c", "src/matrices/sqmatrix.c", "src/maxwell/maxwell.c", "src/maxwell/maxwell_op.c", "src/matrixio/matrixio.c", "src/matrixio/fieldio.c", "mpb/fields.c", "mpb/mpb.c"],
 [("slab distribution of FFT data", "src/maxwell/maxwell.c create_maxwell_data"), ("reductions", "src/util/mpiglue.h users"), ("parallel file I/O with exclusive sections", "src/matrixio/matrixio.c")],
 ["program output and HDF5 files under mpirun"])

prop("P10", "Computed bands respect the exact invariances of the problem",
 "Frequencies are unchanged by reversing k, by scaling out a constant dielectric factor (as its inverse square root), by rotating or relabelling the coordinate axes together with the structure, by translating the structure by whole pixels, and by exchanging epsilon and mu. A supercell reproduces the folded bands of the primitive cell, and a homogeneous medium gives the analytic dispersion for every polarisation.",
 ["inputs"], "all structures, lattices, k",
 "The tests compare single configurations with stored results; invariances relate pairs of runs.",
 ["src/maxwell/maxwell.c", "src/maxwell/maxwell_op.c", "src/maxwell/maxwell_eps.c", "mpb/mpb.c", "mpb/medium.c"],
 [("metric from lattice vectors", "mpb/mpb.c init_params"), ("k+G tables", "src/maxwell/maxwell.c")],
 ["frequencies printed and returned by the program"])

prop("P11", "Saving and reloading data loses nothing",
 "Eigenvectors written to a file and read back (whole or for a range of bands) are bit-for-bit the same modes; a field copied and loaded back gives the same values and the same files; complex fields in files carry the documented component names, grid size, lattice vectors, wavevector and Bloch phase. A dielectric read from a file in place of the geometry equals the documented interpolation of that file. Files that are missing, truncated or of the wrong rank or size are rejected with a message rather than crashing or yielding garbage.",
 ["inputs", "histories", "fault_sequences"], "all grids, band ranges, field kinds, file names, dataset layouts and malformed inputs",
 "check.ctl never reads a file back.",
 ["src/matrixio/matrixio.c", "src/matrixio/fieldio.c", "src/matrixio/evectmatrixio.c", "mpb/fields.c", "mpb/mpb.c", "mpb/epsilon_file.c", "mpb/matrix-smob.c", "mpb/field-smob.c"],
 [("HDF5 hyperslab I/O", "src/matrixio/matrixio.c"), ("save/load of eigenvectors", "mpb/mpb.c, mpb/matrix-smob.c"), ("epsilon file interpolation", "mpb/epsilon_file.c")],
 ["HDF5 files", "values after reload"])

prop("P12", "The data post-processor resamples faithfully",
 "For every input file and combination of options (rectangular cell, resolution, repetitions, phase, axis, transpose, single dataset, output file) the post-processing tool's output at each grid point equals the documented trilinear Bloch-periodic interpolation of the input at the corresponding point, with vector components rotated and complex data multiplied by the Bloch phase. Datasets that are not transformed are untouched, and an input the tool does not understand is refused without memory errors.",
 ["inputs", "configurations"], "all lattices, grid sizes, datasets, k vectors and option combinations",
 "The tool has no test at all.",
 ["utils/mpb-data.c", "src/matrixio/matrixio.c"],
 [("coordinate map and interpolation", "utils/mpb-data.c handle_dataset, add_cmplx_times_phase")],
 ["HDF5 output of the tool"])

prop("P13", "Band summaries, ranges and gaps agree with the computed frequencies",
 "The frequency table printed for each wavevector, the per-band minima and maxima with the k-points at which they occur, the list of gaps with their percentages, and the values returned to the user's program all describe the same frequencies, one entry per band per k-point in the given order. Gaps are exactly the intervals between the running maximum of a band and the running minimum of the next when positive. Gap retrieval by band and output gating functions (callbacks per k-point and band) are invoked once per k-point or band in order.",
 ["inputs", "histories"], "all k-point lists, band counts, parities, repeated runs and callbacks",
 "check.ctl checks the final freq list; the printed text and gap arithmetic is not checked against the frequencies.",
 ["mpb/mpb.scm.in", "mpb/mpb.c", "mpb/fields.c"],
 [("run-parity loop", "mpb/mpb.scm.in"), ("gap computation", "mpb/mpb.scm.in output-gaps")],
 ["standard output", "values of exported variables"])

prop("P14", "Wavevector utilities are exact",
 "Splitting a k-point list over jobs covers each k-point exactly once and in order, through the program option and through the splitting script; mapping a wavevector to the first Brillouin zone returns an equivalent vector of minimal length; converting between bases is invertible. Searching for the wavevector at a given frequency returns, for each requested band, a k at which a direct solve gives that frequency.",
 ["inputs", "configurations"], "all k-lists, numbers of splits, lattices, vectors, bands and frequencies",
 "check.ctl runs one find-k; splitting is never tested.",
 ["mpb/mpb.scm.in", "mpb/mpb-split-preinstall.in", "mpb/mpb.c"],
 [("k-split", "mpb/mpb.scm.in k-split"), ("first Brillouin zone", "mpb/mpb.scm.in first-brillouin-zone"), ("find-k", "mpb/mpb.scm.in find-k")],
 ["printed frequencies", "returned vectors"])

prop("P15", "Material grids are consistent: values, derivatives and optimisation",
 "A material grid placed by an object (or used as the default material) yields at each point the multilinear interpolation of its values, spread over the object (or the unit cell) and mirrored at its edges, between its two materials, combined over overlapping compatible grids by the chosen rule (minimum, product, mean). The reported derivatives of frequencies and of epsilon with respect to grid values equal finite differences. Saving and loading grids preserves the values, loading another file interpolates it, randomising moves values by at most the noise, reflected into [0,1]; all processes hold the same values. The optimisers respect the bounds 0..1, report the value that their final grids really have, never end worse than they started, and matching a given dielectric function reaches the best match where that is a linear problem. All of this holds equally in the inversion-symmetric and the parallel programs.",
 ["inputs", "histories"], "all grid sizes, overlaps, materials, rules and values",
 "No test uses material grids.",
 ["mpb/material_grid.c", "mpb/material_grid_opt.c", "mpb/epsilon.c", "mpb/medium.c"],
 [("grid interpolation and combination", "mpb/material_grid.c matgrid_val"), ("gradient", "mpb/material_grid.c material_grids_addgradient")],
 ["epsilon at points, gradients and frequencies from the program"])

prop("P16", "Symmetry characters of modes are their true overlaps",
 "For every symmetry operation {W|w} of the structure and non-degenerate band at a k-point invariant under it, the reported symmetry character is the overlap of the mode with its transformed self: unit modulus, multiplicative under composition, +1 for the identity, equal to the reported mirror parity for mirrors, and independent of the field kind used (apart from the axial/polar sign). For a degenerate group the sum over the group is invariant under changes of basis.",
 ["inputs"], "all symmetric structures, operations, k-points and bands",
 "check.ctl checks two operations on one structure, and this is not available in the inversion build.",
 ["mpb/transform.c", "mpb/fields.c"],
 [("transformed overlap", "mpb/transform.c")],
 ["returned overlaps"])

prop("P17", "No user program can corrupt memory",
 "Any sequence of calls to the user-level interface, in any order and with any arguments of the right type (before initialisation, out-of-range bands or indices, wrong field kinds, repeated initialisation with changed sizes, objects outliving the run), either does what is documented or stops with an error message. It never reads or writes outside allocated memory, uses freed or uninitialised objects, or executes undefined arithmetic, and a failed call leaves the program able to continue.",
 ["programs", "histories", "inputs"], "all sequences of interface calls",
 "The tests follow one fixed, correct call order.",
 ["mpb/mpb.c", "mpb/fields.c", "mpb/field-smob.c", "mpb/matrix-smob.c", "mpb/transform.c", "mpb/material_grid.c", "mpb/epsilon.c", "mpb/medium.c", "src/matrices/evectmatrix.c"],
 [("state checks at entry", "mpb/*.c"), ("reallocation on parameter change", "mpb/mpb.c init_params")],
 ["exit status and sanitizer reports of the executables"])

prop("P18", "Matrix kernels equal their mathematical definitions",
 "Every matrix and band-set operation (products with and without conjugation, scaled sums, traces, traces of products, inverses, square roots, eigen-decompositions, copies and slices, resizing the number of active bands) returns the mathematical result for every shape, sub-block, stride and alignment, including empty and single-column sets. Inputs declared read-only are unchanged and nothing outside the declared block is written. Singular input is reported, not silently inverted.",
 ["inputs", "configurations"], "all shapes, strides, sub-blocks, values, in real and complex scalar builds",
 "blastest uses one 5x5 complex matrix per operation and prints for inspection.",
 ["src/matrices/blasglue.c", "src/matrices/sqmatrix.c", "src/matrices/evectmatrix.c", "src/matrices/matrices.c", "src/matrices/scalar.h"],
 [("BLAS/LAPACK glue", "src/matrices/blasglue.c")],
 ["results of the matrix library entry points"])

prop("P19", "Results depend only on the current inputs, not on history",
 "Running the same problem again in the same session, after other problems with different sizes, materials, permeabilities, parities, targets, solver settings or k-points, gives the same results to within tolerance as running it alone in a fresh session. With a fixed random seed two identical sessions produce identical results. Querying fields, energies or symmetries between runs does not alter later results.",
 ["histories", "inputs"], "all sequences of runs, parameter changes and field queries in one session",
 "check.ctl is one fixed sequence; it never compares a history with a fresh session.",
 ["mpb/mpb.c", "mpb/mpb.scm.in", "mpb/fields.c", "src/maxwell/maxwell.c"],
 [("re-initialisation", "mpb/mpb.c init_params"), ("shared field buffer and its invalidation", "mpb/fields.c curfield_reset")],
 ["frequencies and field quantities of later runs"])

prop("P20", "Eigenvector-level operations are exact",
 "Retrieving, replacing, scaling, combining and taking inner products of eigenvectors act exactly on the selected range of bands and no other; inner products between saved and current sets equal the sums over planewave coefficients, weighted by the permeability where it applies. Phase fixing changes a mode by a unit phase only and makes it canonical. The dominant planewave reported for a band is the reciprocal vector with the largest amplitude, and initialising a mode from a planewave yields that planewave's polarised state.",
 ["inputs", "histories"], "all band ranges, sets, scale factors and structures",
 "check.ctl uses a few of these calls on one structure.",
 ["mpb/mpb.c", "mpb/matrix-smob.c", "mpb/fields.c", "src/maxwell/maxwell.c", "src/maxwell/maxwell_op.c", "src/matrices/evectmatrix.c"],
 [("eigenvector slices", "src/matrices/matrices.c evectmatrix_copy_slice"), ("phase fixing", "mpb/fields.c fix_field_phase"), ("planewave functions", "src/maxwell/maxwell.c maxwell_dominant_planewave")],
 ["saved eigenvectors, returned matrices and vectors"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
