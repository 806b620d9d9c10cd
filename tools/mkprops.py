#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

MX="src/maxwell/"; MT="src/matrices/"; MB="mpb/"

p("P01","The Maxwell operator is exactly curl (1/eps) curl, Hermitian and semidefinite",
"For every wavevector, every dielectric (and magnetic) tensor field on the grid and every set of transverse plane-wave vectors, applying the eigenproblem operator (and the 1/mu operator) gives the discretised curl eps^-1 curl (respectively transverse mu^-1), i.e. the composition of plane-wave expansion, the point-by-point tensor product and the transverse projection. The result is linear, Hermitian, and its quadratic form equals the eps^-1-weighted energy, so it is non-negative when the tensors are.",
["inputs","configurations"],"all tensor fields, fields, transverse frames and k; 1d/2d/3d grids; real (inversion-symmetric), complex and Hermitian-tensor builds; with and without mu",
"The tests compare a handful of eigenvalues of a few structures against stored numbers with loose tolerances; they cannot exclude an error confined to off-diagonal tensors, imaginary tensor parts, odd grids, or one field component.",
[MX+"maxwell_op.c",MX+"maxwell.c",MX+"maxwell.h"],
[("maxwell_operator / maxwell_muinv_operator",MX+"maxwell_op.c"),("maxwell_compute_d_from_H, _e_from_d_, _H_from_e",MX+"maxwell_op.c"),("assign_symmatrix_vector",MX+"maxwell_op.c")],
["maxwell_operator(X) output","frequencies"])

p("P02","Each plane wave has the right k+G and an orthonormal transverse frame",
"For every wavevector and every reciprocal lattice, each stored plane wave carries |k+G| for its own G, and two unit polarization vectors orthogonal to each other and to k+G that form a right-handed frame with it. The reciprocal-lattice vectors used along an axis of n points are exactly one representative of each residue nearest zero, so for odd n the set is closed under negation (for even n the edge wave is taken on one side). At k = 0 the null vector is recognised and gets the fixed y/z frame.",
["inputs","configurations"],"all real k and (nonsingular) reciprocal lattices; all grid sizes up to the bound, even and odd; 1d/2d/3d",
"Tests use a few k points on even grids; an axis-aligned or near-axis k+G, an odd grid, or a lattice where a special branch is taken is never compared against the definition.",
[MX+"maxwell.c",MX+"maxwell.h"],
[("update_maxwell_data_k / compute_cross",MX+"maxwell.c")],["mdata->k_plus_G","frequencies at k and -k"])

p("P03","Results do not depend on how bands are batched",
"Applying the operators, computing fields, magnetic-field conversions and group velocities gives the same result for a band whether the bands are transformed one at a time, all at once, or in any intermediate batch size, and regardless of which transforms were performed before on the same data object.",
["inputs","histories","configurations"],"all fields and tensors; every (number of bands, batch size) up to the bound; every order of earlier transforms with other batch sizes",
"Tests use a single batch size per structure (band counts happen to be multiples of, or below, the default batch).",
[MX+"maxwell_op.c",MX+"maxwell.c","mpb/mpb.c"],
[("num_fft_bands / cur_num_bands loops",MX+"maxwell_op.c"),("FFT plan cache",MX+"maxwell_op.c:maxwell_compute_fft"),("maxwell_set_num_bands",MX+"maxwell.c")],
["operator output for each band"])

p("P04","Group velocity is the exact Hellmann-Feynman expression",
"For every direction, the reported group velocity of a band is the real part of the cell average of E-times-H, that is Re<u x H | 1/eps | (k+G) x H>/frequency with u the unit vector along the direction (H being 1/mu times B), which is the k-derivative of the band's frequency. Its length does not depend on the length of the direction given, it is zero for zero-frequency bands, and computing it leaves the eigenvectors unchanged.",
["inputs","configurations"],"all k, frames, tensor fields, eigenvectors, directions and lattices within grid bounds",
"Tests print group velocities for one lattice; a wrong factor in one component, in the mu branch or in the reciprocal conversion is outside them.",
[MX+"maxwell_op.c","mpb/mpb.c"],
[("maxwell_ucross_op",MX+"maxwell_op.c"),("compute_group_velocity_component, compute_1_group_velocity(_reciprocal)","mpb/mpb.c")],
["compute-group-velocities output"])

p("P05","Parity constraints are exact projectors; parities are exact expectations",
"The even/odd y and z parity constraints are idempotent Hermitian projectors whose even and odd parts sum to the identity; they implement reflection of the magnetic (pseudo)vector field about the y=0 or z=0 plane, and on grids without an unpaired edge wave they commute with the Maxwell operator for every mirror-symmetric structure. The reported parity of a state is the normalized expectation value of that reflection: always within [-1,1], and exactly +1 / -1 on projected states.",
["inputs","configurations"],"all fields; all k compatible with the parity; 2d and 3d grids, even and odd sizes; real and complex builds; distributed and serial layouts",
"Tests check parities of a few modes of one lattice; projector algebra on arbitrary fields and odd or non-cubic grids is not covered.",
[MX+"maxwell_constraints.c",MX+"maxwell.c"],
[("maxwell_zparity/yparity_constraint",MX+"maxwell_constraints.c"),("maxwell_zparity/yparity",MX+"maxwell_constraints.c"),("set_maxwell_data_parity",MX+"maxwell.c")],
["run-te/run-tm/run-yeven results","display-zparities"])

p("P06","A parity is honoured only when the wavevector and grid allow it",
"A requested y or z parity is retained exactly while the Cartesian component of k along that axis is zero and is otherwise dropped (and stays dropped when k changes again), contradictory even-and-odd requests on one axis are dropped, and in two-dimensional calculations z-even/z-odd fields are exactly TE/TM (magnetic field purely along z, respectively purely in plane). This holds after every sequence of wavevector updates and parity requests.",
["inputs","histories"],"all k, parity masks and sequences of k updates and parity changes",
"Tests never request a parity for an incompatible k.",
[MX+"maxwell.c",MX+"maxwell_constraints.c"],
[("set_maxwell_data_parity, update_maxwell_data_k",MX+"maxwell.c"),("maxwell_parity_constraint",MX+"maxwell_constraints.c")])

p("P07","Zero-frequency states at k=0 are handled exactly and kept out of the solver",
"In non-magnetic structures at k = 0 the constant-field states inserted by the program are exact zero-eigenvalue states consistent with the selected parity (and their number matches the parity), and the constraint applied while solving removes exactly the constant component and leaves everything else untouched. Inserting the constant states leaves all other bands untouched.",
["inputs","configurations"],"all fields, all parities, 1d/2d/3d grids, band counts below and above the number of constant bands",
"Only the number of zero frequencies at Gamma of a few structures is tested; a wrong parity choice or a partially removed component would still converge in tests.",
[MX+"maxwell_constraints.c"],
[("maxwell_zero_k_constraint / _num_const_bands / _set_const_bands",MX+"maxwell_constraints.c")])

p("P08","Preconditioners are Hermitian, positive, finite and act band by band",
"Both preconditioners (plain and for targeted frequency) act as linear, Hermitian, positive semidefinite approximate inverses on every field, treat each band independently of the others, never divide by zero (including at k = 0), and the full preconditioner is an exact inverse of the operator in a homogeneous isotropic medium up to the documented scalar.",
["inputs","configurations"],"all fields, tensors, k (including 0), eigenvalue shifts, batch sizes",
"Preconditioner mistakes change only convergence speed in tests (or loss of definiteness for rare inputs).",
[MX+"maxwell_pre.c"],[("maxwell_preconditioner, maxwell_preconditioner2, target variants",MX+"maxwell_pre.c")])

p("P09","The targeted operator is exactly (A - w0^2)^2",
"The operator used to find bands near a target frequency equals the Maxwell operator minus the squared target frequency, applied twice, for every field, so its eigenvectors are those of the Maxwell operator and its eigenvalues the squared distance to the target.",
["inputs"],"all fields, tensors and target frequencies within bounds","The target solver is used in one structure only.",
[MX+"maxwell_op.c"],[("maxwell_target_operator(1)",MX+"maxwell_op.c")])

p("P10","3x3 tensor algebra is exact: inverse, definiteness test, rotation",
"The inverse of every invertible real-symmetric or Hermitian 3x3 tensor is its exact inverse, a tensor is reported positive definite exactly when its quadratic form is positive for all nonzero vectors, and rotating a tensor preserves Hermiticity, trace and determinant and equals R^T A R for an orthonormal rotation whose first axis is the requested direction.",
["inputs"],"all tensor entries and directions (reals), real and Hermitian builds","Tests only meet diagonal or weakly anisotropic tensors of a few values.",
[MX+"maxwell_eps.c"],[("maxwell_sym_matrix_invert, _positive_definite, _rotate",MX+"maxwell_eps.c"),("rotation matrix in averaging",MX+"maxwell_eps.c")])

p("P11","Effective dielectric tensors obey the interface averaging law",
"A grid cell lying in one uniform material gets exactly the inverse of that material's tensor; a cell cut by an interface gets the tensor with harmonic averaging along the interface normal and arithmetic averaging in the plane for isotropic materials (and the corresponding field-continuity average for anisotropic ones); every effective tensor is Hermitian, lies between the inverse tensors of the constituents, and does not depend on which of two materials is listed first or on the sign of the normal.",
["inputs","configurations"],"all pairs of isotropic / anisotropic material tensors, fill fractions and interface normals within the stated bounds; 1d/2d/3d grids; mesh sizes within bounds",
"Tests compare frequencies to a few digits for a few structures; rotation-convention or averaging mistakes for oblique normals or anisotropic media are invisible.",
[MX+"maxwell_eps.c"],[("set_maxwell_dielectric / set_maxwell_mu averaging",MX+"maxwell_eps.c"),("Kottke average with mean-epsilon function",MX+"maxwell_eps.c")],
["mdata->eps_inv","output-epsilon"])

p("P12","Every grid point is initialised once, at its own coordinates",
"Building the dielectric (or permeability) grid evaluates the user's function for each grid point exactly at that point's position in the cell (mesh points within that point's pixel) and stores the result in that point's element, in serial and inversion-symmetric layouts, for every grid size.",
["inputs","configurations"],"all grid sizes and mesh sizes within bounds; real/complex builds; 1..3 processes",
"Tests use even cubic/square grids on 1 process or 2.",
[MX+"maxwell_eps.c",MX+"xyz_loop.h"],[("LOOP_XYZ",MX+"xyz_loop.h"),("set_maxwell_dielectric",MX+"maxwell_eps.c")])

p("P13","Invalid dielectrics are rejected and valid ones are not",
"A structure whose dielectric tensor is not positive definite at some grid point (unless negative epsilon is explicitly allowed), or which couples the xy plane to z in a TE/TM calculation, is rejected, and every structure free of these defects is accepted, wherever the offending point is on the grid and whichever process owns it.",
["inputs"],"all tensor fields within bounds, every position of the offending point, every parity",
"No test has an invalid dielectric.",
[MX+"maxwell_eps.c","mpb/mpb.c"],[("check_maxwell_dielectric",MX+"maxwell_eps.c")])

p("P14","Material definitions map to the right tensor",
"At every point the dielectric and permeability tensors are exactly those of the material defined there by the objects, the default material or the files: scalars, anisotropic diagonals and off-diagonals (conjugated below the diagonal), material functions followed to their result, material grids interpolating between their two media (combined over the overlapping grids), with the imaginary off-diagonals refused by builds that cannot represent them, and file data replacing the default material only outside objects. A pixel whose neighbourhood holds exactly two materials separated by one surface gets the covered-fraction average of the two with respect to the surface normal, independently of the order in which neighbours are visited, and any other mixed pixel gets the average over the mesh. The permeability is set up if and only if some material, an option or a file can make it differ from 1.",
["inputs"],"every parameter of one or two materials, the covered fraction and one coordinate, within each arrangement of materials and objects","Tests sample a few constant materials.",
["mpb/medium.c","mpb/epsilon.c","mpb/material_grid.c"],[("epsilon_material / material_epsmu","mpb/epsilon.c"),("material_has_mu/has_mu","mpb/medium.c")])

p("P15","Reported epsilon and tensor components describe the stored dielectric",
"The scalar epsilon (or mu) field offered for output is, at every grid point, the inverse of the mean of the two smallest principal values of the stored inverse tensor (mu is 1 everywhere if no material has mu), and the printed figures (smallest, largest, mean, harmonic mean, percentage above 1, fill fraction) are those of this field over the full cell. The exported tensor components are the real or imaginary part of exactly the requested component of the stored inverse tensor or of its inverse.",
["inputs"],"all stored inverse tensors; all component pairs, real/imag, inverse or not; all storage layouts","No test inspects exported tensor components.",
["mpb/epsilon.c","mpb/fields.c"],[("get_epsilon / get_epsilon_tensor","mpb/epsilon.c"),("mean_medium_from_matrix, interp_eps_inv","mpb/fields.c")])

p("P16","Fields derived from an eigenvector satisfy Maxwell's equations pointwise",
"For every eigenvector, tensor field and k: the D field offered is -(k+G)xH/(frequency) in the plane-wave sense (with division by 1 for a zero frequency), E is the inverse dielectric tensor times D, B is the eigenvector itself and H the inverse permeability times B, in the documented normalization and at every grid point. The computed divergence of a field is i(k+G) dot the field, so B and D are divergence-free. Requests for bands that do not exist leave the loaded field alone, and computing fields leaves the eigenvectors unchanged.",
["inputs","configurations"],"all eigenvectors, tensors, k, volumes within grid bounds; with/without mu; all builds",
"Tests check a handful of frequencies and energies, never field relations pointwise.",
["mpb/fields.c",MX+"maxwell_op.c"],[("get_dfield/get_hfield/get_bfield/get_efield_from_dfield","mpb/fields.c"),("compute_field_divergence","mpb/fields.c")])

p("P17","Energy statistics are exact sums over the whole cell",
"The energy density is at each point the field dotted with the conjugate of its dual (inverse tensor times field), the reported total is its sum over the entire cell times the volume element, and the six component shares are those of the component sums and add up to one. The energies reported inside dielectric ranges or object lists are the sums over exactly the qualifying points of the full cell, and squaring a field gives the squared magnitude at each point.",
["inputs","configurations"],"all fields and tensors on grids within bounds; even and odd sizes; inversion-symmetric (half-stored), complex, distributed",
"Tests compare total energies for a few cases; half-grid double counting for odd or 1d/2d grids is not exercised.",
["mpb/fields.c"],[("compute_field_energy, compute_energy_in_dielectric, compute_energy_in_object_list","mpb/fields.c")])

p("P18","Point queries interpolate periodically and carry the Bloch phase",
"Querying epsilon's inverse tensor, an energy density, a vector field or a complex scalar field at any point returns the trilinear interpolation of the grid values with periodic wrap-around (exact at grid points, identical for points a lattice vector apart), in all storage layouts including the inversion-symmetric half storage, without reading outside the grid. Vector and complex scalar fields are returned times exp(i k.r) unless the Bloch-periodic part is asked for or the field is marked as having no Bloch phase.",
["inputs","configurations"],"all points (including negative, exactly on cell boundaries, and far away), all grid data, grid sizes within bounds",
"No test queries points outside the cell or near its boundary.",
["mpb/fields.c"],[("interp_val, get_val","mpb/fields.c"),("get_field_point, get_energy_point, *_field_get_point","mpb/fields.c")])

p("P19","Phase fixing is canonical and keeps eigenvector and field consistent",
"Fixing the phase multiplies the loaded field and the stored eigenvector of its band, and nothing else, by the same unit-modulus factor (a sign in inversion-symmetric builds), chosen so that the sum of the squared field components is real and as large as possible. Of the components whose real part (real minus imaginary part with inversion symmetry) is at least half of the largest, the last one ends up positive.",
["inputs","schedules"],"all fields within bounds, all prior global phases",
"Tests call the phase fix only to compare with itself.",
["mpb/fields.c"],[("fix_field_phase","mpb/fields.c")])

p("P20","Inversion-symmetric storage reconstructs the full field",
"For structures with inversion symmetry, the half-stored real-eigenvector representation and its reconstructed other half equal the full complex field: every full-cell point is produced exactly once, as the complex conjugate (times Bloch phase for Bloch fields) of its inversion partner, for vector, complex scalar and real scalar fields and for all grid parities.",
["inputs","configurations"],"all fields; all grid sizes up to the bound in 1d, 2d, 3d, even and odd",
"Only two output files' min/max are ever compared.",
[MX+"maxwell_op.c","mpb/fields.c"],[("maxwell_vectorfield_otherhalf, _cscalarfield_otherhalf, _scalarfield_otherhalf",MX+"maxwell_op.c"),("output_field_to_file","mpb/fields.c")])

p("P21","Field output writes every point of the dataset exactly once with the right value",
"Writing the loaded field in a one-process run produces, under the documented file name, datasets of the full grid in which every element is written exactly once, including the half that is not stored with inversion symmetry, and equals the field at that point, times the Bloch phase exp(i k.r) for Bloch fields with complex values; for the dielectric function also every tensor component and its inverse. Only the requested component is written, and the wavevector, lattice vectors and description are stored with it.",
["inputs","configurations"],"all field values and k; grid sizes within bounds; 1..3 processes; all storage layouts; all field kinds",
"Tests do not read output files back.",
["mpb/fields.c","src/matrixio/fieldio.c","src/matrixio/matrixio.c"],[("output_field_to_file","mpb/fields.c"),("fieldio_write_complex_field/real_vals","src/matrixio/fieldio.c"),("matrixio_write_real_data","src/matrixio/matrixio.c")])

p("P22","Symmetry overlaps are exact matrix elements",
"The overlap of a loaded magnetic-induction or displacement field with its image under a symmetry operation {W|w} equals the cell integral of the conjugated dual field times the transformed field with Bloch phases included, W acting on positions in the lattice basis and on components in the Cartesian basis, with an extra factor det W for the magnetic field; so the identity gives the energy norm and a lattice translation gives that norm times its Bloch phase. Fractional translations use the interpolated field, the per-band value and the list of values for all bands are those of each band's magnetic field, and the computation leaves the loaded field unchanged. Any other kind of field, or an operation whose determinant is not of modulus one, gives no result.",
["inputs"],"all fields and wavevectors; the listed operations and translations; grid sizes within bounds","Tests use three operations on one structure.",
["mpb/transform.c"],[("transformed_overlap, compute_symmetry, compute_symmetries","mpb/transform.c")])

p("P23","The final Ritz step returns an orthonormal eigenbasis in ascending order",
"From any set of linearly independent vectors, the solver's final step returns vectors spanning the same space, orthonormal in the problem's inner product, in which the operator is diagonal, with the reported eigenvalues being those diagonal values in ascending order; constraints supplied are applied to the vectors and search directions in order and all of them.",
["inputs"],"all starting blocks and Hermitian operators/metrics within bounds","Tests compare the converged eigenvalues of random matrices.",
[MT+"eigensolver.c",MT+"eigensolver_utils.c"],[("eigensolver_get_eigenvals(_aux)",MT+"eigensolver_utils.c"),("evectconstraint_chain_func",MT+"eigensolver_utils.c")])

p("P24","Trial-step energies and their derivatives agree along a search line",
"Along any search direction, the trace function minimized by the solver is the exact generalized trace of the block at that step length and the derivative handed to the line search is its exact derivative. The block the solver continues with is the one at the step the line search returned.",
["inputs"],"all blocks, directions, Hermitian operators and metrics within bounds, all step lengths","A slightly wrong derivative only slows convergence in the tests.",
[MT+"eigensolver.c"],[("trace_func and friends",MT+"eigensolver.c")])

p("P25","Line minimization returns a sufficient-decrease point inside its bounds",
"For every differentiable function supplied, the line minimizer evaluates only points within the allowed interval on the descent side, and the value and slope it reports are those of the point it returns. Unless it stops at the far end of the interval or at a point already evaluated, the returned point satisfies the sufficient-decrease and curvature tolerances, also when the descent direction is towards negative steps.",
["inputs","histories"],"all function values and slopes returned during up to the stated number of evaluations","Tests only reach well-behaved quadratics.",
[MT+"linmin.c",MT+"minpack2-linmin.c"],[("linmin, dcsrch, dcstep",MT+"minpack2-linmin.c")])

p("P26","Dense matrix operations compute what their contract says",
"Products, adjoints, traces, Hermitian inverses and square roots, (generalized) eigen-decompositions, symmetrization and copying of square matrices give the mathematically defined result in row-major layout for every size and content, with correct conjugation in the complex build and no dependence on stale contents of work or unused storage.",
["inputs","configurations"],"all matrix entries, sizes within bounds, real and complex","blastest uses one fixed size with printed output compared by eye-level tolerance.",
[MT+"sqmatrix.c",MT+"blasglue.c",MT+"matrices.c"],[("sqmatrix_*, blasglue_*, matrix_*",MT)])

p("P27","Eigenvector-block operations compute what their contract says",
"Inner products, weighted updates, column slices and in-place resizing of blocks of band vectors give the mathematically defined result for every block shape, band sub-range and offset, touch only the addressed columns, and preserve the retained data when resizing.",
["inputs","configurations"],"all contents; sizes, sub-ranges and offsets within bounds; real and complex","Tests use full blocks; slices and shrinking are only incidentally used.",
[MT+"evectmatrix.c",MT+"matrices.c"],[("evectmatrix_XtY*, _XpaYS, _aXpbYS_sub, _copy_slice, _resize",MT+"evectmatrix.c")])

p("P28","Deflation keeps later blocks orthogonal to already solved bands",
"When bands are solved a block at a time, the constraint applied to later blocks removes exactly the components along the already solved bands in the problem's inner product (idempotent, leaves orthogonal vectors unchanged) and combines with the parity and k = 0 constraints, also after the structure or its magnetic character was changed. The assembled result contains every band of every block at its own index with its own frequency, also when the block size does not divide the band count.",
["inputs","configurations"],"all solved bands and trial vectors; every (number of bands, block size) within bounds; with and without mu; k zero and nonzero",
"Tests use one block size on two structures.",
["mpb/mpb.c"],[("deflation_constraint, solve_kpoint","mpb/mpb.c")])

p("P29","File-defined dielectrics and grids are interpolated correctly everywhere",
"The value read from gridded input at any point is the trilinear interpolation of the samples at cell centres, exact at sample points, with coordinates beyond the edges mirrored (or wrapped periodically for epsilon files), so it is continuous everywhere and no sample outside the array is used. Loading a grid from a file stores exactly the file's samples (repeated or cut to the requested size, clamped to the allowed range) and saving writes every parameter once.",
["inputs"],"every sample value, and one coordinate arbitrary from one period below to one above the grid, for the grid sizes listed in the bounds",
"No test loads an epsilon file or a material grid.",
["mpb/epsilon_file.c","mpb/material_grid.c"],[("linear_interpolate, epsilon_file_func","mpb/epsilon_file.c")])

p("P30","Material-grid gradients are exact derivatives of the material-grid dielectric",
"The weights accumulated into a material-grid gradient are the exact derivatives of the value a material-grid material has at a point (minimum, product and mean combinations of overlapping grids, where one grid is strictly smallest for minimum), times the given factor, and no other parameter receives a contribution. Accumulated over the whole cell for a mode they equal minus half the frequency times the volume-averaged squared field times the derivative of the dielectric constant, including grids used as default material, which span the unit cell.",
["inputs"],"all grid contents, fields, and points within the bounds; up to three overlapping grids","No test uses material grids.",
["mpb/material_grid.c"],[("add_interpolate_weights, material_grids_addgradient_point, matgrid_val","mpb/material_grid.c")])

p("P31","Material-grid parameters round-trip and gap objectives have exact gradients",
"Reading all grid parameters into a vector and writing a vector back are inverse to each other and touch every parameter of every distinct grid exactly once; randomizing grids keeps every parameter between 0 and 1 and moves it by at most the requested noise. The optimization objectives and constraints built on them report exact values and exact, complete gradients for every parameter regardless of earlier evaluations.",
["inputs","histories"],"all grid sizes and parameter vectors within bounds; repeated evaluations","No test uses material-grid optimization.",
["mpb/material_grid.c","mpb/material_grid_opt.c"],[("material_grids_get/set/ntot","mpb/material_grid.c"),("maxgap_func, band_constraint, mindiff_func","mpb/material_grid_opt.c")])

p("P32","mpb-data resamples periodic fields faithfully",
"Converting a file with mpb-data gives at each output pixel the periodic (linear) interpolation, or with -p the nearest sample, of the input at the geometrically corresponding point with the centres of the two cells coinciding, multiplied for complex data by exp(i k.R) of the cell it comes from and by the requested phase. So an unchanged cell reproduces the data, several periods repeat it, transposition only swaps axes, vectors are expressed along the axes of the output cell, the requested resolution determines the size, and the input data are left as they were.",
["inputs","configurations"],"all data, wavevectors, lattice coordinate maps and resolutions within bounds; interpolate or pick-nearest; transpose or not",
"mpb-data has no tests.",
["utils/mpb-data.c"],[("map_data, handle_dataset, handle_file","utils/mpb-data.c")])

p("P33","mpb-data rectification preserves the cell",
"The rectangular cell mpb-data constructs has orthogonal axes, the volume and handedness of the original cell and its first axis along the requested direction (or the first lattice vector), for every lattice and direction; without that option the axes are kept. The requested periods multiply the axes, saved copies of the cell and the wavevector scale the input lattice, and the coordinate and vector maps used for the data take output-cell coordinates and components to the same Cartesian point and vector of the input.",
["inputs"],"all nonsingular lattices and directions, copies and multiplicities within bounds","mpb-data has no tests.",
["utils/mpb-data.c"],[("handle_file","utils/mpb-data.c")])

p("P34","Band ranges and gaps are reported exactly",
"For every sequence of band frequencies over k-points, each band's reported range is the true minimum and maximum with the k-points attaining them, whatever an earlier run left behind. A gap between consecutive bands is reported (printed and in the gap list) if and only if the lower band's maximum is below the upper band's minimum, with its size as a percentage of mid-gap, and retrieving the gap above a band by index gives that percentage with its sign.",
["inputs","histories"],"all frequency lists for up to the stated number of bands and k-points","Tests check gap lists of fixed structures.",
["mpb/mpb.scm.in"],[("update-band-range-data, output-gaps, retrieve-gap","mpb/mpb.scm.in")])

p("P35","Splitting the k-points over jobs covers each k-point exactly once",
"For every number of chunks, the chunks of the k-point list are contiguous, in order, disjoint and together cover the list, each starts at the index of its first k-point, and none is longer than the list length divided by the number of chunks, rounded up. A run of one chunk solves exactly its k-points in order, numbers them by their position in the whole list, calls every band function for every band, and only the first chunk's job writes epsilon and mu.",
["inputs"],"all list lengths and chunk counts within bounds","No test splits k-points.",
["mpb/mpb.scm.in"],[("list-split","mpb/mpb.scm.in")])

p("P36","Inverse solving evaluates, caches and restores exactly",
"When solving for the wavevector of each band at a given frequency, every function value handed to the root finder is the frequency of the requested band at origin plus k along the unit direction, minus the target, together with that band's own group velocity. Values already computed are reused only for the same band and k, each band starts from the best point known for it, band functions run once per band at its own solution, results come in band order, and the user's band count and k-points are restored.",
["inputs","histories"],"all frequencies and velocities returned by the solver, all orders of evaluations within bounds","Tests use one find-k call.",
["mpb/mpb.scm.in"],[("find-k","mpb/mpb.scm.in")])

p("P37","Distributed runs compute the same results as serial runs",
"For every number of processes, operators, inner products, projections, energies, phase fixing, point queries and dielectric initialisation give the same values as a single process, with each global grid or plane-wave element owned by exactly one process.",
["inputs","schedules","configurations"],"all fields and tensors; 1..3 processes; grid sizes not divisible by the process count included","The MPI build is tested with very few processes on divisible grids.",
[MX,"mpb/",MT,"src/util/mpi_utils.c"],[("mpi_allreduce sites, local_y_start, Nstart",MX)])

p("P38","Plane-wave initialisation and diagnosis are inverse to each other",
"Setting a band to a plane wave of given G and polarization creates the field with exactly that G, transverse and with the requested polarization, leaving other bands untouched, and asking for the dominant plane wave returns the k+G of the component of largest amplitude without changing the field. Orders outside the grid, and an axis parallel to k+G, are refused.",
["inputs","configurations"],"all G in range (negative ones included), even and odd grids, k, polarizations, fields","One planewave is tested on even grids.",
[MX+"maxwell_op.c"],[("maxwell_set_planewave, maxwell_dominant_planewave",MX+"maxwell_op.c")])

p("P39","Saved eigenvectors and matrices load back identically",
"Data written to a file by one process or by several, and read back with the same shape, is identical element by element, whether stored as sub-blocks, with a stride, or as saved vectors read by another number of processes; attributes, names and replaced datasets keep what was written last. A file, dataset or set of vectors whose rank or size does not match, or that is missing, is rejected without changing the caller's data.",
["inputs","fault_sequences"],"all shapes, strides, slab splits within bounds; missing or mismatched datasets","No test round-trips files.",
["src/matrixio/matrixio.c","src/matrixio/evectmatrixio.c"],[("matrixio_write_real_data, matrixio_read_real_data, attributes","src/matrixio/matrixio.c"),("evectmatrixio_*","src/matrixio/evectmatrixio.c")])

p("P40","Field algebra and integration act on every grid point of the full cell",
"Mapping a function over stored fields applies it to the values at each grid point and stores the result there, also when the result replaces one of the arguments; integrating a function over stored fields or over the loaded field sums it over every point of the full cell, at that point's position, times the volume element, where inversion partners that are not stored get the conjugate values and only the loaded-field integral includes the Bloch phase (unless the field is marked as having none). New, copied and loaded field variables have the right size, kind, values and Bloch mark, and any loaded field can be used as a field variable.",
["inputs","configurations"],"all fields and functions within grid bounds; even and odd sizes; all layouts","Only two integrals on even grids are tested.",
["mpb/field-smob.c","mpb/fields.c"],[("field_mapLB, integrate_fieldL, compute_field_integral","mpb/field-smob.c")])

p("P41","Wavevectors are reduced to an equivalent point of the first Brillouin zone",
"For every wavevector, the wavevector returned by the reduction to the first Brillouin zone differs from the given one by a reciprocal-lattice vector with integer coefficients, is never longer than it, and no equivalent wavevector is closer to the origin, for lattices described by a reduced basis.",
["inputs"],"all k within the stated range and lattices within bounds","One or two k values are tested.",
["mpb/mpb.scm.in"],[("first-brillouin-zone","mpb/mpb.scm.in")])

p("P42","Band functions act on the requested band, field and component",
"Every field-output band function writes exactly one file, made from the requested band's own field, with the requested component and the current prefix: energies are those of the named field, the flux is the cross product of the conjugated electric with the magnetic field, the total energy is the sum of the electric and magnetic ones. Functions restricted by energy in objects or to a k-point run exactly when the condition holds, functions without argument run once per k-point, per-band reports list every band in order, making phases consistent leaves each product with the old state real and positive, and grid sizes are rounded up to the next product of 2, 3, 5 and 7.",
["inputs","configurations"],"every band, component, threshold, k-point and field value within bounds","Tests use a few output functions on fixed structures.",
["mpb/mpb.scm.in"],[("output-*field, get-poynting, get-tot-pwr, output-dpwr-in-objects, output-at-kpoint, combine-band-functions, fix-phase-consistency, next-factor2357","mpb/mpb.scm.in")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
