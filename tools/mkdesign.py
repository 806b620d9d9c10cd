"""Writes DESIGN.md: the texts below plus bounds and assumptions from the last evidence files."""
import json,glob,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,"tools"))
import notes
HEAD=r'''# DESIGN

Solver-based checking of NanoComp/mpb. Two engines execute the project's real sources symbolically; every
property is turned into assertions whose negations an SMT solver decides over all values of the symbolic
inputs. Nothing is decided by sampling: the concrete runs that exist are (a) enumeration of *shapes* (grid
sizes, ranks, block sizes, option masks), each of which is one harness invocation with symbolic contents, and
(b) the replay of counterexamples.

`check.py PXX` runs one check (this is the command in MANIFEST.json; `VERIF_TIER=thorough` selects the deeper
bounds), `check.py --replay FILE` replays a recorded counterexample.

## C engine (P01-P33, P37-P40)

1. `engine/irx.py` compiles the listed files of `/repo`'s *working tree* (configuration headers per build
   flavour in `gen/{complex,inv,herm,mpi,...}`, copied from what configure produced) with clang to LLVM IR,
   and rewrites the IR textually: every `fadd/fsub/fmul/fdiv/fcmp/fptosi/sitofp` on doubles and every libm
   call becomes a call into the runtime. Everything else (integers, pointers, memory, control flow) is left
   to the native machine, so the code executed is the real code with real memory layout. Functions that are not in the selected sources and not in a
   stub are turned into "unexpected call" traps. Repository functions are made weak, so a
   harness can put a stand-in in front of one of them; statics can be exported by name.
2. `engine/rt.cpp` is the runtime: a double that carries a symbolic real is a NaN-boxed id of a node in an
   expression DAG over exact rationals (GMP), with variables, defined irrationals (`sqrt` with its defining equation,
   `pi`, `cos`/`sin` of an angle with c^2+s^2=1, exact values for rational multiples of pi/2, pi/3 ...).
   Copying doubles through memory keeps the id; so there is no memory model to get wrong. Comparisons of
   symbolic values fork the path after a feasibility query; every feasible path is followed.
   Divisions record the assumption that the denominator is not zero, or an obligation to prove it (harness option).
   Program constants written as decimals are rationalised to the simplest fraction with the same double.
3. At path end every assertion is normalised (`engine/polyx.cpp`: exact polynomial / rational-function
   normal form over the defined irrationals) and its negation is
   written as SMT-LIB together with path condition and defining equations and decided by z3, then z3 with
   other tactics, then cvc5 (`engine/driver.py`). `unsat` discharges it; `sat` models are refined to
   rational values and replayed with the *uninstrumented* native build of the same sources and harness
   (`engine/native.c` supplies the values); only a replay that shows the difference (or crash) becomes a
   `VIOLATION`. `unknown` and unreplayable models are printed as UNDISCHARGED and listed in the evidence; they
   are never an alarm (and there are none on the unchanged tree).
   Terms that differ only by a constant below 1e-12 after normalisation (quadrature nodes or decimal constants that
   are rounded in the source) count as equal.
4. `must_reach` labels guard against vacuity: a harness that does not reach its end on any path, a build error or a
   path budget overrun is a hard error (exit 2), not a pass.

Stand-ins (`stubs/`): FFTW = exact DFT for the plan's layout (half-complex too); BLAS = defining formulas; LAPACK = exact for
factorisation/inverse, *registered* decompositions for eigenproblems (the harness supplies an exact decomposition with symbolic eigenvalues, the stub checks that
it was handed the right matrix); libctl and Guile = small stand-ins (geometry answered by the harness, so "which
objects contain a point" is arbitrary). MPI and file I/O are stand-ins where stated.

What this cannot see: floating-point rounding (all doubles are exact reals), overflow/NaN, undefined behaviour that the chosen
compilation hides, performance, FFTW/LAPACK/HDF5 themselves, and real geometry (libctl's C code).

## Scheme engine (P34, P35, P36, P41, P42)

`engine/scm.py` is a symbolic interpreter for the Scheme subset used by `mpb/mpb.scm.in` and libctl's Scheme
library. It reads the `.scm.in` file of the working tree (and the installed libctl sources), evaluates the definitions, and runs
the harness (`harness/*.scm`) with symbolic numbers (exact reals or integers), symbolic list lengths through
case splits, forks on conditionals with z3 deciding feasibility, and decides assertions with z3. Functions that are C primitives are
stand-ins with a call log (`harness/ctlstubs.scm`). Counterexamples are replayed in real Guile on the same `mpb.scm.in`
(`harness/scmreplay.scm`): only a replay that fails the same assertion is a violation.

## Trust

clang's IR generation, the rewriting and runtime in `engine/`, the stand-ins, z3/cvc5 and (for alarms) the
native replay. The replay makes false alarms of the encoding impossible for value properties: an alarm needs the real build to show it.
Missed bugs are possible outside the bounds listed with each property.

'''
P={}
P["P01"]="Harness `op.c` builds a real `maxwell_data`, fills |k+G|, transverse frames, tensors, fields with arbitrary reals and calls `maxwell_operator`, `maxwell_muinv_operator` and the expansion/projection steps; the oracle is a separately written dense sum over plane waves (phase table of the exact DFT). Compared: operator = composition; bilinear form symmetric; linearity (frozen scalars); mu operator. Rows: 1d/2d/3d, odd/even, complex, Hermitian-tensor and inversion-symmetric storage. Tests only compare a few frequencies."
P["P02"]="`frames.c` runs `update_maxwell_data_k` with arbitrary k and reciprocal matrix and checks |k+G|^2, orthonormality, transversality, handedness, the index set, and the k parallel z / zero special cases with inequality-guarded paths."
P["P03"]="`batch.c` compares every batch size against one-at-a-time for operators, fields, conversions, group velocities, with the data object's history (earlier batch shapes) as part of the enumeration. Fields arbitrary."
P["P04"]="`groupv.c` installs arbitrary eigenvectors/tensors in the program's globals and calls the user-level entry points; oracle: dense double sum of the derivative of the operator. Scale-invariance in the direction argument, zero-frequency bands, state left unchanged."
P["P05"]="`parity.c`: P^2=P, Hermitian, even+odd=1, action = reflection of the reconstructed real-space pseudovector, commutation with the real `maxwell_operator`; expectation values of arbitrary states."
P["P06"]="`kparity.c`: state machine of `set_maxwell_data_parity`/`update_maxwell_data_k`, every mask, two k changes and two requests with symbolic k components; oracle is a set-level specification; TE/TM field directions."
P["P07"]="`zerok.c`: number and content of inserted constant states for every parity, operator applied to them is zero, constraint removes exactly the G=0 component, untouched other bands. Restricted to non-magnetic structures (with mu the program inserts constant B, an approximation)."
P["P08"]="`precond.c`: Hermiticity, positivity, band independence, no division by zero incl. k=0, exact inverse in a homogeneous medium."
P["P09"]="`target.c`: `maxwell_target_operator` = (A-w0^2)^2 by comparing with two calls of the plain operator."
P["P10"]="`alg3.c`: inverse times matrix = 1, definiteness via leading minors against a symbolic quadratic form, rotation R^T A R, eigenvalues by LAPACK contract; the `sym_matrix_eigs` path in real and Hermitian builds."
P["P11"]="`kottke.c`: drives `set_maxwell_dielectric` with a planar interface through one pixel and compares with the closed interface law. Averaging uses a 50-point spherical quadrature read from the generator (nodes rounded to 12 digits so that mirror nodes cancel exactly over the reals); normals limited to those for which the quadrature is exact."
P["P12"]="`epsgrid.c`: the stand-in user function records every evaluation point; each must be the point's own (or within its pixel's mesh) and the stored tensor the one returned, once per element; serial and inversion-symmetric layouts, mesh sizes 1-8."
P["P13"]="`diecheck.c`: `check_maxwell_dielectric` and its caller for one arbitrary tensor at any point, against positive definiteness by minors and xy-z coupling; all processes must agree."
P["P14"]="`mats.c`: (0) the tensor returned at one point for seven ways of defining a material (scalar, diagonal, off-diagonal, function, grid, function returning a grid, file) with object/default/file placements; (1) whether the permeability is set up, for arbitrary mu entries in each place a material can occur; (2) whole pixels through the start-up code, with 29 arrangements of two objects, default material, holes, periodic images and files; the expected average is written out from the two tensors, the normal and the covered fraction (or the mesh average when no single surface applies). Geometry queries are answered by the harness."
P["P22"]="`symov.c`: the overlap is compared with the sum over all grid points of the conjugated dual field times the transformed, interpolated field with Bloch phases; the transformation, interpolation and dual are written out independently. The field is arbitrary at all points, or the first wavevector component, or the translation along x is arbitrary. Non-MPI builds without inversion storage only: the others refuse the computation."
P["P15"]="`epsout.c`: `get_epsilon/get_mu`, tensor components and the printed statistics (captured from the print stand-in) against sums over the full cell."
P["P16"]="`flds.c`: D, E, B, H, divergence from arbitrary eigenvectors through the user-level calls against dense plane-wave sums."
P["P17"]="`energy.c`: energy density, total, six shares, energy in dielectric ranges and in object lists; inversion partners counted with their own membership."
P["P18"]="`points.c`: the interpolating point queries against an independently written trilinear interpolation over the *full* grid (reconstructed), symbolic coordinates fork on the cell; Bloch phase with symbolic angles."
P["P19"]="`fixph.c`: phase from the maximisation of Re sum c^2, sign rule, unit modulus, same factor on field and eigenvector, nothing else changed."
P["P20"]="`otherhalf.c` (inversion build): each of the three reconstruction routines; every full-cell point produced once with the conjugate (and phase)."
P["P23"]="`eig.c` final step: orthonormality, diagonality, order, span, constraint chain order."
P["P24"]="`eig.c` one conjugate-gradient step: the function handed to line search equals the trace of the renormalised block at that step, its slope is the exact derivative (differentiated symbolically through the defining equations), the block continued with is that at the returned step."
P["P25"]="`linmin.c`: the line minimiser called with a function stand-in returning arbitrary values and slopes: all control flow inside (MINPACK dcsrch/dcstep) is forked; post-conditions at every exit."
P["P26"]="`sq.c`: every square-matrix routine against definitional loops."
P["P27"]="`ev.c`: block routines against definitional loops including untouched columns (fill patterns)."
P["P28"]="`solve.c`: whole `init-params`/`solve-kpoint` driver with the inner eigensolver replaced by a stand-in that checks what it receives; deflation projector algebra, order of constraints, result assembly."
P["P29"]="`epsfile.c`: interpolation with symbolic coordinate and data, continuity at the seams, index bounds (guarded arrays), grid loading with clamping."
P["P30"]="`matgrid.c`: gradient weights versus symbolic differentiation of the *real* value function (values at symbolic parameter step, exact difference quotient polynomial), and the whole-cell gradient versus the dense sum."
P["P31"]="`matgrid.c`: get/set/randomize/save round trip, objectives, constraints and complete gradients with leftover accumulators arbitrary."
P["P34"]="`gaps.scm`: symbolic frequencies, gap list and printed lines versus definitions."
P["P35"]="`ksplit.scm`: `list-split` with symbolic chunk numbers and `run-parity` on chunks."
P["P36"]="`findk.scm`: root finder replaced by arbitrary probes; values, derivatives, caching, restoring, band functions."
P["P38"]="`planewave.c`: `maxwell_set_planewave` / `maxwell_dominant_planewave` and their user-level callers."
P["P21"]="`fldout.c`: `output_field_to_file` of every field kind through `fieldio.c`/`matrixio.c` into an in-memory stand-in of HDF5 (per-element write counts), against the phase formula over the whole grid with `mx_pidx`/conjugation for the half not stored."
P["P32"]="`mpbdata.c`: the whole program (option parsing, file handling, resampling, output) on an in-memory file with arbitrary data, wavevector and phase angle, compared pixel by pixel with the interpolation formula; `mpmap.c`: the resampling loop alone with arbitrary coordinate scales and shears (every integer cell and sample index is a path)."
P["P33"]="`mprect.c`: the program up to the resampling, with all lattice components, periods and wavevector arbitrary; the cell and the maps handed to the resampling are intercepted and their defining equations decided by the solver."
P["P39"]="`h5io.c`: round trips through `matrixio.c` / `evectmatrixio.c` over an in-memory stand-in of the HDF5 calls they use (names, shapes, selections, per-element write counts, open handles): blocks written in two parts along each axis with strides, slabs read back, attributes, vectors written by up to 4 processes and read by up to 3 others, refusals."
P["P40"]="`falg.c`: field map/integrate family with a user function that distinguishes every argument/component/coordinate."
P["P41"]="`bz.scm`: arbitrary k, listed reduced lattices; result differs by integer combination, is no longer, and no neighbour shell vector makes it shorter."
P["P42"]="`bandfun.scm`: each output function's log of C calls against a table of what it must write."
TAIL=open(os.path.join(V,"tools","design_tail.md")).read()
out=[HEAD,"## Properties\n\n"]
for l in open(os.path.join(V,"properties.jsonl")):
    p=json.loads(l); i=p["id"]; out.append("### %s %s\n\n"%(i,p["title"]))
    if i in notes.NA: out.append("Not claimed. "+notes.NA[i]+"\n\n"); continue
    out.append(P.get(i,"")+"\n\n")
    f=os.path.join(V,"evidence",i+".json")
    if os.path.exists(f):
        e=json.load(open(f)); c=e["coverage"]; b=c.get("bounds"); b=b if isinstance(b,str) else "; ".join(b or [])
        if not b: b=getattr(notes,"BOUNDS",{}).get(i,"see the check file")
        out.append("*Bounds:* %s.\n"%b)
        a=e["assumptions"][2:]
        if a: out.append("*Assumptions beyond the general ones:* %s.\n"%"; ".join(a))
        out.append("*Size of the quick check:* %d paths, %d obligations.\n\n"%(round(c["paths"],-1) if c["paths"]>50 else c["paths"],c["obligations"]))
out.append(TAIL); open(os.path.join(V,"DESIGN.md"),"w").write("".join(out))
