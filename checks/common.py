import sys, os
from driver import Check, QUICK
MXW=["src/maxwell/maxwell.c","src/maxwell/maxwell_op.c","src/maxwell/maxwell_constraints.c","src/maxwell/maxwell_pre.c","src/maxwell/maxwell_eps.c"]
MAT=["src/matrices/blasglue.c","src/matrices/evectmatrix.c","src/matrices/matrices.c","src/matrices/sqmatrix.c"]
EIG=["src/matrices/eigensolver.c","src/matrices/eigensolver_utils.c","src/matrices/linmin.c","src/matrices/minpack2-linmin.c"]
STUBS=["stubs/base.c","stubs/fftw.c","stubs/blas.c"]
CORE_ASSUM=["real arithmetic: doubles are modelled as exact reals; rounding is outside the claim",
  "FFTW is replaced by the exact DFT over the layout given in each plan; BLAS by its defining formulas"]
def J(s): return [x.split() for x in s.strip().split("\n") if x.strip()]
MPB=["mpb/mpb.c","mpb/medium.c","mpb/epsilon_file.c","mpb/material_grid.c","mpb/fields.c","mpb/field-smob.c","mpb/matrix-smob.c","mpb/transform.c"]
MPBALL=MXW+MAT+EIG+MPB
MPSTUBS=STUBS+["stubs/ctl.c","stubs/lapack.c"]
