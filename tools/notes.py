NOTE=globals().get("NOTE",{})
TECH="symbolic execution of the LLVM IR of the real code over exact reals + SMT (z3/cvc5), counterexamples replayed natively"
GEN="Every value of the symbolic inputs within the stated grid sizes/shapes is covered by the solver's verdict; doubles are modelled as exact reals (rounding is outside the claim); FFTW, BLAS/LAPACK and I/O libraries are replaced by their exact definitions. Trusts clang -O0/-O1 IR generation, the IR transformation and runtime in engine/, and the SMT solvers."
NA={}
STECH="symbolic execution of the Scheme source (mpb/mpb.scm.in and the libctl library) by a symbolic interpreter: numbers are symbolic reals or integers, every feasible path within the bounds, obligations decided by z3, counterexamples replayed in Guile"
SGEN="bounded: lists, bands, k-points and evaluations as stated in the evidence; exact real arithmetic; C functions replaced by stand-ins"
for _i in ("P34","P35","P36","P41","P42"): NOTE[_i]=(STECH,SGEN)
