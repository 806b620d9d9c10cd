from common import *
def main():
    c=Check("P23"); c.assum=CORE_ASSUM
    S=MAT+["src/matrices/eigensolver.c","src/matrices/eigensolver_utils.c"]
    for cfg in ("complex","inv"): c.add("eig",cfg,S,["harness/eig.c"]+STUBS+["stubs/lapack.c"],args=J("0 2 1\n0 2 2\n0 3 2\n0 3 3\n1 2 2 3\n1 2 1 2\n1 1 1 1\n1 2 1 0"),must_reach=("end",))
    c.bounds=["blocks of up to 3 vectors in up to 3 dimensions: arbitrary norms and Ritz values, arbitrary Hermitian operators consistent with them, on fixed generic unitary frames; up to 3 chained constraints"]
    return c.run()
