from common import *
def main():
    c=Check("P10"); c.assum=CORE_ASSUM+["LAPACK eigenvalue routines replaced by their contract (ascending roots of the characteristic polynomial of the selected triangle)"]
    for cfg in ("complex","herm","inv"):
        c.add("alg3",cfg,MXW+MAT,["harness/alg3.c"]+STUBS+["stubs/lapack.c"],args=J("0 0\n1 0\n2 0\n3 0\n3 1\n3 2\n4 0"),must_reach=("end","singular","yes","no"))
    c.bounds=["all real-symmetric / Hermitian 3x3 tensors, all unit vectors, all 3x3 rotation arguments"]
    return c.run()
