from common import *
def main():
    c=Check("P24"); c.assum=CORE_ASSUM+["magnitudes stay below 1e50 (the program stops otherwise)","metrics are fixed positive definite matrices"]
    S=MAT+["src/matrices/eigensolver.c","src/matrices/eigensolver_utils.c"]
    K=dict(env={"SR_LIN":"1"})
    cx="2 2 1 16 0\n2 3 1 18 0\n2 3 2 0 0\n2 3 2 2 0\n2 3 2 19 0\n2 2 1 24 0\n2 3 2 20 0"; re="2 2 1 18 0\n2 3 2 18 0"
    mv={"complex":"2 3 1 66 4","inv":"2 3 2 82 4"}
    if not QUICK: cx+="\n2 3 1 26 0\n2 3 1 20 0\n2 2 1 0 0\n2 3 2 16 0\n2 3 2 18 0"; re+="\n2 2 1 0 2\n2 2 1 16 2"; mv={"complex":"2 3 1 66 4\n2 3 2 82 4","inv":"2 3 2 82 4\n2 3 2 80 4\n2 3 1 66 4"}
    for cfg,a in (("complex",cx),("inv",re)):
        c.add("eig",cfg,S,["harness/eig.c"]+STUBS+["stubs/lapack.c"],args=J(a),must_reach=("searched",),**K)
        c.add("eig",cfg,S,["harness/eig.c"]+STUBS+["stubs/lapack.c"],args=J(mv[cfg]),must_reach=("second step",),maxpaths=3000,**K)
    c.bounds=["one step of the solver from fixed generic blocks of 1-2 vectors in 2-3 dimensions, fixed generic metrics, every Hermitian operator, every step length within a half turn"]
    return c.run()
