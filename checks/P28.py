from common import *
def main():
    c=Check("P28"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness, which receives the operators, constraint chain and work matrices the program hands over and returns concrete solution vectors satisfying the constraints with symbolic eigenvalues","libctl/Guile replaced by stand-ins; homogeneous start-up geometry whose tensors are then replaced"]
    # nx ny nz nb block lat mu kzero target parity nsolves history
    for cfg,a in (("complex","""2 2 1 3 2 2 0 0 0 0 2 0
2 2 1 5 2 1 1 1 0 0 2 0
3 2 1 3 1 0 1 0 0 0 1 1
3 2 1 4 2 0 0 0 0 0 1 1
2 2 1 4 3 0 0 1 0 0 2 2
3 1 1 4 -2 0 0 0 0 0 1 0
2 2 1 3 2 0 0 0 1 0 2 0
2 2 1 2 1 0 0 1 0 1 2 0
2 2 1 3 0 0 1 0 0 0 1 0"""),("inv","""3 2 1 5 2 0 1 1 0 0 2 0
4 1 1 3 2 0 1 0 0 0 1 1
2 3 1 3 2 1 0 1 0 2 1 0"""),("herm","""2 2 1 3 2 2 1 0 0 0 1 1
2 2 1 4 1 0 0 1 0 0 2 0""")):
        c.add("solve",cfg,MPBALL,["harness/solve.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["up to 5 bands in blocks of 1..4 (also non-dividing and automatic sizes), grids up to 4x1, 3x2, 2x3; arbitrary symbolic trial block and eigenvalues; two consecutive k-points (k=0 and k!=0); start-up after a run with the other kind of medium or another grid"]
    return c.run()
