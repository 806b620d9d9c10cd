from common import *
def main():
    c=Check("P15"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness","the 3x3 eigen-decompositions of the tensors used are known to the LAPACK stand-in (arbitrary principal values in a fixed frame per point)"]
    for cfg,a in (("complex","""2 1 1 0 0 0
2 2 1 0 1 0
3 3 1 0 0 0
2 2 2 0 0 0
3 1 1 0 0 101
2 2 1 0 0 3
2 2 1 0 0 2"""),("inv","""3 2 1 0 0 0
4 1 1 0 0 0
5 1 1 0 0 0
2 3 1 0 1 0
2 4 1 0 0 0
2 2 3 0 0 0
2 2 2 0 0 0
3 2 1 0 0 3
2 3 1 0 0 102"""),("herm","""2 2 1 0 1 0
2 2 1 0 0 1
2 2 1 0 0 4
3 1 1 0 0 102""")):
        c.add("epsout",cfg,MPBALL,["harness/epsout.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 3x3, 2x4, 2x2x3; principal values arbitrary (positive, at up to three points; fixed elsewhere) for the scalar field and the statistics, one arbitrary nonsingular tensor at one point for the exported components"]
    return c.run()
