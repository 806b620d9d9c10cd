from common import *
def main():
    c=Check("P18"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness; libctl/Guile replaced by stand-ins"]
    # nx ny nz lat what mode axis
    for cfg,a in (("complex","""3 2 1 0 0 0 0
2 2 1 2 1 0 0
2 3 1 1 1 1 0
2 2 2 1 2 0 2
2 3 1 1 3 1 0
3 1 1 0 1 0 0
2 3 2 0 0 0 1
2 2 1 2 2 1 0
3 2 1 1 4 0 0
2 4 1 0 3 0 1"""),("inv","""3 2 1 0 0 0 0
2 3 1 2 1 0 1
2 3 1 2 1 1 1
2 2 3 1 1 0 2
3 2 2 1 0 0 1
4 1 1 0 1 0 0
3 1 1 0 1 1 0
2 4 1 0 3 0 1
3 4 1 0 3 1 1
2 2 2 0 2 0 2
2 4 1 1 4 0 1
2 2 2 0 4 0 2
2 3 1 2 1 1 0""")):
        c.add("points",cfg,MPBALL,["harness/points.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 2x2x3, 3x4, 2x4; all grid values arbitrary; one coordinate arbitrary within three cells with the others fixed, or listed points (in and outside the cell, on cell edges) with an arbitrary wavevector component"]
    return c.run()
