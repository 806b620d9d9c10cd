from common import *
def main():
    c=Check("P04"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness, which installs an arbitrary eigenvector block, tensors, transverse frames and frequencies","libctl/Guile replaced by stand-ins"]
    # nx ny nz nb block lat mu what
    for cfg,a in (("complex","""2 2 1 3 0 0 0 6
2 2 1 3 2 2 0 5
3 2 1 3 2 1 1 4
2 1 2 2 0 2 0 6
2 2 1 3 2 1 1 5
2 2 1 2 0 2 1 6
2 1 1 22 0 0 0 4
2 1 1 22 0 0 1 4"""),("inv","""3 2 1 2 1 2 0 6
4 1 1 3 2 0 1 6
2 2 2 2 0 1 1 5"""),("herm","""2 1 2 2 0 1 1 5
2 2 1 3 1 2 0 6""")):
        c.add("groupv",cfg,MPBALL,["harness/groupv.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 3x2, 2x2x2, 4x1; up to 3 bands in blocks (and 22 bands, more than one transform batch); eigenvectors arbitrary with fixed tensors and vice versa; four directions incl. oblique; unit, rectangular and oblique lattices"]
    return c.run()
