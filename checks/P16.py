from common import *
def main():
    c=Check("P16"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness, which installs an arbitrary eigenvector block, tensors, transverse frames and frequencies","libctl/Guile replaced by stand-ins"]
    for cfg,a in (("complex","""2 2 1 3 0 0 0 2
2 3 1 2 0 0 1 2
2 2 1 2 2 2 1 5
2 1 2 2 0 1 0 7
2 1 1 13 0 0 0 4"""),("inv","""3 2 1 2 1 2 0 2
3 1 1 2 1 2 0 2
2 2 2 1 1 1 1 2
2 2 3 1 1 1 1 2
4 1 1 3 0 0 1 5"""),("herm","""2 1 2 2 0 1 1 3
2 2 1 2 1 2 0 5""")):
        c.add("flds",cfg,MPBALL,["harness/flds.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 3x2, 2x2x3, 4x1; up to 3 bands (and 13, more than one transform batch); eigenvectors arbitrary, tensors fixed or arbitrary, frequencies fixed or arbitrary (incl. one zero)"]
    return c.run()
