from common import *
def main():
    c=Check("P19"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness; the sum of the squared components is nonzero (otherwise no phase maximises it)"]
    for cfg,a in (("complex","""2 2 1 0 0 2
2 2 1 0 10 1
2 2 1 1 2 3
2 2 2 2 2 5
3 1 1 0 2 0"""+("" if QUICK else "\n2 1 1 0 6 4\n3 1 1 0 6 4\n2 3 1 1 2 3")),("inv","""3 1 1 0 1 0
2 3 1 0 7 3
2 2 3 1 5 1
4 2 1 2 13 2
4 1 1 0 3 5
3 3 1 0 2 4""")):
        c.add("fixph",cfg,MPBALL,["harness/fixph.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 2x2x3; one component of the field fully arbitrary (with inversion also the real part of a second one), the others fixed (zero or not); every loaded-field kind; three bands"]
    return c.run()
