from common import *
def main():
    c=Check("P05"); c.assum=CORE_ASSUM+["mirror-symmetric lattice with the mirror component of k zero"]
    al=J("""2 2 1 2 1 1 0 0
2 2 3 2 2 0 0 0
3 2 4 2 1 0 0 0
1 2 3 2 1 1 0 0
2 3 2 1 2 0 0 0
2 4 3 1 1 0 0 0
1 5 2 1 1 0 0 0
2 3 1 1 1 1 0 0
3 1 2 1 2 0 0 0
2 2 1 2 1 0 2 0
2 1 3 2 2 0 2 0
1 2 4 2 1 0 2 0
2 2 2 2 1 0 2 0
2 3 1 1 2 0 2 0
1 4 2 1 1 0 2 0
2 1 2 1 1 0 2 0
1 2 1 1 1 0 2 0""")
    op=J("""2 2 3 2 1 0 1 0
2 2 1 2 1 0 1 1
2 3 1 1 2 0 1 1
2 3 2 1 1 0 1 0
1 1 3 2 2 0 1 1
1 3 2 1 1 0 1 1""")
    for cfg in ("complex","herm","inv"):
        a=al+op if cfg!="herm" else op
        c.add("parity",cfg,MXW+MAT,["harness/parity.c"]+STUBS,args=a,must_reach=("end",))
    c.bounds=["grids up to 5 points along the mirror axis, up to 3x2 in the others; fields arbitrary; commutation on grids with an odd number of points along the mirror axis"]
    return c.run()
