from common import *
def main():
    c=Check("P29"); c.assum=CORE_ASSUM+["reading the file itself is replaced by the harness (HDF5 not executed)","libctl/Guile replaced by stand-ins"]
    c.add("epsfile","complex",MPBALL,["harness/epsfile.c"]+MPSTUBS,args=J("""0 3 1 1 0 0
0 2 2 1 1 1
0 2 3 2 2 0
0 2 3 2 0 1
0 1 4 1 1 0
0 1 2 3 0 1
0 2 1 3 2 1
1 3 1 1 0 0
1 4 1 1 0 1
1 2 3 1 1 0
1 3 2 1 0 1
1 2 2 2 2 1
1 2 2 3 2 0
1 3 2 2 0 0
1 1 3 2 1 0
2 2 3 1 1 3 2 1 2 0 1
2 2 1 1 0 2 1 1 1 1 1
2 2 2 2 1 1 3 2 1 3 1
2 3 2 1 1 2 2 1 0 1.5 1
2 1 3 2 1 2 2 3 0 0 0
3 2 2 1 0
3 2 1 3 0
3 4 1 1 0
3 2 3 2 0"""),must_reach=("end",))
    for cfg in ("inv","herm"):
        c.add("epsfile",cfg,MPBALL,["harness/epsfile.c"]+MPSTUBS,args=J("""0 3 2 1 0 0
1 3 1 1 0 0
1 2 2 2 2 1
2 2 3 1 1 3 2 1 2 0 1"""),must_reach=("end",))
    c.bounds=["data of up to 3x2x2, 2x3x2, 4 points, every value arbitrary; one coordinate arbitrary in [-1,2] (mirrored data) or [-2,3] (epsilon file), the others at listed positions inside, at and beyond the edges; grids loaded with supercell factors 0-3"]
    return c.run()
