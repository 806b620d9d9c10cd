from common import *
def main():
    c=Check("P22"); c.assum=CORE_ASSUM+["libctl/Guile replaced by stand-ins; the band's field and the tensors are supplied by the harness (P01, P20)"]
    R="""2 2 1 0 0 0 0 2 1 0;2 1 1 2 0 1 0 5 1 0;3 1 1 0 1 0 0 2 1 0;2 2 2 1 1 1 0 2 0 1;4 2 1 1 0 0 0 1 0 1
4 2 1 1 0 1 2 5 2 0;4 2 2 0 0 1 8 5 2 0;2 2 2 0 0 0 6 4 1 0;3 2 1 0 1 0 4 1 2 0;2 2 1 2 0 1 5 3 2 0
2 2 2 2 1 0 1 5 0 1;2 2 1 1 0 1 4 5 0 1;3 3 3 0 1 1 6 2 1 0;4 4 1 0 0 1 3 4 2 0;4 2 1 1 0 0 2 5 0 1;2 2 2 0 1 0 1 6 1 0;3 3 1 0 0 0 3 0 2 0
2 3 2 0 1 0 7 0 1 0;4 4 2 0 1 0 3 6 2 0;2 2 2 0 0 0 5 4 0 1;2 2 2 0 1 1 6 3 0 1
2 1 1 0 0 0 0 0 1 2;4 1 1 1 1 1 2 0 2 2;2 2 1 0 0 0 1 4 1 2
-2 2 1 0 1 0 2 3 1 0;-3 1 1 0 0 0 2 0 0 0;-2 2 2 1 0 0 1 1 1 0""".replace("\n",";").split(";")
    if not QUICK: R+=["2 2 1 0 0 1 3 4 2 2","4 2 1 1 0 1 7 4 2 2","2 2 2 0 1 1 8 5 1 2"]+["%s %d 0 %d %d %d %d 0"%(g,l,t,w,m,k) for g in ("2 2 2","4 2 2","3 3 1") for l in (0,) for t in (0,1) for w in range(9) for m,k in ((0,1),(1,2),(4,2)) if "3 3" not in g or m<2]
    for cfg in ("complex","herm"): c.add("symov",cfg,MPBALL,["harness/symov.c"]+MPSTUBS,args=J("\n".join(R if cfg=="complex" or not QUICK else R[1:21:3]+R[-3:-2])),must_reach=("end",))
    c.bounds=["2 to 64 grid points in one to three dimensions, cubic, rectangular and oblique rational cells; nine operations (inversion, mirrors, rotations, a shear, a permutation of the axes), seven translations including fractions of a grid spacing and, in one dimension or on small grids, an arbitrary translation along the first axis within [-1,2] cells; the field arbitrary at every point, or the first wavevector component arbitrary; two bands for the list; an arbitrary first entry for the refused determinant"]
    return c.run()
