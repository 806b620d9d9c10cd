from common import *
SRC=MPBALL+["mpb/material_grid_opt.c"]; EX=("material_grids_addgradient_point","mindiff_func","band_constraint","maxgap_func","match_eps_func")
def main():
    c=Check("P30"); c.assum=CORE_ASSUM+["geometry (which objects contain a point, coordinates inside an object) supplied by the harness; libctl/Guile replaced by stand-ins","for minimum grids the derivative is stated where one grid is strictly the smallest"]
    a=[]
    for kind in (0,1,2):
        for who in (0,1,2,3,4,5):
            if kind==0 and who==2: continue
            for m in ((0,1) if kind==0 and who in (1,3) else (0,1,2) if kind==0 and who==4 else (0,)):
                a.append([0,kind,(kind+who)%2,who,m,-1])
                a.append([0,kind,(kind+who+1)%2,who,m,(kind+2*who+m)%6])
    a=[[str(x) for x in r] for r in a]
    b=J("""1 0 0 0 4 1 1 0 0
1 1 0 1 3 2 1 0 0
1 2 0 2 4 4 1 0 1
1 1 0 2 4 4 1 2 0
1 0 0 2 4 3 1 1 2
1 1 0 3 4 2 1 1 1
1 2 0 3 3 4 1 0 0
1 2 0 4 2 2 2 1 2
1 0 0 1 2 4 2 0 0
1 2 0 0 2 2 3 2 0""")
    if QUICK: a=a[::2]+a[1::4]
    c.add("matgrid","complex",SRC,["harness/matgrid.c"]+MPSTUBS,args=a+b,must_reach=("end",),export=EX)
    c.add("matgrid","inv",SRC,["harness/matgrid.c"]+MPSTUBS,args=b,must_reach=("end",),export=EX)
    c.bounds=["point formula: up to three overlapping grids of up to 3x2 parameters; either all parameters, the step and the scale arbitrary at listed object coordinates, or one object coordinate arbitrary in [0,1] with fixed parameters","whole-cell gradient: grids up to 4x4 and 2x2x3, arbitrary field (or arbitrary eigenvector entries), three lattices, five arrangements of objects and default material"]
    return c.run()
