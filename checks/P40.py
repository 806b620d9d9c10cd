from common import *
def main():
    c=Check("P40"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness; Guile's values and procedure calls are replaced by stand-ins; the user's function is a fixed polynomial that weights every argument, component and coordinate differently"]
    for t in (0,1,2,3):
        for cfg,g in (("complex",("3 2 1 1","2 2 2 2","1 1 1 0","2 3 2 0")),("inv",("3 1 1 0","4 2 1 1","2 3 1 2","2 4 1 0","2 2 3 1","3 2 2 0","2 3 4 2"))):
            c.add("falg",cfg,MPBALL,["harness/falg.c"]+MPSTUBS,args=J("\n".join("%s %d"%(x,t) for x in g if not(t in(0,3) and x in("2 3 4 2","2 3 2 0")))),must_reach=("end",))
    c.bounds=["grids up to 2x3x4; up to three argument fields of every combination of kinds listed; all values of one of them arbitrary, the others fixed; wavevector component arbitrary for the loaded-field integrals"]
    return c.run()
