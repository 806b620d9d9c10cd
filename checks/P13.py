from common import *
def main():
    c=Check("P13"); c.assum=CORE_ASSUM
    for cfg in ("complex","herm","inv"):
        a=[]
        for g,n in (("2 2 1",4),("3 1 1",3),("1 1 3",3),("2 1 2",4)):
            for pt in range(n):
                for par in range(6) if pt==n-1 and g in("2 2 1","3 1 1") else (pt%6,):
                    for neg in ((0,1) if pt in(0,n-1) else (0,)): a.append((g+" %d %d %d"%(pt,par,neg)).split())
        c.add("diecheck",cfg,MXW+MAT,["harness/diecheck.c"]+STUBS,args=a,must_reach=("end","rejected","accepted"))
    c.bounds=["grids up to 4 points; one arbitrary tensor at any stored point, the others valid; every parity; both settings of the negative-epsilon switch"]
    return c.run()
