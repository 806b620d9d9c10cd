from common import *
def main():
    c=Check("P20"); c.assum=CORE_ASSUM
    a=[]
    for g in ("3 1 1","4 1 1","5 1 1","6 1 1","1 3 1","1 4 1","2 3 1","3 3 1","3 4 1","4 5 1","2 6 1","1 1 3","1 1 4","2 1 3","3 2 4","2 3 5","4 3 3","3 3 4","1 5 5","2 2 6"):
        for kind in (0,1,2):
            if kind==0 and g in("4 3 3","3 3 4","1 5 5"): continue
            a.append((g+" %d"%kind).split())
    c.add("otherhalf","inv",MXW+MAT,["harness/otherhalf.c"]+STUBS,args=a,must_reach=("end",))
    c.bounds=["grids up to 6 points per axis, every rank and parity of the sizes; stored field and the three phases arbitrary"]
    return c.run()
