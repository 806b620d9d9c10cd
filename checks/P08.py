from common import *
def main():
    c=Check("P08"); c.assum=CORE_ASSUM
    a=J("""2 2 1 1 1 0 2 0 0 0 0
2 2 1 2 1 0 2 1 1 0 0
3 1 2 3 2 2 2 1 1 0 0
2 1 1 2 1 2 0 0 1 0 0
2 2 1 1 1 1 1 1 0 0 0
2 2 2 1 2 1 1 0 0 0 0
2 3 1 3 2 1 1 1 0 0 0
2 2 1 2 2 1 2 0 1 0 0
2 1 1 1 1 1 1 0 0 1 0
2 2 1 1 1 1 0 0 0 1 0
1 3 1 2 1 1 1 0 0 1 1
4 1 1 1 1 1 2 0 0 0 0
2 2 1 3 2 3 1 1 1 0 0
2 1 2 2 1 3 1 0 0 0 0
2 2 1 1 1 3 1 0 0 0 0
""")
    for cfg in ("complex","inv","herm"): c.add("precond",cfg,MXW+MAT,["harness/precond.c"]+STUBS,args=a if cfg!="herm" else a[4:9],must_reach=("end",))
    c.bounds=["grids up to 4 points per axis, up to 3 bands in batches of 1..2; fields, |k+G| (or full frames), the overlap matrix and the inverse tensors arbitrary"]
    return c.run()
