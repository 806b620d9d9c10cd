from common import *
def main():
    c=Check("P09"); c.assum=CORE_ASSUM
    a=J("""2 2 1 1 1 0 2 0
2 1 1 2 1 1 1 0
2 2 2 3 2 0 1 0
3 1 1 2 2 0 1 0
2 2 1 1 1 0 1 1
2 1 1 1 1 1 1 1
3 2 1 4 3 1 1 0
1 1 1 1 1 0 0 1""")
    for cfg in ("complex","inv","herm"): c.add("target",cfg,MXW+MAT,["harness/target.c"]+STUBS,args=a if cfg!="herm" else a[3:6],must_reach=("end",))
    c.bounds=["grids up to 3 points per axis, up to 4 bands in batches of 1..3; fields, target frequency, |k+G| arbitrary; inverse tensors arbitrary in the rows with eps flag 1"]
    return c.run()
