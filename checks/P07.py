from common import *
def main():
    c=Check("P07"); c.assum=CORE_ASSUM
    a=J("2 2 1 1 0\n2 2 1 3 0\n3 1 1 2 0\n2 1 2 4 0\n1 2 3 2 0\n2 2 1 2 1\n1 1 1 1 0\n2 2 2 3 0")
    for cfg in ("complex","inv","herm"): c.add("zerok",cfg,MXW+MAT,["harness/zerok.c"]+STUBS,args=a if cfg!="herm" else a[1:3],must_reach=("end",))
    c.bounds=["grids up to 3 points per axis, 1..4 bands, every parity combination; fields and inverse dielectric tensors arbitrary"]
    return c.run()
