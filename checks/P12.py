from common import *
def main():
    c=Check("P12"); c.assum=CORE_ASSUM
    for cfg in ("complex","herm","inv"):
        a=J("""2 3 4 0 1 0
3 2 3 0 1 1
4 1 1 0 1 0
5 1 1 0 1 0
3 4 1 0 1 0
4 3 1 0 1 1
1 2 3 0 1 0
2 1 2 0 1 0
2 1 1 1 2 0
2 3 1 1 2 1
2 2 2 1 2 0
3 1 1 2 3 0
2 2 1 2 2 1
2 1 2 2 2 0
1 3 1 2 2 0
3 1 1 2 4 0""")
        if cfg=="herm": a=a[2:]
        c.add("epsgrid",cfg,MXW+MAT,["harness/epsgrid.c"]+STUBS,args=a,must_reach=("end",))
    c.bounds=["grids up to 24 points in 1, 2 and 3 dimensions of even and odd sizes; averaging meshes up to 8 points; arbitrary tensors at every point"]
    return c.run()
