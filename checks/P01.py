from common import *
def main():
    c=Check("P01"); c.assum=CORE_ASSUM; c.bounds=["grids up to 4 points in 1, 2 and 3 dimensions (rows list number of bands, batch, what is symbolic); fields arbitrary with fixed tensors/frames, tensors arbitrary with fixed fields, and (smallest grids) frames arbitrary"]
    for cfg in ("complex","herm","inv"):
        c.add("op",cfg,MXW+MAT,["harness/op.c"]+STUBS,args=J("""2 2 1 1 1 0 1 1 2
2 2 2 1 1 1 1 0 2
3 1 1 1 1 0 2 1 2
2 2 1 2 1 0 0 1 0
2 2 2 1 1 0 0 1 0
2 1 1 1 1 1 1 3 0
2 2 1 1 1 1 2 1 0
2 2 1 1 1 1 1 2 1
4 2 1 2 2 0 2 1 0
3 1 1 2 2 1 1 2 0
3 2 2 3 2 1 1 0 0
4 2 2 3 2 1 1 1 1
2 2 2 3 3 1 1 2 1
"""),must_reach=("end",))
    return c.run()
