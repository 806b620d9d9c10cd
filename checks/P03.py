from common import *
def main():
    c=Check("P03"); c.assum=CORE_ASSUM
    a=J("""2 2 1 3 1 0 0 -1
2 2 1 3 2 0 1 -1
2 2 1 3 3 1 1 -1
2 1 1 4 3 1 1 -1
3 2 1 2 2 0 0 -1
2 1 2 5 2 1 0 -1
2 1 1 5 4 0 1 3
2 2 1 3 3 1 0 2
2 1 1 3 8 0 0 1
2 1 1 3 2 1 2 -1
2 1 1 2 1 0 2 -1
1 1 4 4 3 0 1 -1""")
    for cfg in ("complex","inv"): c.add("batch",cfg,MXW+MAT,["harness/batch.c"]+STUBS,args=a,must_reach=("end",))
    c.bounds=["up to 5 bands, batches of 1..8, up to 40 earlier batch shapes on the same data object; fields arbitrary, tensors and frames fixed generic rationals (their full generality is P01)"]
    return c.run()
