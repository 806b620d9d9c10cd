from common import *
def main():
    c=Check("P06"); c.assum=CORE_ASSUM
    for cfg in ("complex","inv"):
        c.add("kparity",cfg,MXW+MAT,["harness/kparity.c"]+STUBS,args=J("1 1 1 2 0\n2 1 1 3 0\n1 2 2 1 0\n2 2 1 1 1\n3 2 1 1 1\n1 4 1 1 1"),must_reach=("end",),maxpaths=5000)
    c.bounds=["every parity mask, every sequence of two k changes and two requests, k arbitrary in each sign pattern; orthogonal lattice"]
    return c.run()
