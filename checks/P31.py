from common import *
from P30 import SRC,EX
def main():
    c=Check("P31"); c.assum=CORE_ASSUM+["geometry supplied by the harness; libctl/Guile replaced by stand-ins","the eigensolver is replaced: it returns given frequencies and eigenvectors with arbitrary entries","the optimization library is not part of the build: its callbacks (objective, constraints) are called directly"]
    for cfg in ("complex","inv"):
        a="""2 0 0 0
2 0 0 1
2 1 0 2
2 2 0 3
2 0 0 4
2 0 1 2
3 2 0 1 0
3 1 0 2 1
3 0 0 0 0
3 2 0 4 1
4 2 0 0 1
4 1 0 2 2
4 0 0 1 2
5 2 0 0 3 2 1
5 2 0 0 4 3 1
5 2 0 0 3 4 1
6 0 0 0"""
        if cfg=="complex": a+="\n5 2 0 1 3 1 1\n5 2 0 0 2 2 2"
        c.add("matgrid",cfg,SRC,["harness/matgrid.c"]+MPSTUBS,args=J(a),must_reach=("end",),export=EX)
    c.bounds=["up to three distinct grids of up to 3x2 parameters shared by up to four objects and the default material","two k-points, three bands, two successive evaluations with arbitrary leftover work arrays; epsilon matching with arbitrary parameters in (0,1) and arbitrary target values"]
    return c.run()
