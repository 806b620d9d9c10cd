from common import *
def main():
    c=Check("P33"); c.assum=CORE_ASSUM[:1]+["HDF5 is replaced by an in-memory stand-in; the resampling of the datasets itself is cut off (property P32)","the lattice vectors are independent"]
    R="""2 - 0 0 0
1 - 0 0 0
1 n 1 1 0
0 n 0 0 0
0 - 0 1 0
1 - 1 1 0
1 3,4,0 1 1 0
2 1,-2,2 1 1 0
0 1,2,2 1 0 0
0 2,-3,6 0 0 0
1 S 0 0 0
2 3,-4,0 0 0 1
2 1,-2,2 1 0 2"""
    if not QUICK: R+="\n2 S 0 1 0\n0 -6,2,3 0 1 0\n1 S 1 1 0"
    c.add("mprect","complex",["utils/mpb-data.c","src/matrixio/matrixio.c"],["harness/mprect.c","stubs/base.c","stubs/ctl.c","stubs/h5mem.c","stubs/h5info.c"],args=J(R),must_reach=("end",),flags=("-Dmain=mpbdata_main",))
    c.bounds=["all nine components of the lattice vectors, the periods and the wavevector are arbitrary; directions with rational length in three dimensions, arbitrary ones in the plane of a planar lattice"]
    return c.run()
