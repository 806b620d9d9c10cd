from common import *
S=["utils/mpb-data.c","src/matrixio/matrixio.c"]; H=["stubs/base.c","stubs/ctl.c","stubs/h5mem.c","stubs/h5info.c"]; F=("-Dmain=mpbdata_main",)
def main():
    c=Check("P32"); c.assum=CORE_ASSUM[:1]+["HDF5 is replaced by an in-memory stand-in with its rules for names, shapes and selections","comparisons of data values with each other (the range shown with -v) follow the nominal values"]
    R="""2 3 2 1 d 0 0 0
2 3 2 1 c 0 0 0 -P ANGLE
2 3 2 1 c 2 0 1 -m 2
2 4 3 1 v 2 0 0 -r -n 3
2 4 3 1 v 1 0 1 -T -x 2
3 2 3 2 b 2 1 0 -p -e 0,3,4
1 4 1 1 c 0 0 0 -x 1.5 -n 5
1 5 1 1 d 0 0 1 -x 3
1 3 1 1 v 1 0 0 -x 2
2 3 4 1 n 2 0 0 -r -m 2 -n 3
3 2 2 3 d 2 0 0 -r -e 1,2,2 -n 3 -T
3 2 3 2 v 2 1 1 -e 2,3,6 -n 1
2 3 3 1 d 3 0 0 -e 3,4,0
2 3 3 1 v 3 0 0 -e 3,-4,0 -n 1
3 3 2 2 v 1 0 0 -T -m 2 -P ANGLE
2 3 2 1 c 2 0 0 -e 3,4,0 -m 2 -n 2 -p
3 2 3 4 c 1 1 0 -y 2 -z 0.5
2 3 4 1 c 2 0 0 -y 1.5
3 1 3 2 b 0 0 1 -T -p -n 4
2 4 4 1 d 1 1 0 -m 2 -p
2 2 5 1 c 2 1 0 -T -m 2
3 3 3 3 v 2 0 0 -r -n 2"""
    if not QUICK: R+="\n3 4 4 4 v 2 1 0 -m 2 -T -P ANGLE\n3 4 3 2 c 2 0 0 -e 2,6,3 -n 4 -m 2\n2 7 6 1 v 2 0 0 -r -m 3 -n 5"
    M="""3 1 1 2 1 1 0 0 0 0
4 1 1 2 1 1 1 0 1 0
2 3 1 2 1 1 0 1 1 0
1 3 1 1 3 1 0 0 0 0
2 3 1 2 2 1 0 1 0 0
1 1 4 1 1 3 1 0 1 0
3 2 1 1 2 1 0 0 1 1
1 2 2 1 2 2 1 0 0 0
2 2 2 2 1 1 0 0 0 0"""
    if not QUICK: M+="\n4 3 1 2 2 1 0 0 1 0\n3 4 1 2 2 1 1 1 0 1\n5 1 1 4 1 1 0 0 1 0"
    c.add("mpbdata","complex",S,["harness/mpbdata.c"]+H,args=J(R),must_reach=("end",),flags=F)
    c.add("mpmap","complex",S,["harness/mpmap.c"]+H,args=J(M),must_reach=("end",),flags=F)
    c.bounds=["whole program: one file with data of one to three dimensions up to 3x3x3, arbitrary values, wavevector and phase angle, four concrete lattices, the listed options","resampling: arbitrary scale (up to 2.5) or shear of the coordinates, inputs up to 4, outputs up to 3 points per axis"]
    return c.run()
