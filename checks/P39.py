from common import *
H5=["stubs/h5mem.c","stubs/h5info.c"]
def main():
    c=Check("P39"); c.assum=["HDF5 is replaced by an in-memory stand-in with its rules for names, shapes and selections","several processes are run one after the other, creating files together and opening what the first one created"]
    R=[]
    for r,d in ((1,(5,1,1)),(1,(4,1,1)),(2,(3,4,1)),(2,(2,3,1)),(3,(2,3,2)),(3,(3,2,5)),(3,(1,2,3)),(2,(4,1,1))):
        for st in (1,2,3,6):
            for ax in range(r):
                cut=d[ax]//2; R.append((0,r)+d+(ax,cut,st,(st+ax)%d[0],1 if (st+ax)%d[0] else d[0]))
    R+=[(0,3,3,4,5,1,1,6,1,2),(0,2,3,3,1,0,0,2,0,2),(0,2,3,3,1,1,3,6,1,2),(0,1,7,1,1,0,2,5,3,4)]
    R+=[(1,r,a,b,f) for r,a,b in ((0,1,1),(1,3,1),(1,1,1),(2,3,3),(2,1,4)) for f in (0,1)]
    R+=[(2,n,cc,p,P,Q) for n,cc,p,P,Q in ((3,2,1,1,1),(4,2,2,2,1),(5,2,3,3,2),(4,2,2,3,3),(2,1,2,3,2),(7,2,1,4,3),(1,2,4,2,1))]+[(3,)]
    for cfg in ("complex","inv"): c.add("h5io",cfg,MAT+["src/matrixio/matrixio.c","src/matrixio/evectmatrixio.c"],["harness/h5io.c"]+STUBS+["stubs/lapack.c"]+H5,args=[[str(x) for x in r] for r in (R if cfg=="complex" or not QUICK else R[::4]+R[-8:])],must_reach=("end",))
    c.bounds=["arrays of one to three dimensions, up to 60 arbitrary elements, written in two parts along each dimension (also an empty part) with strides 1 to 6, read whole or by slabs of the first dimension; attributes up to 3x3; vectors up to 7x2x4 written by up to 4 and read by up to 3 processes; every dimension one too large or too small"]
    return c.run()
