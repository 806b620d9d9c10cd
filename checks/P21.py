from common import *
def main():
    c=Check("P21"); c.assum=CORE_ASSUM+["HDF5 is replaced by an in-memory stand-in with its rules for names, shapes and selections","the mean epsilon of a tensor is replaced by a rational function of its entries, the tensor fields are concrete"]
    G=("1 1 1 0","2 1 1 0","3 1 1 1","4 1 1 0","1 3 1 0","1 4 1 1","2 3 1 2","3 2 1 1","4 4 1 2","3 4 1 0","2 2 3 1","3 2 2 2","2 3 4 0","1 2 3 1","3 3 3 2","4 2 2 0","1 1 4 0")
    if not QUICK: G+=("6 4 3 2","4 6 1 0","3 4 6 1","2 2 12 0")
    R=[]; i=0
    for g in G:
        two=g.split()[2]=="1"
        for kd in "dCR": R.append("%s %d %s %d %d %d"%(g,i%2,kd,(-1,1,-1,0,-1,2)[i%6] if kd=="d" else -1,i%2,i%3==0 and two)); i+=1
    R+=["%s %d %s %d %d %d"%(g,m,k,w,p,q) for g,m,k,w,p,q in (("4 3 1 2",0,"h",2,1,1),("3 2 4 0",1,"b",0,0,0),("2 3 3 2",1,"e",-1,1,0),("3 3 2 1",0,"v",-1,0,0),("4 2 1 2",0,"c",1,0,1),("2 3 2 0",0,"D",-1,0,0),("3 2 2 2",1,"H",-1,1,0),("4 3 1 0",1,"B",2,0,1),("3 4 1 2",1,"m",-1,0,1),("2 2 3 0",1,"m",-1,1,0))]
    N=["%s 0 n -1 %d 0"%(g,p) for g,p in (("2 3 1 2",0),("3 2 2 0",1),("4 1 1 0",1),("1 3 4 1",0),("3 3 3 2",0))]
    S=MPBALL+["src/matrixio/matrixio.c","src/matrixio/fieldio.c","src/matrixio/evectmatrixio.c"]; H=["harness/fldout.c"]+MPSTUBS+["stubs/h5mem.c","stubs/h5info.c"]
    c.add("fldout","complex",S,H,args=J("\n".join(R+N)),must_reach=("end",))
    c.add("fldout","inv",S,H,args=J("\n".join(R+N)),must_reach=("end",))
    c.add("fldout","herm",S,H,args=J("\n".join((R if not QUICK else R[::6])+N)),must_reach=("end",))
    c.bounds=["grids up to 3x3x3 and 4x4 (thorough: 6x4x3), three lattices, one process; arbitrary field values and wavevector, every kind of field, one or all components, with and without prefix and parity"]
    return c.run()
