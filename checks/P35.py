from scm import *
def main():
    c=SCheck("P35"); c.assum=SCM_ASSUM
    a=[[0,n,1000] for n in range(0,8)]+[[1,n,10] for n in range(0,10)]+[[2,n,6] for n in (0,1,2,3,5)]
    if not QUICK: a+=[[0,n,100000] for n in range(8,13)]+[[1,n,20] for n in range(10,20)]+[[2,n,9] for n in (4,6,7)]
    c.add("ctlstubs.scm+ksplit.scm",a,must_reach=("end","outside","chunk","run"),functions=["mpb.scm:list-split","mpb.scm:run-parity","mpb.scm:update-band-range-data"])
    c.bounds=["lists of up to 7 k-points with arbitrary chunk count 1..1000 and arbitrary index; all chunks together for up to 9 k-points and 10 chunks; complete runs for up to 5 k-points and 6 chunks"]
    return c.run()
