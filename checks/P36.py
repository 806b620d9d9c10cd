from scm import *
def main():
    c=SCheck("P36"); c.assum=SCM_ASSUM+["the root finder of libctl is replaced by one that asks for arbitrary points and returns an arbitrary point"]
    a=[[1,1,1,0],[1,1,2,1],[1,1,3,0],[1,2,1,1],[2,3,1,2],[3,3,2,2],[4,5,1,1],[1,3,1,0]]
    if not QUICK: a+=[[1,2,2,0],[1,2,3,1],[1,3,2,0],[1,1,5,0],[2,4,1,1]]
    c.add("ctlstubs.scm+findk.scm",a,must_reach=("end","guess","cached","functions"),functions=["mpb.scm:find-k","mpb.scm:run-parity","mpb.scm:apply-band-func-thunk","mpb.scm:update-band-range-data"])
    c.bounds=["up to 3 bands and 3 evaluations in all; target frequency, all frequencies, group velocities, evaluation points and returned roots arbitrary reals; three search lines"]
    return c.run()
