from scm import *
def main():
    c=SCheck("P34"); c.assum=SCM_ASSUM
    a=[[1,3,0],[2,2,0],[2,3,0],[3,2,0],[2,2,1],[3,1,0],[1,4,0],[4,1,1],[2,2,2]]
    if not QUICK: a+=[[3,3,0],[2,4,0],[4,2,0],[3,2,1]]
    c.add("ctlstubs.scm+gaps.scm",a,must_reach=("end","gap"),functions=["mpb.scm:"+x for x in "run-parity update-band-range-data output-band-range-data output-gaps retrieve-gap list-split".split()])
    c.bounds=["up to 4 bands and 4 k-points (at most 6 band frequencies per run), every frequency an arbitrary positive real below 1e5, optionally after an earlier run with other ranges"]
    return c.run()
