from scm import *
def main():
    c=SCheck("P41"); c.assum=SCM_ASSUM
    a=[[n,2,1,2] for n in range(9)]+[[0,3,1,1],[4,3,1,1],[0,1,5,2]]+([] if QUICK else [[2,2,2,1],[1,3,1,1],[2,3,1,1],[3,3,1,1],[6,3,1,1],[5,2,2,2],[4,3,2,1],[0,1,12,2]])
    c.add("bz.scm",a,functions=["mpb.scm:first-brillouin-zone","libctl: reciprocal->cartesian, vector3 operations"])
    c.bounds=["nine lattices with a reduced basis; wavevectors with one, two or three arbitrary components within 5, 2 and 1 reciprocal units of the origin; equivalent wavevectors up to two shells away"]
    return c.run()
