from common import *
def main():
    c=Check("P25"); c.assum=CORE_ASSUM+["for two evaluations the quick check draws the first pair of values from six shapes relative to the starting slope; the thorough check leaves it arbitrary"]
    a="1 0 0\n1 1 0\n1 1 1\n2 2 0"
    if not QUICK: a+="\n2 2 1\n2 0 0\n2 0 1"
    c.add("linmin","complex",["src/matrices/linmin.c","src/matrices/minpack2-linmin.c"],["harness/linmin.c","stubs/base.c"],args=J(a),must_reach=("returned",),env={"SR_LIN":"1"},maxpaths=60000)
    c.bounds=["searches of up to two function evaluations after the starting point, interval 0..pi in either direction, every starting slope and initial guess"]
    return c.run()
