from common import *
def main():
    c=Check("P38"); c.assum=CORE_ASSUM
    a=J("""2 2 1 1 0 0
3 1 2 2 0 0
1 2 3 1 0 0
4 1 1 2 0 0
1 1 5 1 0 0
2 2 1 2 0 3
3 1 2 1 0 3
2 2 1 2 1 2
2 1 2 2 1 3
3 1 1 1 1 4
1 2 2 1 1 5
1 3 1 2 1 2
1 1 4 1 1 3
2 3 2 1 2 1
3 2 1 1 2 0""")
    c.add("planewave","complex",MXW+MAT,["harness/planewave.c"]+STUBS,args=a,must_reach=("end",))
    c.add("planewave","herm",MXW+MAT,["harness/planewave.c"]+STUBS,args=a[1:2]+a[5:8],must_reach=("end",))
    c.add("planewave","inv",MXW+MAT,["harness/planewave.c"]+STUBS,args=J("2 2 1 2 1 0\n3 1 1 1 1 2\n1 1 4 1 1 4\n2 2 1 1 2 0"),must_reach=("end",))
    c.bounds=["grids up to 5 points per axis, every order from -n/2 to n/2, up to 2 bands; for setting: fields, axis and both amplitudes arbitrary; for diagnosis: up to 4 waves, one arbitrary real number in each; one generic and one z-directed rational k"]
    return c.run()
