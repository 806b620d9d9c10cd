from common import *
def main():
    c=Check("P02"); c.assum=CORE_ASSUM
    a=J("""
1 1 1 1
1 1 1 4
2 1 1 1
2 3 1 1
1 3 2 4
3 1 1 4
3 1 1 1
5 1 4 2
2 3 4 2
4 5 3 2
6 7 1 2
3 1 5 3
2 2 4 3
1 1 6 3
1 2 1 1
""")
    c.add("frames","complex",MXW+MAT,["harness/frames.c"]+STUBS,args=a,must_reach=("end",))
    c.add("frames","inv",MXW+MAT,["harness/frames.c"]+STUBS,args=J("2 1 1 1\n3 1 1 1\n2 3 4 2\n1 1 5 3"),must_reach=("end",))
    c.bounds=["grids up to 7 points per axis; k and all reciprocal vectors arbitrary reals (modes 0,1), rational lattice for k=0 and k along z"]
    return c.run()
