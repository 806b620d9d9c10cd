from common import *
def main():
    c=Check("P26"); c.assum=CORE_ASSUM+["LAPACK eigensolvers return an exact decomposition of the matrix they are given (registered by the harness, which checks that it is the right matrix); inverses are exact"]
    a=J("""0 1
0 2
0 3
1 3 2
1 2 3
1 1 3
1 3 1
1 3 3
2 1 0
2 1 1
2 2 0
2 2 1
2 3 0
2 3 1
3 1 0
3 2 0
3 3 0
3 1 1
3 2 1
3 3 1
4 1
4 2
4 3
5 1
5 2
5 3
6 2 3
6 3 2
6 1 1""")
    for cfg in ("complex","inv"): c.add("sq",cfg,MAT,["harness/sq.c"]+STUBS+["stubs/lapack.c"],args=a,must_reach=("end",))
    c.bounds=["matrices up to 3x3, contents arbitrary (for eigenproblems: arbitrary ascending eigenvalues on one fixed generic rational unitary basis per size)"]
    return c.run()
