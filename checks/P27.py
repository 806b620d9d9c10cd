from common import *
def main():
    c=Check("P27"); c.assum=CORE_ASSUM
    a=J("""0 2 2
0 3 1
0 1 3
1 2 2 2
1 3 2 3
1 2 1 3
1 3 3 3
1 1 2 2
2 2 2 2
2 3 2 3
2 3 1 2
2 2 3 4
2 1 1 1
3 2 3 3
3 2 2 3
3 3 3 2
3 1 1 1
4 3 2 3
4 3 3 2
4 3 1 3
4 2 3 1""")
    for cfg in ("complex","inv"): c.add("ev",cfg,MAT,["harness/ev.c"]+STUBS+["stubs/lapack.c"],args=a,must_reach=("end",))
    c.bounds=["blocks of up to 3 columns and 3 rows of arbitrary numbers (small matrices up to 4x4), every choice of slices and offsets"]
    return c.run()
