from common import *
def main():
    c=Check("P11"); c.assum=CORE_ASSUM+["planar interface whose normal is sampled symmetrically by the spherical quadrature (axes and in-plane 3-4-5 directions)"]
    iso=J("""1 0 10 2 1 1 0 0 0 0
1 0 10 4 1 1 0 1 0 0
1 5 -10 3 1 1 0 0 0 1
2 0 10 2 2 1 0 0 0 0
2 1 -10 2 2 1 0 1 0 0
2 6 10 3 2 1 0 0 1 0
3 2 10 2 2 2 0 0 0 0
3 0 10 2 1 2 0 1 0 0
3 7 5 2 2 2 0 1 0 0
2 0 60 2 2 1 0 0 0 0
2 0 10 1 1 1 0 0 0 0""")
    an=J("""1 0 10 2 1 1 1 0 0 0
2 1 10 2 2 1 1 0 0 0
2 0 10 2 2 1 2 1 0 0
3 2 10 2 2 2 1 0 0 0
3 1 10 2 2 2 2 0 0 1
3 0 -10 2 2 2 2 1 0 0""")
    sel=dict(complex=[iso[i] for i in (1,2,3,5,6,8,9,10)]+[an[2]],inv=[iso[i] for i in (0,4,7,9)]+[an[3]],herm=[iso[2],an[1],an[5]])
    for cfg in ("complex","herm","inv"):
        c.add("kottke",cfg,MXW+MAT,["harness/kottke.c"]+STUBS,args=(iso+an if not QUICK else sel[cfg]),must_reach=("end","interface"),qto=30)
    c.bounds=["one grid pixel cut by a planar interface, meshes up to 8 points, arbitrary isotropic pairs or one arbitrary anisotropic tensor against a fixed one"]
    return c.run()
