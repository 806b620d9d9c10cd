from common import *
def main():
    c=Check("P14"); c.assum=CORE_ASSUM+["geometry (which object contains a point, surface normal, the fraction of a pixel inside an object) supplied by the harness; libctl/Guile replaced by stand-ins","reading epsilon/mu files is replaced by the harness (P29)"]
    pts=[[0,k,w,(k+w)%4,w%2,1+(k+w)%3,k%3,(2*k+w)%5 if k in (0,1,5) or not QUICK else 3+w%2] for k in range(6) for w in range(7)]
    pts+=[[0,k,w,f,u,2,0,4] for k,w,f,u in ((0,1,1,0),(0,1,2,1),(0,2,1,0),(0,2,3,1),(1,1,2,0),(4,1,1,1),(0,0,3,0),(0,0,3,1),(0,5,1,0),(0,6,2,1))]
    has=[[1,k,w,s] for k in range(5) for w in range(4) for s in ((0,1,2) if 0<k<4 else (0,))]+[[1,5,w,0] for w in range(4)]+[[1,6,1,s] for s in range(4)]
    px=[[2,a,2,0,1,0,a%2] for a in range(29)]+[[2,a,1,1,0,0,(a+1)%2] for a in (0,1,2,4,5,7,9,10,11,15,18)]+[[2,a,3,0,5,0,a%2] for a in (0,5,6,7,9,10)+tuple(range(21,29))]
    ob=[[2,0,2,2,1,0,0],[2,5,3,2,5,0,1],[2,9,3,1,6,0,0],[2,6,3,2,0,0,1]]
    an=[[2,7,3,1,5,1,1],[2,1,1,0,0,1,0],[2,0,3,0,4,2,1],[2,5,3,0,5,1,0],[2,6,2,0,1,3,0],[2,9,2,0,0,3,1],[2,8,2,0,0,2,0],[2,2,2,0,0,1,1]]
    slow=[[2,0,2,2,1,1,0],[2,9,3,2,6,3,0],[2,5,2,0,1,1,0],[2,6,3,0,5,3,1],[2,10,2,2,0,2,1]]
    S=lambda r:[[str(x) for x in q]+(["0"] if q[0]==2 else []) for q in r]
    full=pts+has+px+ob+an
    sel=dict(complex=full,herm=pts[1::4]+has[::3]+px[::5]+an[:4:2],inv=pts[::4]+px[::7])
    for cfg in ("complex","herm","inv"):
        r=sel[cfg] if QUICK else full+[[2,a,d,l,n,0,u] for a in range(29) for d,l,n in ((2,2,3),(3,0,2),(3,2,5)) for u in (0,1)]+slow
        c.add("mats",cfg,MPBALL,["harness/mats.c"]+MPSTUBS,args=S(r),must_reach=("end",))
    c.bounds=["one point (one coordinate arbitrary over three cells) and every parameter of one material arbitrary, for seven ways of defining it; pixels: 29 arrangements of up to two objects, the default material, holes, periodic images and files in one to three dimensions, the covered fraction arbitrary, rational normals, material parameters arbitrary on one or both sides; start-up: one material with one or two arbitrary permeability entries in any of four places"]
    return c.run()
