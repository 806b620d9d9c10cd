from common import *
def main():
    c=Check("P17"); c.assum=CORE_ASSUM+["the iterative eigensolver is replaced by the harness","libctl/Guile and the geometry library replaced by stand-ins (object membership is the harness's)","the 3x3 eigen-decompositions of the tensors used are known to the LAPACK stand-in"]
    # nx ny nz nb block lat mu what(2 symbolic eigenvectors, 16 symbolic thresholds, 32 energies of arbitrary fields, 64 restrictions)
    for cfg,a in (("complex","""2 2 1 2 0 0 0 32
2 3 1 2 0 0 1 32
2 2 2 1 0 1 0 32
3 2 1 3 2 2 0 64
2 2 2 2 0 1 1 64
4 1 1 1 0 0 0 64
3 1 1 1 0 0 0 80"""),("inv","""2 2 2 1 1 1 1 32
3 2 1 2 1 2 0 32
2 3 1 1 0 0 1 32
2 2 3 1 0 0 0 32
4 1 1 1 0 0 0 32
3 1 1 1 0 0 0 32
3 2 1 2 1 2 0 64
3 3 1 1 0 0 1 64
2 4 1 1 0 0 0 64
2 2 3 1 0 1 0 64
2 3 2 1 0 1 0 64
4 1 1 1 0 0 0 80
3 1 1 1 0 0 0 80"""),("herm","""2 2 1 2 0 1 1 32
2 2 1 2 0 1 1 64""")):
        c.add("energy",cfg,MPBALL,["harness/energy.c"]+MPSTUBS,args=J(a),must_reach=("end",))
    c.bounds=["grids up to 3x2, 3x3, 2x4, 2x2x3; field values arbitrary (energies), energy-density values arbitrary (restrictions), tensors from a fixed anisotropic family; energy-share figures for fields of nonzero energy and for the zero field; thresholds from a fixed list, or arbitrary on 1d grids; five object lists incl. overlaps and a 'nothing' object, not inversion-symmetric"]
    return c.run()
