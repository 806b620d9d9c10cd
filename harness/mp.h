#ifndef MP_H
#define MP_H
/* the program's own set-up (init-params, solve-kpoint) on a homogeneous structure whose tensors
   the harness then replaces; the eigensolver is the harness's */
#include "mx.h"
#undef MIN2
#undef MAX2
#include "mpb.h"
#include "ctlstub.h"
extern evectmatrix muinvH;
static material_type mp_medium(double e, double m) { material_type t; t.which_subclass = MEDIUM; t.subclass.medium_data = malloc(sizeof(medium)); t.subclass.medium_data->epsilon = e; t.subclass.medium_data->mu = m; return t; }
static vector3 mp_v(double x, double y, double z) { vector3 v = {x, y, z}; return v; }
/* lattices: 0 unit cube, 1 rectangular, 2 oblique with rational unit vectors */
static void mp_lattice(int kind, int nx, int ny, int nz) {
  lattice *l = &geometry_lattice; memset(l, 0, sizeof *l);
  l->basis.c0 = mp_v(1, 0, 0); l->basis.c1 = mp_v(0, 1, 0); l->basis.c2 = mp_v(0, 0, 1);
  l->size = mp_v(1, 1, 1);
  if (kind == 1) l->size = mp_v(1, 2, 0.5);
  if (kind == 2) { l->basis.c1 = mp_v(0.28, 0.96, 0); l->basis.c2 = mp_v(0.48, 0.36, 0.8); l->size = mp_v(1, 1.25, 0.5); }
  if (ny == 1 && nz == 1) { l->basis.c1 = mp_v(0, 1, 0); l->size.y = 1e-20; }
  if (nz == 1) { l->basis.c2 = mp_v(0, 0, 1); l->size.z = 1e-20; }
  l->basis1 = l->basis.c0; l->basis2 = l->basis.c1; l->basis3 = l->basis.c2; l->basis_size = mp_v(1, 1, 1);
}
static void mp_globals(int nx, int ny, int nz, int nb, int block, int lat, int mu) {
  ctl_n[0] = nx; ctl_n[1] = ny; ctl_n[2] = nz; dimensions = nz > 1 ? 3 : ny > 1 ? 2 : 1;
  mp_lattice(lat, nx, ny, nz); default_material = mp_medium(1, mu ? 2 : 1); geometry.num_items = 0; geometry.items = 0;
  geometry_center = mp_v(0, 0, 0); k_points.num_items = 0; num_bands = nb; tolerance = 1; target_freq = 0; mesh_size = 1;
  epsilon_input_file = ""; mu_input_file = ""; force_mup = 0; deterministicp = 1; simple_preconditionerp = 0; eigensolver_flags = 0;
  eigensolver_block_size = block; eigensolver_nwork = 3; eigensolver_davidsonp = 0; negative_epsilon_okp = 0;
}
static mxs mp_mxs(void) { mxs s; s.d = mdata; s.N = mdata->local_N; s.Ns = mdata->N_start; s.al = mdata->alloc_N; return s; }
static evectmatrix mp_ev(int p) { return create_evectmatrix(mdata->N, 2, p, H.localN, H.Nstart, H.allocN); }
#define MPSRC 1
#endif
