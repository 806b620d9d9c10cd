/* point queries. args: nx ny nz lat what mode axis
   what: 0 energy density, 1 Bloch vector field, 2 non-Bloch vector field, 3 Bloch scalar, 4 dielectric;  mode: 0 coordinate along axis arbitrary in two cells, 1 listed points and arbitrary k */
#include "mps.h"
#include "mpt.h"
#include "field-smob.h"
static cx *G_; static int nc;
static cx gv(int x, int y, int z, int c) { int n[3] = {mdata->nx, mdata->ny, mdata->nz}; x = ((x % n[0]) + n[0]) % n[0]; y = ((y % n[1]) + n[1]) % n[1]; z = ((z % n[2]) + n[2]) % n[2]; return G_[((x * n[1] + y) * n[2] + z) * nc + c]; }
/* trilinear interpolation of the periodic extension; t = grid coordinate (position/cell + 1/2) * n */
static cx interp(const double t[3], int c) { int f[3], a, o[3]; double w[3]; cx s = {0, 0}; for (a = 0; a < 3; a++) { f[a] = (int)floor(t[a]); w[a] = t[a] - f[a]; }
  for (o[0] = 0; o[0] < 2; o[0]++) for (o[1] = 0; o[1] < 2; o[1]++) for (o[2] = 0; o[2] < 2; o[2]++) { double g = 1; for (a = 0; a < 3; a++) g = g * (o[a] ? w[a] : 1 - w[a]); s = cxa(s, cxs(g, gv(f[0] + o[0], f[1] + o[1], f[2] + o[2], c))); } return s; }
static const double PT[6][3] = {{0.3125, -0.25, 0.25}, {-0.5, -0.5, -0.5}, {0.5, 1.25, -0.75}, {-1.4375, 0.25, 2.5}, {0, 0, 0}, {0.46875, 0.75, 0.5}};
static void one(cnumber g, cx w, const char *s, int p) { sr_checkf_eq(g.re, w.re, "%s re, point %d", s, p); sr_checkf_eq(g.im, w.im, "%s im, point %d", s, p); }
static void vec(cvector3 F, const double t[3], cx ph, const char *s, int p) { one(F.x, cxm(interp(t, 0), ph), s, p); one(F.y, cxm(interp(t, 1), ph), s, p); one(F.z, cxm(interp(t, 2), ph), s, p); }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), lat = A(v, 4), what = A(v, 5), mode = A(v, 6), ax = A(v, 7), i, x, y, z, c, q, cj, N = nx * ny * nz, p;
  mps_start(nx, ny, nz, 1, 1, lat, 0, 0); maxwell_data *d = mdata; int M = d->fft_output_size, n[3] = {nx, ny, nz}; double sz[3] = {geometry_lattice.size.x, geometry_lattice.size.y, geometry_lattice.size.z};
  if (what == 0) { get_dfield(1); compute_field_energy(); nc = 1; } else if (what == 1) { get_efield(1); nc = 3; } else if (what == 2) { get_hfield(1); curfield_type = 'v'; nc = 3; } else if (what == 3) { get_dfield(1); compute_field_divergence(); nc = 1; } else nc = 6;
  G_ = calloc(N * nc, sizeof(cx)); double (*w)[3] = calloc(M, sizeof *w);
  for (i = 0; i < M; i++) if (what == 0) ((real *)curfield)[i] = sr_varf(nomv(i + 3), "e%d", i); else if (what == 4) { mx_tensor_const(d->eps_inv + i, i); d->eps_inv[i].m00 = sr_varf(nomv(i), "t%d", i); 
#ifdef WITH_HERMITIAN_EPSILON
    d->eps_inv[i].m02.im = sr_varf(nomv(i + 90), "s%d", i);
#else
    d->eps_inv[i].m02 = sr_varf(nomv(i + 90), "s%d", i);
#endif
  } else for (c = 0; c < nc; c++) { curfield[nc * i + c].re = sr_varf(nomv(i * 7 + c), "f%d_%dr", i, c); curfield[nc * i + c].im = sr_varf(nomv(i * 7 + c + 900), "f%d_%di", i, c); }
#ifndef SCALAR_COMPLEX
  /* stored partners of stored points carry the conjugate value, self-conjugate points are real */
  for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int c2, r; q = mx_pidx(d, x, y, z, &cj); if (cj) continue; r = mx_pidx(d, (nx - x) % nx, (ny - y) % ny, (nz - z) % nz, &c2); if (c2) continue; if (what == 0) { if (r > q) ((real *)curfield)[r] = ((real *)curfield)[q]; } else if (what == 4) { if (r > q) d->eps_inv[r] = d->eps_inv[q]; } else for (c = 0; c < nc; c++) { if (r > q) { curfield[nc * r + c].re = curfield[nc * q + c].re; curfield[nc * r + c].im = -curfield[nc * q + c].im; } else if (r == q) curfield[nc * q + c].im = 0; } }
#endif
  for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) for (c = 0; c < nc; c++) { cx g = {0, 0}; q = mx_pidx(d, x, y, z, &cj); if (what == 0) g.re = ((real *)curfield)[q]; else if (what == 4) { static const int R[6] = {0, 1, 2, 0, 0, 1}, C[6] = {0, 1, 2, 1, 2, 2}; g = mx_el(d->eps_inv + q, R[c], C[c]); } else { g.re = curfield[nc * q + c].re; g.im = curfield[nc * q + c].im; } if (cj) g.im = -g.im; G_[((x * ny + y) * nz + z) * nc + c] = g; }
  cur_kvector = mode ? mp_v(sr_var("kx", 0.2), 0.5, -0.5) : mp_v(0.5, -0.5, 0.5); if (mode) sr_angle(cur_kvector.x, 64);
  for (p = 0; p < (mode ? 6 : 1); p++) { double r[3], t[3]; int a; for (a = 0; a < 3; a++) { r[a] = mode ? PT[p][a] : a == ax ? 0 : 0.25; if (n[a] == 1 && p % 2) r[a] = 0; }
    if (!mode) { r[ax] = sr_var("r", 0.3); sr_assume_ge(r[ax], -1.5); sr_assume_ge(1.5, r[ax]); }
    vector3 P = mp_v(r[0] * sz[0], r[1] * sz[1], r[2] * sz[2]); for (a = 0; a < 3; a++) t[a] = (r[a] + 0.5) * n[a];
    cx ph = {1, 0}; double phi = cur_kvector.x * r[0] + cur_kvector.y * r[1] + cur_kvector.z * r[2]; if (!mode && what) sr_angle(r[ax], 4); if (what == 1 || what == 3) { ph.re = sr_cos2pi(phi); ph.im = sr_sin2pi(phi); } cx one_ = {1, 0};
    if (what == 0) { sr_checkf_eq(get_energy_point(P), interp(t, 0).re, "energy at point %d", p); }
    if (what == 1 || what == 2) { vec(get_bloch_field_point(P), t, one_, "Bloch field", p); vec(get_field_point(P), t, ph, "field", p); }
    if (what == 3) { one(get_bloch_cscalar_point(P), interp(t, 0), "Bloch scalar", p); one(get_cscalar_point(P), cxm(interp(t, 0), ph), "scalar", p); }
    if (what == 4) { cmatrix3x3 m = get_epsilon_inverse_tensor_point(P); cnumber *e = (cnumber *)&m; /* columns */ static const int I[6] = {0, 4, 8, 3, 6, 7}, J[6] = {0, 4, 8, 1, 2, 5}; for (c = 0; c < 6; c++) { one(e[I[c]], interp(t, c), "inverse tensor", c * 10 + p); one(e[J[c]], cxc(interp(t, c)), "inverse tensor, adjoint", c * 10 + p); } } }
  (void)w; sr_reach("end"); return 0; }
