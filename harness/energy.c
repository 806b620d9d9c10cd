/* scalar energy densities, their totals and restrictions. args: nx ny nz nb block lat mu what(16: symbolic thresholds) */
#include "mps.h"
#include "mpt.h"
static double emean[256]; static double box_lo; static int nobj; 
/* object n contains the points with p.x >= -0.3 + 0.2 n and p.y < 0.2 + 0.1 n (not symmetric under inversion) */
static int inside(vector3 p, int n) { return p.x >= -0.3 + 0.2 * n && (p.y < 0.2 + 0.1 * n || n == 2) && (p.z < 0.1 || n != 1); }
boolean point_in_periodic_fixed_objectp(vector3 p, geometric_object o) { return inside(p, (int)o.center.x); }
static vector3 ptxyz(int x, int y, int z) { int n[3] = {mdata->nx, mdata->ny, mdata->nz}, i[3] = {x, y, z}, c; double s[3] = {geometry_lattice.size.x, geometry_lattice.size.y, geometry_lattice.size.z}, p[3]; for (c = 0; c < 3; c++) p[c] = n[c] == 1 ? 0 : i[c] * s[c] / n[c] - s[c] / 2; return mp_v(p[0], p[1], p[2]); }
static int FOR(int i, int *x, int *y, int *z) { *z = i % mdata->nz; *y = i / mdata->nz % mdata->ny; *x = i / mdata->nz / mdata->ny; return i < mdata->nx * mdata->ny * mdata->nz; }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), block = A(v, 5), lat = A(v, 6), mu = A(v, 7), what = A(v, 8), i, b, c, t, x, y, z, N = nx * ny * nz, cj;
  mps_start(nx, ny, nz, nb, block, lat, mu, what & 15); maxwell_data *d = mdata;
  static const double W[4][3] = {{0.25, 0.25, 0.5}, {0.125, 0.375, 2}, {0.5, 1.5, 1.5}, {0.75, 0.75, 0.75}};
  for (i = 0; i < d->fft_output_size; i++) { mp_known(d->eps_inv + i, i + 1, W[(i * 3 + 1) % 4]); emean[i] = 2 / (W[(i * 3 + 1) % 4][0] + W[(i * 3 + 1) % 4][1]); }
  double *den = calloc(N, sizeof(double)); cx (*F)[3] = calloc(N, sizeof *F);
  static const char K[] = "dbh"; for (t = 0; t < (what & 64 ? 0 : mu ? 2 : 3); t++) { double tot = 0, comp[6] = {0}; b = (t + 1) % nb;
    if (K[t] == 'd') get_dfield(b + 1); else if (K[t] == 'b') get_bfield(b + 1); else get_hfield(b + 1);
    if (what & 32) for (i = 0; i < 3 * d->fft_output_size; i++) { curfield[i].re = sr_varf(nomv(i + t * 50), "f%d_%dr", t, i); curfield[i].im = sr_varf(nomv(i + 1000 + t * 50), "f%d_%di", t, i); }
    for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); cx M[3][3]; symmetric_matrix *T = K[t] == 'd' ? d->eps_inv : K[t] == 'b' && mu ? d->mu_inv : 0; if (T) mx_sq3(M, d, T, x, y, z);
      for (c = 0; c < 3; c++) { F[i][c].re = curfield[3 * q + c].re; F[i][c].im = cj ? -curfield[3 * q + c].im : curfield[3 * q + c].im; }
      den[i] = 0; for (c = 0; c < 3; c++) { cx g = F[i][c]; if (T) { int e; g.re = g.im = 0; for (e = 0; e < 3; e++) g = cxa(g, cxm(M[c][e], F[i][e])); } comp[2 * c] += g.re * F[i][c].re; comp[2 * c + 1] += g.im * F[i][c].im; den[i] += g.re * F[i][c].re + g.im * F[i][c].im; }
      tot += den[i]; }
    if (what & 32) sr_assume_gt(tot, 0);
    number_list r = compute_field_energy(); sr_check_true("seven energy figures", r.num_items == 7 && curfield_type == (K[t] & ~32));
    sr_checkf_eq(r.items[0] * N, tot * Vol, "total energy %c", K[t]);
    { double s = 0; for (c = 0; c < 6; c++) { sr_checkf_eq(r.items[c + 1] * tot, comp[c], "energy share %d of %c", c, K[t]); s += r.items[c + 1]; } sr_checkf_eq(s * tot, tot, "shares add up to one %c", K[t]); }
    for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); sr_checkf_eq(((real *)curfield)[q], den[i], "energy density %c point %d", K[t], i); } }
  if (what & 32) { sr_reach("end"); return 0; }
  get_dfield(1); memset(curfield, 0, sizeof(scalar_complex) * 3 * d->fft_output_size); { number_list r = compute_field_energy(); for (c = 0; c < 7; c++) sr_checkf_eq(c < r.num_items ? r.items[c] : -1, 0, "zero field has no energy %d", c); }
  get_dfield(1); compute_field_energy();
  /* restrictions of the last density; its values are now made arbitrary */
  for (i = 0; i < d->fft_output_size; i++) ((real *)curfield)[i] = sr_varf(1 + i * 0.5, "den%d", i);
  { static const double L[][2] = {{0, 1e9}, {0, 1}, {1, 4}, {1.34, 3.9}, {4, 4}, {4.5, 1e9}}; double lo, hi, all = 0; for (i = 0; FOR(i, &x, &y, &z); i++) all += ((real *)curfield)[mx_pidx(d, x, y, z, &cj)];
    for (t = 0; t < 6; t++) { if (what & 16) { if (t) break; lo = sr_var("lo", 1.2), hi = sr_var("hi", 3); } else lo = L[t][0], hi = L[t][1]; double s = 0, s2 = 0; for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); if (emean[q] >= lo && emean[q] <= hi) s += ((real *)curfield)[q]; }
      sr_checkf_eq(compute_energy_in_dielectric(lo, hi) * N, s * Vol, "energy in dielectric range %d", t); (void)s2; (void)all; } }
  { geometric_object_list ol; geometric_object ob[3]; memset(ob, 0, sizeof ob); int set; for (set = 0; set < 5; set++) { /* object lists: {}, {0}, {0,1}, {1,0,2 nothing}, {2} */
      static const int S[5][4] = {{0}, {1, 0}, {2, 0, 1}, {3, 1, 0, 2}, {1, 2}}; double s = 0; int n; ol.num_items = S[set][0]; ol.items = ob; for (n = 0; n < S[set][0]; n++) { ob[n].center.x = S[set][n + 1]; ob[n].material.which_subclass = set == 3 && n == 2 ? MATERIAL_TYPE_SELF : MEDIUM; }
      for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); for (n = S[set][0] - 1; n >= 0; n--) if (inside(ptxyz(x, y, z), S[set][n + 1])) { if (ob[n].material.which_subclass == MEDIUM) s += ((real *)curfield)[q]; break; } }
      sr_checkf_eq(compute_energy_in_object_list(ol) * N, s * Vol, "energy in object list %d", set); } }
  /* squares of any vector field */
  for (t = 0; t < 3; t++) { if (t == 0) get_efield(1); else if (t == 1) get_dfield(1); else get_bfield(1); for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); den[i] = 0; for (c = 0; c < 3; c++) den[i] += curfield[3 * q + c].re * curfield[3 * q + c].re + curfield[3 * q + c].im * curfield[3 * q + c].im; } compute_field_squared(); sr_check_true("square is a real scalar", curfield_type == 'R'); for (i = 0; FOR(i, &x, &y, &z); i++) { int q = mx_pidx(d, x, y, z, &cj); sr_checkf_eq(((real *)curfield)[q], den[i], "squared field %d point %d", t, i); } }
  { number_list r = compute_field_energy(); sr_check_true("a scalar field has no energy figures", r.num_items == 0); }
  if (mu) { get_hfield(1); number_list r = compute_field_energy(); sr_check_true("H with mu refused", r.num_items == 0 && curfield_type == 'h'); }
  { static geometric_object_list ol; get_bfield(1); sr_check_true("vector field refused", compute_energy_in_dielectric(0, 100) == 0 && compute_energy_in_object_list(ol) == 0 && curfield_type == 'b'); }
  sr_reach("end"); return 0; }
