/* which parities are kept. args: nx ny nz steps(order of updates) what(0 masks, 1 TE/TM) */
#include "mx.h"
static int spec(int mask, int yzero, int zzero) { int m = mask; if ((m & EVEN_Z_PARITY && m & ODD_Z_PARITY) || !zzero) m &= ~(EVEN_Z_PARITY | ODD_Z_PARITY); if ((m & EVEN_Y_PARITY && m & ODD_Y_PARITY) || !yzero) m &= ~(EVEN_Y_PARITY | ODD_Y_PARITY); return m; }
static maxwell_data *d; static double G[3][3] = {{1, 0, 0}, {0, 1.25, 0}, {0, 0, 0.75}}; static int yz, zz;
static int mkmask(int c) { static const int bits[4] = {EVEN_Z_PARITY, ODD_Z_PARITY, EVEN_Y_PARITY, ODD_Y_PARITY}; int i, m = NO_PARITY; for (i = 0; i < 4; i++) if (c >> i & 1) m |= bits[i]; return m; }
static void setk(int step) { double k[3]; char nm[32]; int c; sprintf(nm, "k%d_case", step); c = sr_choose(nm, 0, 3); yz = !(c & 1); zz = !(c & 2);
  k[0] = sr_varf(0.3, "kx_%d", step); k[1] = yz ? 0 : sr_varf(0.2, "ky_%d", step); k[2] = zz ? 0 : sr_varf(-0.1, "kz_%d", step);
  sr_assume_gt(k[0], 0.05); sr_assume_gt(0.45, k[0]); /* off the z axis */
  if (!yz) sr_assume_ne(k[1], 0.0); if (!zz) sr_assume_ne(k[2], 0.0); update_maxwell_data_k(d, k, G[0], G[1], G[2]); }
int harness_main(int argc, char **v) {
  int n[3] = {A(v, 1), A(v, 2), A(v, 3)}, st = A(v, 4), what = A(v, 5), want, i, b, c; mxs s = mx_new(n[0], n[1], n[2], 2, 2, 0); d = s.d;
  if (what == 0) {
    d->parity = NO_PARITY; setk(1); sr_check_true("no parity stays no parity", d->parity == NO_PARITY);
    int m = mkmask(sr_choose("parity request", 0, 15)); set_maxwell_data_parity(d, m); want = spec(m, yz, zz); sr_checkf_true(d->parity == want, "request %d kept exactly when k allows it", m);
    if (st > 1) { setk(2); want = spec(want, yz, zz); sr_checkf_true(d->parity == want, "after a change of k (request %d)", m); }
    if (st > 2) { m = mkmask(sr_choose("second request", 0, 15)); set_maxwell_data_parity(d, m); want = spec(m, yz, zz); sr_checkf_true(d->parity == want, "second request %d", m); }
  } else { /* two-dimensional systems: even = TE (H along z), odd = TM (H in the plane) */
    double k[3] = {0.25, 0.125, 0}, G2[3][3] = {{1, 0.25, 0}, {-0.5, 1.25, 0}, {0, 0, 1}}; update_maxwell_data_k(d, k, G2[0], G2[1], G2[2]);
    int p = sr_choose("parity", 0, 1); set_maxwell_data_parity(d, p ? ODD_Z_PARITY : EVEN_Z_PARITY); evectmatrix X = mx_ev(s, 2), Y = mx_ev(s, 2); mx_fill(X, "X"); evectmatrix_copy(Y, X); maxwell_parity_constraint(X, d);
    for (b = 0; b < 2; b++) { cx *u[3], *w[3]; ref_alloc(d, u); ref_alloc(d, w); ref_cart(d, X, b, u); ref_cart(d, Y, b, w); for (i = 0; i < d->N; i++) for (c = 0; c < 3; c++) { int keep = p ? c < 2 : c == 2; sr_checkf_eq(u[c][i].re, keep ? w[c][i].re : 0.0, "TE/TM field re wave %d component %d", i, c); sr_checkf_eq(u[c][i].im, keep ? w[c][i].im : 0.0, "TE/TM field im wave %d component %d", i, c); } }
  }
  sr_reach("end"); return 0; }
