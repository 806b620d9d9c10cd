/* constant states at k=0. args: nx ny nz nbands mu */
#include "mx.h"
int harness_main(int argc, char **v) {
  int n[3] = {A(v, 1), A(v, 2), A(v, 3)}, nb = A(v, 4), mu = A(v, 5), i, b, c, j; mxs s = mx_new(n[0], n[1], n[2], nb, 2, mu); maxwell_data *d = s.d;
  double k[3] = {0, 0, 0}, G[3][3] = {{1, 0, 0}, {0, 1.25, 0}, {0, 0, 0.75}}; static const int bits[4] = {EVEN_Z_PARITY, ODD_Z_PARITY, EVEN_Y_PARITY, ODD_Y_PARITY};
  mx_eps(s, mu ? 2 : 1); update_maxwell_data_k(d, k, G[0], G[1], G[2]); sr_check_true("k=0 is recognised", d->zero_k);
  int pz = sr_choose("z parity", 0, 2), py = sr_choose("y parity", 0, 2), m = 0; if (pz) m |= bits[pz - 1]; if (py) m |= bits[1 + py]; set_maxwell_data_parity(d, m); sr_check_true("parities are kept at k=0", d->parity == m);
  /* constant transverse fields: along z (even in z, odd in y as a pseudovector) and along y (odd in z, even in y) */
  int zok = pz != 2 && py != 1, yok = pz != 1 && py != 2, want = zok + yok; if (want > nb) want = nb;
  evectmatrix X = mx_ev(s, nb), Y = mx_ev(s, nb), Z = mx_ev(s, nb), W = mx_ev(s, nb); mx_fill(X, "X"); evectmatrix_copy(Y, X);
  sr_check_true("number of constant states", maxwell_zero_k_num_const_bands(X, d) == want);
  maxwell_zero_k_set_const_bands(Y, d);
  for (i = 0; i < X.n; i++) for (b = want; b < nb; b++) { cx u = mx_get(X, i / 2, i % 2, b), w = mx_get(Y, i / 2, i % 2, b); sr_checkf_eq(u.re, w.re, "other bands untouched re %d %d", i, b); sr_checkf_eq(u.im, w.im, "other bands untouched im %d %d", i, b); }
  for (b = 0; b < want; b++) for (c = 0; c <= b; c++) { cx t = {0, 0}; for (i = 0; i < X.n; i++) t = cxa(t, cxm(cxc(mx_get(Y, i / 2, i % 2, b)), mx_get(Y, i / 2, i % 2, c))); sr_checkf_eq(t.re, b == c ? 1.0 : 0.0, "constant states orthonormal %d %d", b, c); sr_checkf_eq(t.im, 0.0, "constant states orthonormal, im %d %d", b, c); }
  for (b = 0; b < want; b++) for (i = 2; i < X.n; i++) { cx t = mx_get(Y, i / 2, i % 2, b); sr_checkf_eq(t.re * t.re + t.im * t.im, 0.0, "constant state has only the zero plane wave %d %d", i, b); }
  evectmatrix_copy(Z, Y); maxwell_parity_constraint(Z, d); for (i = 0; i < X.n; i++) for (b = 0; b < want; b++) { cx u = mx_get(Z, i / 2, i % 2, b), w = mx_get(Y, i / 2, i % 2, b); sr_checkf_eq(u.re, w.re, "constant states have the parity %d %d", i, b); sr_checkf_eq(u.im, w.im, "constant states have the parity im %d %d", i, b); }
  maxwell_operator(Y, Z, d, 0, W); for (i = 0; i < X.n; i++) for (b = 0; b < want && !mu; b++) { cx u = mx_get(Z, i / 2, i % 2, b); sr_checkf_eq(u.re, 0.0, "zero eigenvalue re %d %d", i, b); sr_checkf_eq(u.im, 0.0, "zero eigenvalue im %d %d", i, b); }
  evectmatrix_copy(Z, X); maxwell_zero_k_constraint(Z, d); for (i = 0; i < X.n; i++) for (b = 0; b < nb; b++) { cx u = mx_get(Z, i / 2, i % 2, b), w = mx_get(X, i / 2, i % 2, b); sr_checkf_eq(u.re, i < 2 ? 0.0 : w.re, "constraint removes exactly the constant part re %d %d", i, b); sr_checkf_eq(u.im, i < 2 ? 0.0 : w.im, "constraint removes exactly the constant part im %d %d", i, b); }
  (void)j; sr_reach("end"); return 0; }
