/* parity projectors. args: nx ny nz axis(2=z,1=y) nbands frames(0 rational lattice,1 symbolic in-plane k) what(0 algebra,1 operator commutation,2 expectation values) mu */
#include "mx.h"
static int alias(int i, int n) { return 2 * i >= n && n > 1 ? i - n : i; }
static int NN[3], ax;
static maxwell_data *d;
static int mirror(int i, int *ok) { int x[3]; x[2] = i % NN[2]; x[1] = (i / NN[2]) % NN[1]; x[0] = i / NN[2] / NN[1]; if (NN[ax] % 2 == 0 && x[ax] == NN[ax] / 2) *ok = 0; x[ax] = (NN[ax] - x[ax]) % NN[ax]; return (x[0] * NN[1] + x[1]) * NN[2] + x[2]; }
static void setp(int axis, int p) { d->parity = axis == 2 ? (p > 0 ? EVEN_Z_PARITY : ODD_Z_PARITY) : (p > 0 ? EVEN_Y_PARITY : ODD_Y_PARITY); }
static cx dotc(evectmatrix P, evectmatrix Q, int b) { cx s = {0, 0}; int i; for (i = 0; i < P.n; i++) s = cxa(s, cxm(cxc(mx_get(P, i / 2, i % 2, b)), mx_get(Q, i / 2, i % 2, b))); return s; }
static void basetensor(cx M[3][3], int h) { int i, j; for (i = 0; i < 3; i++) for (j = i; j < 3; j++) { M[i][j].re = i == j ? 2 + nomv(h * 9 + i) / 2 : nomv(h * 9 + i * 3 + j + 50) / 4; M[i][j].im = 0;
#ifdef WITH_HERMITIAN_EPSILON
  if (i != j) M[i][j].im = nomv(h * 9 + i * 3 + j + 90) / 4;
#endif
  M[j][i] = cxc(M[i][j]); } }
static void symtensor(symmetric_matrix *t, int x, int y, int z, int salt) { /* average over the mirror (and, real build, inversion) */
  cx S[3][3]; int g, i, j; memset(S, 0, sizeof S);
  for (g = 0; g < 4; g++) { int r[3] = {x, y, z}, c; cx M[3][3]; if (g & 1) r[ax] = (NN[ax] - r[ax]) % NN[ax];
#ifdef SCALAR_COMPLEX
    if (g & 2) continue;
#else
    if (g & 2) for (c = 0; c < 3; c++) r[c] = (NN[c] - r[c]) % NN[c];
#endif
    (void)c; basetensor(M, salt + (r[0] * 7 + r[1]) * 7 + r[2]);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { double sg = (g & 1) && ((i == ax) != (j == ax)) ? -1 : 1; S[i][j] = cxa(S[i][j], cxs(sg, M[i][j])); } }
  t->m00 = S[0][0].re; t->m11 = S[1][1].re; t->m22 = S[2][2].re;
#ifdef WITH_HERMITIAN_EPSILON
  t->m01.re = S[0][1].re; t->m01.im = S[0][1].im; t->m02.re = S[0][2].re; t->m02.im = S[0][2].im; t->m12.re = S[1][2].re; t->m12.im = S[1][2].im;
#else
  t->m01 = S[0][1].re; t->m02 = S[0][2].re; t->m12 = S[1][2].re;
#endif
}
int harness_main(int argc, char **v) {
  NN[0] = A(v, 1); NN[1] = A(v, 2); NN[2] = A(v, 3); ax = A(v, 4); int nb = A(v, 5), fr = A(v, 6), what = A(v, 7), mu = A(v, 8), i, c, b, p, n = NN[0] * NN[1] * NN[2];
  mxs s = mx_new(NN[0], NN[1], NN[2], nb, 2, mu); d = s.d;
  double k[3] = {0.15, 0.2, 0.3}, G[3][3] = {{1, 0, 0}, {0, 1.25, 0}, {0, 0, 0.75}};
  if (ax == 2) { G[1][0] = 0.25; G[0][1] = -0.125; } else { G[2][0] = 0.25; G[0][2] = -0.125; }
  if (fr == 1) { k[0] = sr_var("k0", 0.15); k[3 - ax] = sr_var("k1", 0.2); sr_assume_gt(k[0], 0.1); sr_assume_gt(0.4, k[0]); sr_assume_gt(k[3 - ax], 0.05); sr_assume_gt(0.45, k[3 - ax]); }
  k[ax] = 0; update_maxwell_data_k(d, k, G[0], G[1], G[2]);
  evectmatrix X = mx_ev(s, nb), P[2], Q = mx_ev(s, nb), Y = mx_ev(s, nb), W = mx_ev(s, nb), Z = mx_ev(s, nb); P[0] = mx_ev(s, nb); P[1] = mx_ev(s, nb);
  mx_fill(X, "X"); int use2 = sr_choose("entry", 0, 1); /* direct entry point or the combined one */
#define CONSTRAIN(M) do { if (use2) maxwell_parity_constraint(M, d); else if (ax == 2) maxwell_zparity_constraint(M, d); else maxwell_yparity_constraint(M, d); } while (0)
  for (p = 0; p < 2; p++) { setp(ax, p ? -1 : 1); evectmatrix_copy(P[p], X); CONSTRAIN(P[p]); }
  if (what == 0) {
    evectmatrix_copy(Q, X); d->parity = 0; maxwell_parity_constraint(Q, d); maxwell_zparity_constraint(Q, d); maxwell_yparity_constraint(Q, d); mx_check_same(Q, X, "no parity: nothing is changed");
    for (p = 0; p < 2; p++) { setp(ax, p ? -1 : 1); evectmatrix_copy(Q, P[p]); CONSTRAIN(Q); mx_check_same(Q, P[p], "idempotent");
      mx_fill_const(Y, 5); evectmatrix_copy(Z, Y); CONSTRAIN(Z); for (b = 0; b < nb; b++) { cx u = dotc(Y, P[p], b), w = dotc(Z, X, b); sr_checkf_eq(u.re, w.re, "Hermitian re %d", b); sr_checkf_eq(u.im, w.im, "Hermitian im %d", b); } }
    for (i = 0; i < X.n * nb; i++) { sr_checkf_eq(SC_RE(P[0].data[i]) + SC_RE(P[1].data[i]), SC_RE(X.data[i]), "even+odd re %d", i); sr_checkf_eq(SC_IM(P[0].data[i]) + SC_IM(P[1].data[i]), SC_IM(X.data[i]), "even+odd im %d", i); }
    /* Cartesian reflection of the pseudovector field: M = even - odd */
    for (b = 0; b < nb; b++) { cx *u[3], *w[3]; ref_alloc(d, u); ref_alloc(d, w); for (i = 0; i < X.n * nb; i++) { ASSIGN_SCALAR(Q.data[i], SC_RE(P[0].data[i]) - SC_RE(P[1].data[i]), SC_IM(P[0].data[i]) - SC_IM(P[1].data[i])); }
      ref_cart(d, X, b, u); ref_cart(d, Q, b, w);
      for (i = 0; i < n; i++) { int ok = 1, j = mirror(i, &ok); if (!ok) continue; for (c = 0; c < 3; c++) { double sg = c == ax ? 1 : -1; sr_checkf_eq(w[c][j].re, sg * u[c][i].re, "reflection of the magnetic field, re, wave %d component %d band %d", i, c, b); sr_checkf_eq(w[c][j].im, sg * u[c][i].im, "reflection of the magnetic field, im, wave %d component %d band %d", i, c, b); } }
      ref_free(u); ref_free(w); }
    if (ax == 1 && NN[2] > 0) { /* both axes at once: product of the two projectors, in either order */
      k[2] = 0; G[2][0] = G[0][2] = 0; update_maxwell_data_k(d, k, G[0], G[1], G[2]);
      for (p = 0; p < 4; p++) { int pz = p & 1 ? -1 : 1, py = p & 2 ? -1 : 1; evectmatrix_copy(Q, X); setp(2, pz); maxwell_zparity_constraint(Q, d); setp(1, py); maxwell_yparity_constraint(Q, d);
        evectmatrix_copy(Z, X); d->parity = (pz > 0 ? EVEN_Z_PARITY : ODD_Z_PARITY) | (py > 0 ? EVEN_Y_PARITY : ODD_Y_PARITY); maxwell_parity_constraint(Z, d); mx_check_same(Z, Q, "both parities"); } }
  } else if (what == 1) {
    int x, y, z; for (x = 0; x < NN[0]; x++) for (y = 0; y < NN[1]; y++) for (z = 0; z < NN[2]; z++) { int cj, q = mx_pidx(d, x, y, z, &cj); if (cj) continue; symtensor(d->eps_inv + q, x, y, z, 3); if (mu) symtensor(d->mu_inv + q, x, y, z, 400); }
    for (p = 0; p < 2; p++) { setp(ax, p ? -1 : 1); maxwell_operator(X, Q, d, 0, W); CONSTRAIN(Q); maxwell_operator(P[p], Z, d, 0, W); mx_check_same(Z, Q, "projector commutes with the operator"); }
  } else {
    double *par = ax == 2 ? maxwell_zparity(X, d) : maxwell_yparity(X, d);
    for (b = 0; b < nb; b++) { cx nn = dotc(X, X, b), e = dotc(X, P[0], b); sr_assume_gt(nn.re, 0.0); sr_checkf_eq(par[b] * nn.re, 2 * e.re - nn.re, "parity is the expectation value of the reflection, band %d", b);
      if (n <= 4) { sr_checkf_le(par[b], 1.0, "parity <= 1, band %d", b); sr_checkf_le(-1.0, par[b], "parity >= -1, band %d", b); } }
    for (p = 0; p < 2; p++) { for (b = 0; b < nb; b++) sr_assume_gt(dotc(P[p], P[p], b).re, 0.0); par = ax == 2 ? maxwell_zparity(P[p], d) : maxwell_yparity(P[p], d); for (b = 0; b < nb; b++) sr_checkf_eq(par[b], p ? -1.0 : 1.0, "parity of a projected state, band %d", b); }
  }
  sr_reach("end"); return 0; }
