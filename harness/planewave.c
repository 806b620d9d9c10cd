/* plane-wave initialisation and diagnosis. args: nx ny nz nbands what(0 set,1 dominant,2 invalid requests) kmode(0 generic, 1 along z; what=1: 2..5 which numbers are arbitrary) */
#include "mx.h"
static maxwell_data *d; static evectmatrix X; static int g[3], band; static scalar S, P; static double ax[3];
static void f(void *u) { maxwell_set_planewave(d, X, band, g, S, P, ax); (void)u; }
int harness_main(int argc, char **v) {
  int n[3] = {A(v, 1), A(v, 2), A(v, 3)}, nb = A(v, 4), what = A(v, 5), km = A(v, 6), i, j, b, c; mxs s = mx_new(n[0], n[1], n[2], nb, 1, 0); d = s.d;
  double k[3] = {0.25, 0.125, 0.375}, G[3][3] = {{1, 0.25, 0}, {-0.5, 1.25, 0.5}, {0.125, 0, 0.75}}, kc[3];
  if (km == 1) { k[0] = k[1] = 0; G[2][0] = 0; }
  update_maxwell_data_k(d, k, G[0], G[1], G[2]); X = mx_ev(s, nb); evectmatrix Y = mx_ev(s, nb);
  band = sr_choose("band", 1, nb);
  if (what != 1) mx_fill(X, "X");
  else { mx_fill_const(X, 17); for (i = 0; i < X.n; i++) ASSIGN_ZERO(X.data[i * nb + band - 1]); for (i = 0; i < d->N; i++) { int t = km >= 2 ? (i + km) % 4 : i % 2; scalar *q = &X.data[(i * 2 + t / 2) * X.p + band - 1]; /* one arbitrary real number per plane wave */
#ifdef SCALAR_COMPLEX
      if (t % 2) q->im = sr_varf(nomv(i), "a%d", i); else q->re = sr_varf(nomv(i), "a%d", i);
#else
      *q = sr_varf(nomv(i), "a%d", i);
#endif
    } }
  evectmatrix_copy(Y, X);
  if (what == 2) {
#ifdef SCALAR_COMPLEX
    int bad = sr_choose("axis with an invalid order", 0, 2), sg = sr_choose("sign", 0, 1); g[bad] = sg ? n[bad] + 1 : -n[bad]; ax[2] = 1; S = mx_const(1); P = mx_const(2);
    sr_check_true("an order outside the grid is refused", hx_try(f, 0));
    g[0] = g[1] = g[2] = 0; for (c = 0; c < 3; c++) kc[c] = G[0][c] * k[0] + G[1][c] * k[1] + G[2][c] * k[2];
    if (km == 1) { ax[0] = ax[1] = 0; ax[2] = sr_var("az", 1); sr_check_true("an axis along k+G is refused", hx_try(f, 0)); }
#else
    ax[2] = 1; S = mx_const(1); P = mx_const(2); sr_check_true("refused in the inversion-symmetric build", hx_try(f, 0)); mx_check_same(X, Y, "nothing is changed");
#endif
    sr_reach("end"); return 0; }
  if (what == 0) {
#ifdef SCALAR_COMPLEX
    if (km == 3) mx_kdata(d, 1);
    for (c = 0; c < 3; c++) { int lo = -((n[c] - 1) / 2), hi = n[c] / 2; char nm[8]; sprintf(nm, "g%d", c); g[c] = sr_choose(nm, lo, hi); ax[c] = km == 3 ? sr_varf(0.3 + 0.2 * c, "axis%d", c) : 0.375 + c * 0.5; }
    S = mx_scalar("s", 0, 0, 0); P = mx_scalar("p", 0, 0, 0);
    int found = -1;
    if (km != 3) { for (c = 0; c < 3; c++) kc[c] = G[0][c] * (k[0] + g[0]) + G[1][c] * (k[1] + g[1]) + G[2][c] * (k[2] + g[2]);
      for (i = 0; i < d->N; i++) { k_data K = d->k_plus_G[i]; double m[3] = {K.mx, K.my, K.mz}, nn[3] = {K.nx, K.ny, K.nz}; int same = 1;
      for (c = 0; c < 3; c++) { double q = K.kmag * (m[(c + 1) % 3] * nn[(c + 2) % 3] - m[(c + 2) % 3] * nn[(c + 1) % 3]), e = sr_nominal(q) - sr_nominal(kc[c]); if (e > 1e-9 || e < -1e-9) same = 0; }
      if (same) { sr_check_true("one matching plane wave", found < 0); found = i; } }
      sr_check_true("the requested plane wave is in the basis", found >= 0);
    } else { int z[3]; for (c = 0; c < 3; c++) z[c] = (n[c] - g[c]) % n[c]; found = (z[0] * n[1] + z[1]) * n[2] + z[2]; }
    k_data K = d->k_plus_G[found]; double m[3] = {K.mx, K.my, K.mz}, nn[3] = {K.nx, K.ny, K.nz}, q[3], w[3], pv[3], sv[3], u2[3], pp = 0; cx V[3][3]; scalar S0 = S, P0 = P; int t;
    for (c = 0; c < 3; c++) q[c] = m[(c + 1) % 3] * nn[(c + 2) % 3] - m[(c + 2) % 3] * nn[(c + 1) % 3];
    if (km == 3) { for (c = 0; c < 3; c++) { pv[c] = q[(c + 1) % 3] * ax[(c + 2) % 3] - q[(c + 2) % 3] * ax[(c + 1) % 3]; pp += pv[c] * pv[c]; } sr_assume_gt(pp, 0.0); for (c = 0; c < 3; c++) sv[c] = q[(c + 1) % 3] * pv[(c + 2) % 3] - q[(c + 2) % 3] * pv[(c + 1) % 3]; }
    for (t = 0; t < 3; t++) { /* unit s, unit p, arbitrary combination */
      S = S0; P = P0; if (t < 2) { S.re = t == 0; S.im = 0; P.re = t == 1; P.im = 0; }
      evectmatrix_copy(X, Y); f(0);
      for (i = 0; i < d->N; i++) for (b = 0; b < nb; b++) { for (j = 0; j < 2; j++) { cx u = mx_get(X, i, j, b), y = mx_get(Y, i, j, b);
          if (b != band - 1) { sr_checkf_eq(u.re, y.re, "other bands untouched re %d %d %d", i, j, b); sr_checkf_eq(u.im, y.im, "other bands untouched im %d %d %d", i, j, b); }
          else if (i != found) sr_checkf_eq(u.re * u.re + u.im * u.im, 0.0, "no amplitude in other plane waves, wave %d", i); } }
      cx a = mx_get(X, found, 0, band - 1), e = mx_get(X, found, 1, band - 1); for (c = 0; c < 3; c++) { V[t][c].re = m[c] * a.re + nn[c] * e.re; V[t][c].im = m[c] * a.im + nn[c] * e.im; }
      if (t < 2) { double nv = 0, dp = 0, *r = t ? pv : sv; nv = a.re * a.re + e.re * e.re; sr_checkf_eq(a.im * a.im + e.im * e.im, 0.0, "real amplitude gives a real vector, %s", t ? "p" : "s");
        if (km == 3) { sr_checkf_eq(nv, 1.0, "unit amplitude, %s", t ? "p" : "s"); for (c = 0; c < 3; c++) { dp += V[t][c].re * r[c]; w[c] = V[t][(c + 1) % 3].re * r[(c + 2) % 3] - V[t][(c + 2) % 3].re * r[(c + 1) % 3]; sr_checkf_eq(w[c], 0.0, "direction of the %s polarisation, component %d", t ? "p" : "s", c); } sr_checkf_lt(0.0, dp, "sense of the %s polarisation", t ? "p" : "s"); }
        else { sr_checkf_lt(0.5, sr_nominal(nv), "the requested plane wave is excited (%s)", t ? "p" : "s"); sr_checkf_lt(sr_nominal(nv), 1.5, "the requested plane wave has unit amplitude (%s)", t ? "p" : "s"); } }
      else for (c = 0; c < 3; c++) { sr_checkf_eq(V[2][c].re, S0.re * V[0][c].re + P0.re * V[1][c].re, "combination of s and p, re, component %d", c); sr_checkf_eq(V[2][c].im, S0.im * V[0][c].re + P0.im * V[1][c].re, "combination of s and p, im, component %d", c); } }
    (void)u2;
#endif
  } else {
    double kd[3], amp[64]; int best = -1; maxwell_dominant_planewave(d, X, band, kd);
    for (i = 0; i < d->N; i++) { cx u = mx_get(X, i, 0, band - 1), w = mx_get(X, i, 1, band - 1); amp[i] = u.re * u.re + u.im * u.im + w.re * w.re + w.im * w.im; k_data K = d->k_plus_G[i]; double m[3] = {K.mx, K.my, K.mz}, nn[3] = {K.nx, K.ny, K.nz}; int same = 1;
      for (c = 0; c < 3; c++) { double q = K.kmag * (m[(c + 1) % 3] * nn[(c + 2) % 3] - m[(c + 2) % 3] * nn[(c + 1) % 3]), e = sr_nominal(q) - sr_nominal(kd[c]); if (e > 1e-9 || e < -1e-9) same = 0; }
      if (same) best = i; }
    sr_check_true("the answer is one of the k+G", best >= 0);
    if (best >= 0) for (i = 0; i < d->N; i++) sr_checkf_le(amp[i], amp[best], "largest amplitude, wave %d", i);
    mx_check_same(X, Y, "diagnosis does not change the field");
  }
  sr_reach("end"); return 0; }
