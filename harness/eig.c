/* eigensolver pieces. args: what n p variant
   0: Ritz step   1: constraint chain   2: search line (the line minimizer is replaced) */
#include "mx.h"
#include "blasglue.h"
#include "eigensolver.h"
#include "lap.h"
#include "linmin.h"
static int n, p, var; static double kth; static cx moved[16];
static cx C(scalar s) { cx r = {SC_RE(s), SC_IM(s)}; return r; }
static evectmatrix mk(void) { return create_evectmatrix(n, 1, p, n, 0, n); }
static void eq(cx a, cx b, const char *w, int i, int j) { sr_checkf_eq(a.re, b.re, "%s re %d %d", w, i, j);
#ifdef SCALAR_COMPLEX
  sr_checkf_eq(a.im, b.im, "%s im %d %d", w, i, j);
#endif
}
static cx HA[16], HB[16], HL[16];
static void apply(cx *M, evectmatrix X, evectmatrix Y) { int i, j, k; for (j = 0; j < p; j++) { cx t[4]; for (i = 0; i < n; i++) { t[i].re = t[i].im = 0; for (k = 0; k < n; k++) t[i] = cxa(t[i], cxm(M[i * n + k], C(X.data[k * p + j]))); } for (i = 0; i < n; i++) ASSIGN_SCALAR(Y.data[i * p + j], t[i].re, t[i].im); } }
/* the operator may use its work space: it is filled with unrelated numbers */
static int trash = 0;
static void junk(evectmatrix W, evectmatrix X, evectmatrix Y) { int i; if (W.data == X.data || W.data == Y.data) return; for (i = 0; i < W.n * W.p; i++) W.data[i] = mx_scalar("junk", trash, i, 0); trash++; }
static int calls = 0; static evectmatrix Y;
/* once the line search has returned, the block must be the one at the returned step */
static void arrived(evectmatrix X) { int i, j0 = 0; if (!calls || X.data != Y.data || (var & 32)) return; for (i = 0; i < n * p; i++) { cx a = C(X.data[i]), b = C(X.data[j0]); sr_checkf_eq(a.re * moved[j0].re, b.re * moved[i].re, "block moved by the accepted step %d", i);
#ifdef SCALAR_COMPLEX
    sr_checkf_eq(a.im * moved[j0].re, b.re * moved[i].im, "block moved by the accepted step (im) %d", i);
#endif
  } sr_reach("second step"); sr_done(); }
static void opA(evectmatrix X, evectmatrix Y, void *d, int cur, evectmatrix W) { arrived(X); sr_check_true("operator data", d == (void *)HA); sr_check_true("output is not the input", X.data != Y.data); apply(HA, X, Y); junk(W, X, Y); (void)cur; }
static void opB(evectmatrix X, evectmatrix Y, void *d, int cur, evectmatrix W) { sr_check_true("metric data", d == (void *)HB); apply(HB, X, Y); junk(W, X, Y); (void)cur; }
static void opL(evectmatrix X, evectmatrix Y, void *d, int cur, evectmatrix W) { (void)d; apply(HL, X, Y); (void)cur; (void)W; }
static cx g2(cx *M, cx *X, cx *Y, int i, int j) { cx s = {0, 0}; int a, b; for (a = 0; a < n; a++) for (b = 0; b < n; b++) s = cxa(s, cxm(cxc(X[a * p + i]), cxm(M[a * n + b], Y[b * p + j]))); return s; }
static void hermf(cx *M, const char *nm, int cst, int seed) { int i, j; for (i = 0; i < n; i++) for (j = i; j < n; j++) { cx z; if (cst) { z.re = (i == j ? 1 + 0.25 * i : 0.125 * (1 + (i + 2 * j + seed) % 3)); z.im = i == j ? 0 : -0.25; } else { scalar s = mx_scalar(nm, i, j, seed); z.re = SC_RE(s); z.im = i == j ? 0 : SC_IM(s); }
#ifndef SCALAR_COMPLEX
    z.im = 0;
#endif
    M[i * n + j] = z; M[j * n + i] = cxc(z); } }
static const double Q2[2][2] = {{0.6, -0.8}, {0.8, 0.6}};
static void unitary(int m, cx *V, int salt) { int i, j; double R[9]; if (m == 1) R[0] = 1; else if (m == 2) for (i = 0; i < 4; i++) R[i] = Q2[(i / 2 + salt) % 2][i % 2]; else { const int *q = quat[salt % 4]; double a = q[0], b = q[1], c = q[2], e = q[3], mm = a * a + b * b + c * c + e * e; double T[9] = {(a * a + b * b - c * c - e * e) / mm, 2 * (b * c - a * e) / mm, 2 * (b * e + a * c) / mm, 2 * (b * c + a * e) / mm, (a * a - b * b + c * c - e * e) / mm, 2 * (c * e - a * b) / mm, 2 * (b * e - a * c) / mm, 2 * (c * e + a * b) / mm, (a * a - b * b - c * c + e * e) / mm}; memcpy(R, T, sizeof T); }
  static const double cr[3] = {0.8, 0, -0.28}, ci[3] = {0.6, 1, 0.96};
  for (i = 0; i < m; i++) for (j = 0; j < m; j++) { V[i * m + j].re = R[i * m + j]; V[i * m + j].im = 0;
#ifdef SCALAR_COMPLEX
      V[i * m + j].re = R[i * m + j] * cr[(i + salt) % 3]; V[i * m + j].im = R[i * m + j] * ci[(i + salt) % 3];
#endif
  } (void)cr; (void)ci; }
/* ---- search line ---- */
static evectmatrix D; static int useB, useL;  static evectconstraint cons; static void *consd;
static void snap(evectmatrix X, cx *o) { int i; for (i = 0; i < n * p; i++) o[i] = C(X.data[i]); }
/* trace of (X'AX)(X'BX)^-1 and its derivative when X moves along Z */
static double refE(cx *X, cx *Z, double *dE) { cx a[4], b[4], da[4], db[4], bi[4]; int i, j; cx I[16]; memset(I, 0, sizeof I); for (i = 0; i < n; i++) I[i * n + i].re = 1; cx *M = useB ? HB : I;
  for (i = 0; i < p; i++) for (j = 0; j < p; j++) { a[i * p + j] = g2(HA, X, X, i, j); b[i * p + j] = g2(M, X, X, i, j); if (dE) { da[i * p + j] = cxa(g2(HA, X, Z, i, j), g2(HA, Z, X, i, j)); db[i * p + j] = cxa(g2(M, X, Z, i, j), g2(M, Z, X, i, j)); } }
  if (p == 1) { double e = a[0].re / b[0].re; if (dE) *dE = (da[0].re - e * db[0].re) / b[0].re; return e; }
  { double det = b[0].re * b[3].re - cxm(b[1], b[2]).re; bi[0] = cxs(1 / det, b[3]); bi[3] = cxs(1 / det, b[0]); bi[1] = cxs(-1 / det, b[1]); bi[2] = cxs(-1 / det, b[2]); }
  double e = 0; for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) e += cxm(a[i * 2 + j], bi[j * 2 + i]).re;
  if (dE) { cx m[4], w[4]; int k; double s = 0; for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { m[i * 2 + j].re = m[i * 2 + j].im = 0; for (k = 0; k < 2; k++) m[i * 2 + j] = cxa(m[i * 2 + j], cxm(a[i * 2 + k], bi[k * 2 + j])); } for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { w[i * 2 + j] = da[i * 2 + j]; for (k = 0; k < 2; k++) { cx t = cxm(m[i * 2 + k], db[k * 2 + j]); w[i * 2 + j].re -= t.re; w[i * 2 + j].im -= t.im; } } for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) s += cxm(w[i * 2 + j], bi[j * 2 + i]).re; *dE = s; }
  return e; }
double linmin(double *cf, double *cdf, double xg, double f0, double df0, double ft, double dt, double xt, double x0, double x1, linmin_func f, void *fd, int verb) {
  cx y[16], d[16], t[16]; int i; double e, de, r, dr; (void)xg; (void)verb; (void)ft; (void)dt; (void)xt; (void)x0; (void)x1;
  snap(Y, y); snap(D, d);
  if (calls == 0) { r = refE(y, d, &dr); sr_check_eq("starting value handed to the line search", f0, r); sr_check_eq("starting slope handed to the line search", df0, dr);
    { /* first direction: the (projected) gradient A Y U - B Y U (Y'AY) U, up to scale */ cx G[16]; int j, k, l; cx u[4], ay[16], a[4], I[16]; memset(I, 0, sizeof I); for (i = 0; i < n; i++) I[i * n + i].re = 1; cx *M = useB ? HB : I; cx b[4];
      for (i = 0; i < p; i++) for (j = 0; j < p; j++) { a[i * p + j] = g2(HA, y, y, i, j); b[i * p + j] = g2(M, y, y, i, j); } if (p == 1) { u[0].re = 1 / b[0].re; u[0].im = 0; } else { double det = b[0].re * b[3].re - cxm(b[1], b[2]).re; u[0] = cxs(1 / det, b[3]); u[3] = cxs(1 / det, b[0]); u[1] = cxs(-1 / det, b[1]); u[2] = cxs(-1 / det, b[2]); }
      cx m[4]; for (i = 0; i < p; i++) for (j = 0; j < p; j++) { m[i * p + j].re = m[i * p + j].im = 0; for (k = 0; k < p; k++) m[i * p + j] = cxa(m[i * p + j], cxm(u[i * p + k], a[k * p + j])); }
      for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx s = {0, 0}; for (k = 0; k < n; k++) s = cxa(s, cxm(HA[i * n + k], y[k * p + j])); for (l = 0; l < p; l++) for (k = 0; k < n; k++) { cx q = cxm(M[i * n + k], cxm(y[k * p + l], m[l * p + j])); s.re -= q.re; s.im -= q.im; } ay[i * p + j] = s; }
      for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx s = {0, 0}; for (k = 0; k < p; k++) s = cxa(s, cxm(ay[i * p + k], u[k * p + j])); G[i * p + j] = s; }
      if (!useL && !cons && !(var & 16)) for (i = 1; i < n * p; i++) { cx q = cxm(d[i], cxc(G[0])), w = cxm(G[i], cxc(d[0])); (void)w; sr_checkf_eq(d[i].re * G[0].re, d[0].re * G[i].re, "first direction is the gradient %d", i); sr_checkf_eq(d[i].im * G[0].re, d[0].re * G[i].im, "first direction is the gradient (im) %d", i); (void)q; } }
    double k = kth, th = 6.283185307179586477 * k, c = sr_cos2pi(k), s = sr_sin2pi(k); sr_assume_gt(k, -0.5); sr_assume_gt(0.5, k);
    if (var & 8) { cx I[16]; int j; memset(I, 0, sizeof I); for (i = 0; i < n; i++) I[i * n + i].re = 1; for (i = 0; i < p; i++) for (j = 0; j < p; j++) { cx z = {0, 0}; eq(g2(I, y, d, i, j), z, "projected direction is orthogonal to the block", i, j); } }
    if (cons) { int j; for (j = 0; j < p; j++) { cx z = {0, 0}; eq(d[(n - 1) * p + j], z, "direction obeys the constraint", j, 0); eq(y[(n - 1) * p + j], z, "block obeys the constraint", j, 0); } }
    e = f(th, &de, fd); for (i = 0; i < n * p; i++) { t[i] = cxa(cxs(c, y[i]), cxs(s, d[i])); }
    { cx z[16]; for (i = 0; i < n * p; i++) z[i] = cxa(cxs(-s, y[i]), cxs(c, d[i])); r = refE(t, z, &dr); if ((var & 16) || p == 1 || n == 2) sr_check_eq("energy at a trial step", e, r); if (var & 16) sr_check_eq("slope at a trial step", de, dr); }
    if ((var & 16) || p == 1 || n == 2) sr_check_eq("energy without the slope", f(th, 0, fd), r); memcpy(moved, t, sizeof moved); sr_reach("searched"); if (!(var & 96)) sr_done(); *cf = f0; *cdf = de; calls++; return th; }
  sr_infeasible("more than one step"); return 0; }
static int seen[8], ns = 0;
static void c1(evectmatrix X, void *d) { int i; seen[ns++] = *(int *)d; for (i = 0; i < X.n * X.p; i++) { cx z = C(X.data[i]); ASSIGN_SCALAR(X.data[i], 2 * z.re + *(int *)d, 2 * z.im); } }
static cx M1[9]; /* inverse of the triangular factor of the metric */
static void shape(cx *o, int salt) { /* M^-1 times columns with squared norms adding up to p */ static const double yr[2][3] = {{0.36, 0.48, 0.8}, {0.48, 0.64, -0.6}}, yi[2][3] = {{0, 0.6, 0.28}, {0.6, -0.28, 0}}; int i, j, k; cx t[9], U[9]; unitary(n, U, 1); for (i = 0; i < n; i++) for (j = 0; j < p; j++) { t[i * p + j].re = n == 2 ? (i ? 0.8 : 0.6) * (j && i ? -1 : 1) : i == 2 ? yr[j][2] : yr[j][i]; t[i * p + j].im = 0;
#ifdef SCALAR_COMPLEX
      if (n == 2) { t[i * p + j].im = t[i * p + j].re * (i ? 0.28 : 0.6); t[i * p + j].re *= i ? 0.96 : 0.8; }
      else { static const double a[3] = {0.6, 0, 0.28}, b[3] = {0.8, 1, 0.96}; double r = (double[2][3]){{0.36, 0.48, 0.8}, {0.48, 0.64, -0.6}}[j][i]; t[i * p + j].re = r * b[(i + j) % 3]; t[i * p + j].im = r * a[(i + j) % 3]; }
#endif
    }
  (void)yi; if (salt) { cx q[9]; for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx z = {0, 0}; for (k = 0; k < n; k++) z = cxa(z, cxm(U[i * n + k], t[k * p + j])); q[i * p + j] = z; } memcpy(t, q, sizeof t); }
  for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx z = {0, 0}; for (k = 0; k < n; k++) z = cxa(z, cxm(M1[i * n + k], t[k * p + j])); o[i * p + j] = z; } }
static void opK(evectmatrix X, evectmatrix Z, void *d, evectmatrix YY, real *ev, sqmatrix YtY) { int i; cx o[9]; shape(o, 1); for (i = 0; i < n * p; i++) ASSIGN_SCALAR(Z.data[i], o[i].re, o[i].im); (void)X; (void)d; (void)YY; (void)ev; (void)YtY; }
static evectmatrix W[5]; static int it = -1, flags; static double ev[3];
static void solve(void *u) { eigensolver(Y, ev, opA, HA, useB ? opB : 0, useB ? HB : 0, var & 16 ? opK : 0, 0, cons, consd, W, 3 + useB, u ? *(double *)u : 0.0, &it, flags); }
static void consp(evectmatrix X, void *d) { int j; for (j = 0; j < X.p; j++) ASSIGN_ZERO(X.data[*(int *)d * X.p + j]); }
int harness_main(int argc, char **v) {
  int what = A(v, 1), i, j, k; n = A(v, 2); p = A(v, 3); var = argc > 4 ? A(v, 4) : 0; (void)argc;
  Y = mk(); for (i = 0; i < 5; i++) { W[i] = mk(); int q; for (q = 0; q < n * p; q++) W[i].data[q] = mx_scalar("w", i, q, 3); }
  if (what == 0) { cx V[9], X[9], Q[9]; double s[3], w[3], ev[3]; unitary(p, V, 1); unitary(p, X, 2); unitary(n, Q, 3);
    for (i = 0; i < p; i++) { s[i] = sr_varf(0.75 + 0.5 * i, "norm%d", i); sr_assume_gt(s[i], 0.0); if (i) sr_assume_ge(s[i - 1], s[i]); w[i] = sr_varf(0.25 + i, "lam%d", i); if (i) sr_assume_ge(w[i], w[i - 1]); }
    /* Y = Q diag(s) V', so (Y'Y)^-1 = V s^-2 V' and the orthonormalised block is Q V' */
    lapz LA[9], LV[9]; double w1[3]; for (i = 0; i < p; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; for (k = 0; k < p; k++) t = cxa(t, cxs(1 / (s[k] * s[k]), cxm(V[i * p + k], cxc(V[j * p + k])))); LA[i * p + j].re = t.re; LA[i * p + j].im = t.im; LV[i * p + j].re = V[i * p + j].re; LV[i * p + j].im = V[i * p + j].im; } for (i = 0; i < p; i++) w1[i] = 1 / (s[i] * s[i]); lap_expect_eig(p, LA, 0, LV, w1);
    /* Ritz matrix of the orthonormalised block: X diag(w) X' */
    cx R[9], P[9]; for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx t = {0, 0}, q = {0, 0}; for (k = 0; k < p; k++) { t = cxa(t, cxm(cxs(s[k], Q[i * n + k]), cxc(V[j * p + k]))); q = cxa(q, cxm(Q[i * n + k], cxc(V[j * p + k]))); } ASSIGN_SCALAR(Y.data[i * p + j], t.re, t.im); P[i * p + j] = q; }
    for (i = 0; i < p; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; for (k = 0; k < p; k++) t = cxa(t, cxs(w[k], cxm(X[i * p + k], cxc(X[j * p + k])))); R[i * p + j] = t; LA[i * p + j].re = t.re; LA[i * p + j].im = t.im; LV[i * p + j].re = X[i * p + j].re; LV[i * p + j].im = X[i * p + j].im; } lap_expect_eig(p, LA, 0, LV, w);
    /* operator: P R P' plus an arbitrary coupling to the rest of the space */
    { cx S[9], T[9]; cx K[9]; hermf(K, "K", 0, 1); for (i = 0; i < n; i++) for (j = 0; j < n; j++) { int a, b; cx t = {0, 0}; for (a = 0; a < n; a++) for (b = 0; b < n; b++) { cx m = a < p && b < p ? (cx){0, 0} : K[a * n + b]; t = cxa(t, cxm(Q[i * n + a], cxm(m, cxc(Q[j * n + b])))); } for (a = 0; a < p; a++) for (b = 0; b < p; b++) t = cxa(t, cxm(P[i * p + a], cxm(R[a * p + b], cxc(P[j * p + b])))); HA[i * n + j] = t; } (void)S; (void)T; }
    eigensolver_get_eigenvals(Y, ev, opA, HA, W[0], W[1]); sr_check_true("all decompositions used", lap_pending() == 0);
    cx y[16]; snap(Y, y); cx I[9]; memset(I, 0, sizeof I); for (i = 0; i < n; i++) I[i * n + i].re = 1;
    for (i = 0; i < p; i++) { sr_checkf_eq(ev[i], w[i], "eigenvalue %d", i); if (i) sr_checkf_le(ev[i - 1], ev[i], "ascending %d", i); for (j = 0; j < p; j++) { cx e = {i == j, 0}; eq(g2(I, y, y, i, j), e, "orthonormal", i, j); eq(g2(HA, y, y, i, j), cxs(ev[i], e), "operator is diagonal", i, j); } }
    for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; int a, k2; for (a = 0; a < p; a++) for (k2 = 0; k2 < n; k2++) t = cxa(t, cxm(Q[i * n + a], cxm(cxc(Q[k2 * n + a]), y[k2 * p + j]))); eq(t, y[i * p + j], "same span", i, j); }
  } else if (what == 1) { int id[3] = {1, 2, 5}, m = var; evectconstraint_chain *c = 0; mx_fill(Y, "y"); cx y[16]; snap(Y, y); for (i = 0; i < m; i++) c = evect_add_constraint(c, c1, &id[i]); if (var == 2) c = evect_add_constraint(c, 0, 0); evectconstraint_chain_func(Y, c); sr_check_true("every constraint applied once", ns == m); for (i = 0; i < ns; i++) sr_checkf_true(seen[i] == id[m - 1 - i], "latest first %d", i);
    for (i = 0; i < n * p; i++) { cx z = y[i]; for (j = m - 1; j >= 0; j--) { z.re = 2 * z.re + id[j]; z.im = 2 * z.im; } eq(C(Y.data[i]), z, "constrained block", i, 0); } ns = 0; evectconstraint_chain_func(Y, c); sr_check_true("again", ns == m); evect_destroy_constraints(c);
  } else { static int kill; flags = EIGS_FORCE_EXACT_LINMIN | (var & 1 ? EIGS_REORTHOGONALIZE : 0) | (var & 8 ? EIGS_PROJECT_PRECONDITIONING : 0); useB = (var & 2) != 0; int cst = A(v, 5); kth = sr_var("kth", 0.0625); sr_angle(kth, 1);
    hermf(HA, "A", (cst & 4) != 0, 1); if (cst & 4) HA[0].re = sr_varf(1.0, "a0");
    { cx M[9]; memset(M, 0, sizeof M); for (i = 0; i < n; i++) M[i * n + i].re = M1[i * n + i].re = 1;
      if (useB) { /* B = M'M */ double g = 0.5; cx a = {0.5, 0.25}, b = {-0.25, 0.5}; (void)g;
#ifndef SCALAR_COMPLEX
        a.im = b.im = 0;
#endif
        if (var & 4) b.re = b.im = 0; M[1] = a; M1[1] = cxs(-1, a); if (n == 3) { M[5] = b; M1[5] = cxs(-1, b); M1[2] = cxm(a, b); } M[0].re = 2; for (j = 0; j < n; j++) { M[j] = cxs(j ? 2 : 1, M[j]); } M1[0].re = 0.5; }
      for (i = 0; i < n; i++) for (j = 0; j < n; j++) { cx t = {0, 0}; for (k = 0; k < n; k++) t = cxa(t, cxm(cxc(M[k * n + i]), M[k * n + j])); HB[i * n + j] = t; } }
    if (cst & 2) mx_fill(Y, "y"); else { cx o[9]; shape(o, 0); for (i = 0; i < n * p; i++) ASSIGN_SCALAR(Y.data[i], o[i].re, o[i].im); }
    if (var & 4) { kill = n - 1; for (i = 0; i < n - 1; i++) { HA[i * n + n - 1].re = HA[i * n + n - 1].im = HA[(n - 1) * n + i].re = HA[(n - 1) * n + i].im = 0; } cons = consp; consd = &kill; }
    int nW = 3 + useB; D = W[2 + useB]; 
    (void)nW; double tl = 0.5; int died = hx_try(solve, var & 32 ? &tl : 0); if (!died && (var & 32)) { cx y[16], I[16]; snap(Y, y); memset(I, 0, sizeof I); for (i = 0; i < n; i++) I[i * n + i].re = 1; sr_check_eq("final vector normalised", g2(useB ? HB : I, y, y, 0, 0).re, 1); sr_check_eq("reported eigenvalue", ev[0], g2(HA, y, y, 0, 0).re); double r0 = refE(moved, 0, 0); sr_check_eq("eigenvalue of the accepted step", ev[0], r0); sr_check_true("one step", it == 1); sr_reach("solved"); sr_done(); }
    if (died) { if (!strstr(hx_msg, "crazy number")) sr_checkf_true(0, "the solver stopped: %s", hx_msg); sr_infeasible("magnitudes above 1e50"); } sr_infeasible("converged after one step"); }
  sr_reach("end"); return 0; }
