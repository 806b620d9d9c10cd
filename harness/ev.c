/* block vector algebra. args: n p q what */
#include "mx.h"
static int n, p;
static cx C(scalar s) { cx r = {SC_RE(s), SC_IM(s)}; return r; }
static evectmatrix mk(int nn, int pp, int ap) { evectmatrix X = create_evectmatrix(nn, 1, ap, nn, 0, nn); X.p = pp; return X; }
static void fill(evectmatrix X, const char *nm) { int i; for (i = 0; i < X.n * X.p; i++) X.data[i] = mx_scalar(nm, i, 0, 0); }
static void fsq(sqmatrix S, const char *nm) { int i; for (i = 0; i < S.p * S.p; i++) S.data[i] = mx_scalar(nm, i, 0, 1); }
static scalar *dup(scalar *d, int m) { scalar *r = malloc(sizeof(scalar) * (m ? m : 1)); memcpy(r, d, sizeof(scalar) * m); return r; }
static void eq(cx a, cx b, const char *w, int i, int j) { sr_checkf_eq(a.re, b.re, "%s re %d %d", w, i, j);
#ifdef SCALAR_COMPLEX
  sr_checkf_eq(a.im, b.im, "%s im %d %d", w, i, j);
#endif
}
static void same(scalar *a, scalar *b, int m, const char *w) { int i; for (i = 0; i < m; i++) eq(C(a[i]), C(b[i]), w, i, 0); }
/* column ix of X (leading dimension lx) dotted with column iy of Y */
static cx dot(scalar *X, int lx, int ix, scalar *Y, int ly, int iy) { cx s = {0, 0}; int i; for (i = 0; i < n; i++) s = cxa(s, cxm(cxc(C(X[i * lx + ix])), C(Y[i * ly + iy]))); return s; }
static evectmatrix T; static int newp;
static void grow(void *u) { evectmatrix_resize(&T, newp, 1); (void)u; }
int harness_main(int argc, char **v) {
  int what = A(v, 1), q, i, j, k; n = A(v, 2); p = A(v, 3); q = argc > 4 ? A(v, 4) : p; (void)argc;
  double a = sr_var("alpha", 0.75), b = sr_var("beta", -1.25);
  if (what == 0) { /* X = aX + bY, with X and Y distinct or the same */
    evectmatrix X = mk(n, p, p), Y = mk(n, p, p); scalar *X0; int al = sr_choose("same", 0, 1), one = sr_choose("a is 1", 0, 1); fill(X, "x"); fill(Y, "y"); X0 = dup(X.data, n * p); scalar *Y0 = dup(Y.data, n * p); if (one) a = 1;
    evectmatrix_aXpbY(a, X, b, al ? X : Y); for (i = 0; i < n * p; i++) eq(C(X.data[i]), cxa(cxs(a, C(X0[i])), cxs(b, C((al ? X0 : Y0)[i]))), "aX+bY", i, 0); same(Y.data, Y0, n * p, "Y kept");
    evectmatrix_copy(X, Y); same(X.data, Y0, n * p, "copy");
    { evectmatrix Z = mk(n, p, p); sqmatrix I = create_sqmatrix(0); fill(Z, "z"); scalar *Z0 = dup(Z.data, n * p); I.p = 0; evectmatrix_XpaYS(Z, b, Y, I, 0); for (i = 0; i < n * p; i++) eq(C(Z.data[i]), cxa(C(Z0[i]), cxs(b, C(Y0[i]))), "X+bY", i, 0); evectmatrix_XeYS(Z, Y, I, 1); same(Z.data, Y0, n * p, "X=Y"); }
  } else if (what == 1) { /* block products with S (q>=p), sub-matrix at an offset, S or its adjoint */
    evectmatrix X = mk(n, p, p + 1), Y = mk(n, p, p); sqmatrix S = create_sqmatrix(q); int d = sr_choose("adjoint", 0, 1), r0 = sr_choose("row", 0, q - p), c0 = sr_choose("column", 0, q - p); fill(X, "x"); fill(Y, "y"); fsq(S, "s"); scalar *X0 = dup(X.data, n * p), *Y0 = dup(Y.data, n * p), *S0 = dup(S.data, q * q);
    evectmatrix_aXpbYS_sub(a, X, b, Y, S, r0 * q + c0, d);
    for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; for (k = 0; k < p; k++) t = cxa(t, cxm(C(Y0[i * p + k]), d ? cxc(C(S0[(r0 + j) * q + c0 + k])) : C(S0[(r0 + k) * q + c0 + j]))); eq(C(X.data[i * p + j]), cxa(cxs(a, C(X0[i * p + j])), cxs(b, t)), "aX+bYS", i, j); }
    same(Y.data, Y0, n * p, "Y kept"); same(S.data, S0, q * q, "S kept");
    if (q == p) { memcpy(X.data, X0, sizeof(scalar) * n * p); evectmatrix_XpaYS(X, b, Y, S, d); for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; for (k = 0; k < p; k++) t = cxa(t, cxm(C(Y0[i * p + k]), d ? cxc(C(S0[j * q + k])) : C(S0[k * q + j]))); eq(C(X.data[i * p + j]), cxa(C(X0[i * p + j]), cxs(b, t)), "X+aYS", i, j); }
      { int h = sr_choose("Hermitian", 0, 1); if (h) { for (i = 0; i < q; i++) for (j = 0; j <= i; j++) { cx z = C(S0[j * q + i]); if (i == j) z.im = 0; ASSIGN_SCALAR(S.data[j * q + i], z.re, z.im); ASSIGN_SCALAR(S.data[i * q + j], z.re, -z.im); } memcpy(S0, S.data, sizeof(scalar) * q * q); }
        evectmatrix_XeYS(X, Y, S, h); for (i = 0; i < n; i++) for (j = 0; j < p; j++) { cx t = {0, 0}; for (k = 0; k < p; k++) t = cxa(t, cxm(C(Y0[i * p + k]), C(S0[k * q + j]))); eq(C(X.data[i * p + j]), t, "X=YS", i, j); } } }
  } else if (what == 2) { /* inner products; all scratch space has arbitrary earlier contents */
    evectmatrix X = mk(n, p, p + 1), Y = mk(n, p, p); sqmatrix U = create_sqmatrix(p), S = create_sqmatrix(p), B = create_sqmatrix(q), W = create_sqmatrix(q); fill(X, "x"); fill(Y, "y"); fsq(U, "u"); fsq(S, "s"); fsq(W, "w"); scalar *X0 = dup(X.data, n * p), *Y0 = dup(Y.data, n * p), dg[4], ds[4]; real rd[4], rs[4]; for (i = 0; i < 4; i++) { dg[i] = ds[i] = mx_scalar("t", i, 0, 0); rd[i] = rs[i] = sr_varf(0.3, "v%d", i); }
    evectmatrix_XtX(U, X, S); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(C(U.data[i * p + j]), dot(X0, p, i, X0, p, j), "XtX", i, j);
    evectmatrix_XtY(U, X, Y, S); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(C(U.data[i * p + j]), dot(X0, p, i, Y0, p, j), "XtY", i, j);
    { int r0 = sr_choose("row", 0, q - p), c0 = sr_choose("column", 0, q - p); fsq(B, "b"); scalar *B0 = dup(B.data, q * q); evectmatrixXtY_sub(B, r0 * q + c0, X, Y, W); for (i = 0; i < q; i++) for (j = 0; j < q; j++) { int in = i >= r0 && i < r0 + p && j >= c0 && j < c0 + p; eq(C(B.data[i * q + j]), in ? dot(X0, p, i - r0, Y0, p, j - c0) : C(B0[i * q + j]), in ? "XtY block" : "outside the block", i, j); } }
    evectmatrix_XtY_diag(X, Y, dg, ds); cx tr = {0, 0}; for (i = 0; i < p; i++) { cx t = dot(X0, p, i, Y0, p, i); tr = cxa(tr, t); eq(C(dg[i]), t, "diagonal of XtY", i, i); }
    evectmatrix_XtY_diag_real(X, Y, rd, rs); for (i = 0; i < p; i++) sr_checkf_eq(rd[i], dot(X0, p, i, Y0, p, i).re, "real diagonal of XtY %d", i);
    evectmatrix_XtX_diag_real(X, rd, rs); for (i = 0; i < p; i++) { sr_checkf_eq(rd[i], dot(X0, p, i, X0, p, i).re, "diagonal of XtX %d", i); }
    { scalar s = evectmatrix_traceXtY(X, Y); eq(C(s), tr, "trace of XtY", 0, 0); }
    same(X.data, X0, n * p, "X kept"); same(Y.data, Y0, n * p, "Y kept");
  } else if (what == 3) { /* column selections: p columns of X, q of Y */
    int lx = p, ly = q, ix = sr_choose("ix", 0, lx - 1), m = sr_choose("m", 1, lx), iy = sr_choose("iy", 0, ly - 1); evectmatrix X = mk(n, lx, lx), Y = mk(n, ly, ly); if (ix + m > lx || iy + m > ly) sr_infeasible("outside"); fill(X, "x"); fill(Y, "y"); scalar *X0 = dup(X.data, n * lx), *Y0 = dup(Y.data, n * ly); sqmatrix U = create_sqmatrix(m), S = create_sqmatrix(lx + ly); fsq(U, "u"); fsq(S, "s");
    evectmatrix_XtY_slice(U, X, Y, ix, iy, m, S); for (i = 0; i < m; i++) for (j = 0; j < m; j++) eq(C(U.data[i * m + j]), dot(X0, lx, ix + i, Y0, ly, iy + j), "slice of XtY", i, j);
    { int mq = sr_choose("mq", 1, m), iu = sr_choose("iu", 0, m - mq); sqmatrix R = create_sqmatrix(lx + ly); fsq(R, "r"); fsq(U, "U"); scalar *U0 = dup(U.data, m * m); evectmatrix_XtY_slice2(U, X, Y, ix, iy, m, mq, iu, S, R); for (i = 0; i < m; i++) for (j = 0; j < m; j++) { int in = j >= iu && j < iu + mq; eq(C(U.data[i * m + j]), in ? dot(X0, lx, ix + i, Y0, ly, iy + j - iu) : C(U0[i * m + j]), in ? "columns of XtY" : "other columns", i, j); } }
    evectmatrix_copy_slice(X, Y, ix, iy, m); for (i = 0; i < n; i++) for (j = 0; j < lx; j++) { int in = j >= ix && j < ix + m; eq(C(X.data[i * lx + j]), in ? C(Y0[i * ly + iy + j - ix]) : C(X0[i * lx + j]), in ? "copied column" : "other column", i, j); } same(Y.data, Y0, n * ly, "Y kept");
  } else { /* resize within a larger allocation, contents preserved */
    int al = p > q ? p : q, m = p < q ? p : q; evectmatrix X = mk(n, p, al); fill(X, "x"); scalar *X0 = dup(X.data, n * p); evectmatrix_resize(&X, q, 1); sr_check_true("new size", X.p == q && X.n == n); for (i = 0; i < n; i++) for (j = 0; j < m; j++) eq(C(X.data[i * q + j]), C(X0[i * p + j]), "kept", i, j);
    fill(X, "z"); scalar *Z0 = dup(X.data, n * q); evectmatrix_resize(&X, q, 1); same(X.data, Z0, n * q, "same size"); evectmatrix_resize(&X, p, 0); sr_check_true("size without contents", X.p == p); T = X; newp = al + 1; sr_check_true("growing beyond the allocation is refused", hx_try(grow, 0)); }
  sr_reach("end"); return 0; }
