/* solve-kpoint with the eigensolver replaced by the harness.
   args: nx ny nz nb block lat mu kzero target parity nsolves history(0 fresh, 1 a run with the other kind of medium before, 2 a run with another grid/block before) */
#include "mp.h"
#include "eigensolver.h"
static int calls = 0, solveno = 0, mu, target, nbands, kzero, par;
static double *lam; static scalar *sol; static int nsol, first, zeroC;
static void refconstraint(evectmatrix X, scalar *Y, int p) { /* X - Y (B Y)^H X, and no constant field at k=0 */
  int i, a, b, n = X.n; evectmatrix BY = create_evectmatrix(X.N, X.c, p > 0 ? p : 1, X.localN, X.Nstart, X.allocN), YY = create_evectmatrix(X.N, X.c, p > 0 ? p : 1, X.localN, X.Nstart, X.allocN);
  for (i = 0; i < n; i++) for (a = 0; a < p; a++) YY.data[i * p + a] = Y[i * nbands + a];
  if (mu && p) ref_muinv(mdata, YY, BY); else if (p) evectmatrix_copy(BY, YY);
  if (par) maxwell_parity_constraint(X, mdata);
  if (mdata->zero_k) for (i = 0; i < 2; i++) for (b = 0; b < X.p; b++) ASSIGN_SCALAR(X.data[i * X.p + b], 0, 0);
  for (b = 0; b < X.p; b++) for (a = 0; a < p; a++) { cx s = {0, 0}; for (i = 0; i < n; i++) { scalar u = BY.data[i * p + a], v = X.data[i * X.p + b]; cx uu = {SC_RE(u), -SC_IM(u)}, vv = {SC_RE(v), SC_IM(v)}; s = cxa(s, cxm(uu, vv)); }
    /* classical projection: all inner products with the same X */
    static cx S[64][64]; S[a][b] = s; if (a == p - 1) { int q; for (i = 0; i < n; i++) for (q = 0; q < p; q++) { scalar u = YY.data[i * p + q]; cx uu = {SC_RE(u), SC_IM(u)}, t = cxm(uu, S[q][b]); scalar *x = &X.data[i * X.p + b]; double re = SC_RE(*x) - t.re, im = SC_IM(*x) - t.im; ASSIGN_SCALAR(*x, re, im); } } }
  destroy_evectmatrix(BY); destroy_evectmatrix(YY); }
static void solver(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectoperator Bo, void *Bd, evectconstraint C, void *Cd, evectmatrix *Wk, int nW) {
  int i, b; calls++;
  sr_checkf_true(Y.p >= 1 && Y.p == mdata->num_bands && first + Y.p <= nbands, "block %d: %d bands from %d", calls, Y.p, first);
  sr_checkf_true(nW >= 1 + (Bo ? 1 : 0), "workspace"); for (i = 0; i < nW; i++) sr_checkf_true(Wk[i].p == Y.p && Wk[i].n == Y.n, "work matrix %d has the block's shape", i);
  sr_checkf_true((Bo != 0) == mu, "inner product with mu");
  evectmatrix X = mp_ev(Y.p), Z = mp_ev(Y.p), Wx = mp_ev(Y.p), R = mp_ev(Y.p);
  if (solveno == 0) { /* the operators handed over */
    mx_fill_const(X, 3 + calls); A(X, Z, Ad, 0, Wx); ref_operator(mdata, X, R); 
    if (target) { evectmatrix R2 = mp_ev(Y.p); double w2 = target_freq * target_freq; for (i = 0; i < R.n * R.p; i++) { scalar x = X.data[i]; ASSIGN_SCALAR(R.data[i], SC_RE(R.data[i]) - w2 * SC_RE(x), SC_IM(R.data[i]) - w2 * SC_IM(x)); } ref_operator(mdata, R, R2); for (i = 0; i < R.n * R.p; i++) ASSIGN_SCALAR(R.data[i], SC_RE(R2.data[i]) - w2 * SC_RE(R.data[i]), SC_IM(R2.data[i]) - w2 * SC_IM(R.data[i])); }
    mx_check_same(Z, R, "operator handed to the solver");
    if (Bo) { Bo(X, Z, Bd, 0, Wx); ref_muinv(mdata, X, R); mx_check_same(Z, R, "inner-product operator handed to the solver"); } }
  { char nm[20]; sprintf(nm, "c%d_%d", solveno, calls); mx_fill(X, nm); }
  if (kzero && !mdata->zero_k) sr_check_true("zero k recognised", 0);
  evectmatrix X0 = mp_ev(Y.p); evectmatrix_copy(X0, X); C(X, Cd);
  refconstraint(X0, sol, first - zeroC); mx_check_same(X, X0, "constraint on a block");
  for (i = 0; i < Y.n; i++) for (b = 0; b < Y.p; b++) { scalar s = mx_const(1000 * solveno + 131 * (first + b) + 7 * i); Y.data[i * Y.p + b] = s; }
  if (par) maxwell_parity_constraint(Y, mdata); /* solutions satisfy the constraints themselves */
  if (mdata->zero_k) for (i = 0; i < 2; i++) for (b = 0; b < Y.p; b++) ASSIGN_SCALAR(Y.data[i * Y.p + b], 0, 0);
  for (i = 0; i < Y.n; i++) for (b = 0; b < Y.p; b++) sol[i * nbands + first - zeroC + b] = Y.data[i * Y.p + b];
  for (b = 0; b < Y.p; b++) { lam[first + b] = sr_varf(first + b + 1.25, "lam%d_%d", solveno, first + b); sr_assume_ge(lam[first + b], 0); ev[b] = lam[first + b]; }
  first += Y.p;
  destroy_evectmatrix(X); destroy_evectmatrix(Z); destroy_evectmatrix(Wx); destroy_evectmatrix(R); destroy_evectmatrix(X0); }
void eigensolver(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectoperator Bo, void *Bd, evectpreconditioner K, void *Kd, evectconstraint C, void *Cd, evectmatrix Wk[], int nW, real tol, int *ni, int fl) { solver(Y, ev, A, Ad, Bo, Bd, C, Cd, Wk, nW); *ni = 3; }
void eigensolver_davidson(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectpreconditioner K, void *Kd, evectconstraint C, void *Cd, evectmatrix Wk[], int nW, real tol, int *ni, int fl, real t) { solver(Y, ev, A, Ad, 0, 0, C, Cd, Wk, nW); *ni = 3; }
void eigensolver_get_eigenvals(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectmatrix W1, evectmatrix W2) { int b; sr_check_true("subspace diagonalisation only for targeted runs", target); first -= Y.p; for (b = 0; b < Y.p; b++) ev[b] = lam[first + b] = sr_varf(first + b + 2.5, "mu%d_%d", solveno, first + b), sr_assume_ge(lam[first + b], 0); first += Y.p; }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), block = A(v, 5), lat = A(v, 6), ns = A(v, 11), i, b, s; mu = A(v, 7); kzero = A(v, 8); target = A(v, 9); par = A(v, 10); nbands = nb;
  int hist = A(v, 12);
  if (hist) { mp_globals(hist == 2 ? nx + 1 : nx, ny, nz, nb, hist == 2 ? nb : block, lat, hist == 1 ? !mu : mu); init_params(NO_PARITY, 1); }
  mp_globals(nx, ny, nz, nb, block, lat, mu); if (target) target_freq = 0.5;
  init_params(par, 1); mx_eps(mp_mxs(), 0);
  sr_check_true("permeability used iff a material has one", (mdata->mu_inv != 0) == mu);
  lam = calloc(nb + 1, sizeof(double)); sol = calloc((H.n + 2) * (nb + 1), sizeof(scalar));
  for (solveno = 0; solveno < ns; solveno++) { int kz = kzero && solveno == 0; vector3 k = kz ? mp_v(0, 0, 0) : mp_v(0.25, ny > 1 ? -0.375 : 0, nz > 1 ? 0.125 : 0); int kz0 = kzero; kzero = kz;
    calls = 0; zeroC = first = kz && !target ? (par & (EVEN_Z_PARITY | ODD_Z_PARITY | EVEN_Y_PARITY | ODD_Y_PARITY) ? 1 : 2) : 0; if (zeroC > nb) zeroC = first = nb;
    solve_kpoint(k); kzero = kz0;
    sr_checkf_true(first == nb, "every band solved (%d of %d)", first, nb);
    sr_checkf_true(H.p == nb && freqs.num_items == nb && get_kpoint_index() == solveno + 1, "band count kept");
    for (i = 0; i < nb; i++) { if (i < zeroC) { sr_checkf_eq(freqs.items[i], 0, "frequency of constant band %d", i); continue; } sr_checkf_eq(freqs.items[i] * freqs.items[i], lam[i], "frequency %d squared", i); sr_checkf_le(0, freqs.items[i], "frequency %d not negative", i); }
    for (i = 0; i < H.n; i++) for (b = zeroC; b < nb; b++) { scalar x = H.data[i * nb + b], y = sol[i * nbands + b - zeroC]; sr_checkf_eq(SC_RE(x), SC_RE(y), "solution component %d band %d re", i, b); sr_checkf_eq(SC_IM(x), SC_IM(y), "solution component %d band %d im", i, b); }
    for (b = 0; b < zeroC; b++) { double n2 = 0; for (i = 0; i < H.n; i++) { scalar x = H.data[i * nb + b]; if (i >= 2) { sr_checkf_eq(SC_RE(x), 0, "constant band %d component %d", b, i); sr_checkf_eq(SC_IM(x), 0, "constant band %d component %d", b, i); } else n2 += SC_RE(x) * SC_RE(x) + SC_IM(x) * SC_IM(x); } sr_checkf_eq(n2, 1, "constant band %d normalised", b); }
    sr_check_true("matrix shapes restored", Hblock.p == Hblock.alloc_p && mdata->num_bands == Hblock.alloc_p); for (i = 0; i < nwork_alloc; i++) sr_checkf_true(W[i].p == W[i].alloc_p, "work matrix %d restored", i); }
  sr_reach("end"); return 0; }
