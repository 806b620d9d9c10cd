#ifndef MPS_H
#define MPS_H
/* mp.h plus an eigensolver stand-in that leaves the block as found, so that the harness can
   install an eigenvector, tensors, transverse frames and frequencies of its own after solve_kpoint */
#include "mp.h"
#include "eigensolver.h"
static double (*mps_ev)(evectmatrix, int);
void eigensolver(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectoperator Bo, void *Bd, evectpreconditioner K, void *Kd, evectconstraint C, void *Cd, evectmatrix Wk[], int nW, real tol, int *ni, int fl) { int b; for (b = 0; b < Y.p; b++) ev[b] = mps_ev ? mps_ev(Y, b) : 1; *ni = 1; }
void eigensolver_davidson(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectpreconditioner K, void *Kd, evectconstraint C, void *Cd, evectmatrix Wk[], int nW, real tol, int *ni, int fl, real t) { int b; for (b = 0; b < Y.p; b++) ev[b] = 1; *ni = 1; }
void eigensolver_get_eigenvals(evectmatrix Y, real *ev, evectoperator A, void *Ad, evectmatrix W1, evectmatrix W2) { int b; for (b = 0; b < Y.p; b++) ev[b] = 1; }
/* what: bit 0 symbolic tensors, bit 1 symbolic eigenvectors, bit 2 symbolic frequencies, bit 3 keep the program's own frames */
static vector3 mps_k(int ny, int nz) { return mp_v(0.25, ny > 1 ? -0.375 : 0, nz > 1 ? 0.125 : 0); }
static void mps_install(int what) { int b; mx_eps(mp_mxs(), what & 1 ? 3 : 0); if (!(what & 8)) mx_kdata(mdata, 1);
  if (what & 2) mx_fill(H, "X"); else mx_fill_const(H, 5);
  for (b = 0; b < H.p; b++) { freqs.items[b] = what & 4 ? sr_varf(0.5 + 0.25 * b, "freq%d", b) : 0.5 + 0.25 * b; if (what & 4) sr_assume_gt(freqs.items[b], 0); } }
static void mps_start(int nx, int ny, int nz, int nb, int block, int lat, int mu, int what) {
  mp_globals(nx, ny, nz, nb, block, lat, mu); init_params(NO_PARITY, 1); solve_kpoint(mps_k(ny, nz)); mps_install(what); }
#endif
