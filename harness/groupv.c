/* group velocities against  v = Re <u x h | eps^-1 | (k+G) x h> / omega.
   args: nx ny nz nb block lat mu what */
#include "mps.h"
static double refv(evectmatrix X, int b, const double u[3], int mu) { /* times omega */
  maxwell_data *d = mdata; int i, c; cx *h[3], *q[3]; double s = 0; ref_alloc(d, h); ref_alloc(d, q);
  evectmatrix T = create_evectmatrix(X.N, 2, 1, X.localN, X.Nstart, X.allocN), Y = create_evectmatrix(X.N, 2, 1, X.localN, X.Nstart, X.allocN);
  for (i = 0; i < X.n; i++) T.data[i] = X.data[i * X.p + b];
  ref_cart(d, T, 0, h); ref_fft(d, h, 1); if (mu) { ref_mul(d, h, d->mu_inv); ref_muinv(d, T, Y); } else evectmatrix_copy(Y, T);
  ref_curl(d, Y, 0, q); ref_fft(d, q, 1); ref_mul(d, q, d->eps_inv);
  for (i = 0; i < d->N; i++) for (c = 0; c < 3; c++) { int c1 = (c + 1) % 3, c2 = (c + 2) % 3; cx w = cxa(cxs(u[c1], h[c2][i]), cxs(-u[c2], h[c1][i])); s += w.re * q[c][i].re + w.im * q[c][i].im; }
  ref_free(h); ref_free(q); destroy_evectmatrix(T); destroy_evectmatrix(Y); return s / d->N; }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), block = A(v, 5), lat = A(v, 6), mu = A(v, 7), what = A(v, 8), i, b, c;
  static const double U[][3] = {{0.6, 0.8, 0}, {1, 0, 0}, {0, 0.28, -0.96}, {0.48, 0.36, 0.8}};
  mps_start(nx, ny, nz, nb, block, lat, mu, what); 
  freqs.items[nb - 1] = 0; 
  evectmatrix X0 = mp_ev(nb); evectmatrix_copy(X0, H);
  matrix3x3 RmT = matrix3x3_transpose(Rm);
  for (i = 0; i < 4; i++) { double len = i == 2 ? 2.5 : 1; vector3 dir = matrix3x3_vector3_mult(RmT, mp_v(len * U[i][0], len * U[i][1], len * U[i][2]));
    if (i < 3) { number_list g = compute_group_velocity_component(dir); sr_checkf_true(g.num_items == nb, "one velocity per band");
      for (b = 0; b < nb; b++) { if (b == nb - 1) sr_checkf_eq(g.items[b], 0, "velocity of zero-frequency band"); else sr_checkf_eq(g.items[b] * freqs.items[b], refv(X0, b, U[i], mu), "velocity of band %d direction %d", b, i); } }
    if (i != 1) for (b = 0; b < nb; b += nb > 3 ? 2 : 1) { double g = compute_1_group_velocity_component(dir, b + 1); if (b == nb - 1) sr_checkf_eq(g, 0, "single velocity of zero-frequency band"); else sr_checkf_eq(g * freqs.items[b], refv(X0, b, U[i], mu), "single velocity of band %d direction %d", b, i); } }
  for (b = 0; b < nb - 1; b += nb - 1 > 1 ? nb - 2 : 1) { vector3 g = compute_1_group_velocity(b + 1), r = compute_1_group_velocity_reciprocal(b + 1); double e[3], gg[3] = {g.x, g.y, g.z}, rr[3] = {r.x, r.y, r.z};
    double B[3][3] = {{G[0][0], G[0][1], G[0][2]}, {G[1][0], G[1][1], G[1][2]}, {G[2][0], G[2][1], G[2][2]}};
    for (c = 0; c < 3; c++) { double u[3] = {c == 0, c == 1, c == 2}; e[c] = refv(X0, b, u, mu); sr_checkf_eq(gg[c] * freqs.items[b], e[c], "Cartesian velocity component %d band %d", c, b); }
    for (c = 0; c < 3; c++) sr_checkf_eq(rr[c] * freqs.items[b], B[c][0] * e[0] + B[c][1] * e[1] + B[c][2] * e[2], "reciprocal velocity component %d band %d", c, b); }
  mx_check_same(H, X0, "eigenvectors unchanged");
  sr_check_true("matrix shapes restored", Hblock.p == Hblock.alloc_p && mdata->num_bands == Hblock.alloc_p && H.p == nb); for (i = 0; i < nwork_alloc; i++) sr_checkf_true(W[i].p == W[i].alloc_p, "work matrix %d restored", i);
  sr_reach("end"); return 0; }
