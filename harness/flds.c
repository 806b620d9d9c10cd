/* fields derived from an eigenvector. args: nx ny nz nb block lat mu what */
#include "mps.h"
static int Npt(void) { return mdata->nx * mdata->ny * mdata->nz; }
static void oneband(evectmatrix X, int b, evectmatrix T) { int i; for (i = 0; i < X.n; i++) T.data[i] = X.data[i * X.p + b]; }
/* D*omega*sqrt(V), B*sqrt(V), H*sqrt(V), E*omega*sqrt(V) in position space */
static void ref_field(char t, evectmatrix X, int b, int mu, cx *o[3]) { maxwell_data *d = mdata; evectmatrix T = mp_ev(1), Y = mp_ev(1); int i, c; oneband(X, b, T);
  if (t == 'b' || t == 'h') { ref_cart(d, T, 0, o); ref_fft(d, o, 1); if (t == 'h' && mu) ref_mul(d, o, d->mu_inv); }
  else { if (mu) ref_muinv(d, T, Y); else evectmatrix_copy(Y, T); ref_curl(d, Y, 0, o); ref_fft(d, o, 1); if (t == 'e') ref_mul(d, o, d->eps_inv); for (c = 0; c < 3; c++) for (i = 0; i < Npt(); i++) o[c][i] = cxs(-1, o[c][i]); }
  destroy_evectmatrix(T); destroy_evectmatrix(Y); }
static void chk(cx *o[3], double f, const char *w, int b) { maxwell_data *d = mdata; int x, y, z, c; double s = f * sqrt(Vol); for (x = 0; x < d->nx; x++) for (y = 0; y < d->ny; y++) for (z = 0; z < d->nz; z++) { int cj, q = mx_pidx(d, x, y, z, &cj), i = (x * d->ny + y) * d->nz + z; if (cj) continue; for (c = 0; c < 3; c++) { sr_checkf_eq(curfield[3 * q + c].re * s, o[c][i].re, "%s re point %d comp %d band %d", w, i, c, b); sr_checkf_eq(curfield[3 * q + c].im * s, o[c][i].im, "%s im point %d comp %d band %d", w, i, c, b); } } }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), block = A(v, 5), lat = A(v, 6), mu = A(v, 7), what = A(v, 8), i, b, c; cx *o[3];
  mps_start(nx, ny, nz, nb, block, lat, mu, what); maxwell_data *d = mdata; ref_alloc(d, o);
  evectmatrix X0 = mp_ev(nb); evectmatrix_copy(X0, H); if (nb > 2) freqs.items[nb - 1] = 0;
  for (b = 0; b < nb; b++) { double w = freqs.items[b]; if (w == 0) w = 1;
    get_hfield(b + 1); sr_check_true("h loaded", curfield_type == 'h' && curfield_band == b + 1); ref_field('h', X0, b, mu, o); chk(o, 1, "H", b);
    get_dfield(b + 1); sr_check_true("d loaded", curfield_type == 'd' && curfield_band == b + 1); ref_field('d', X0, b, mu, o); chk(o, w, "D", b);
    get_efield_from_dfield(); sr_check_true("e loaded", curfield_type == 'e' && curfield_band == b + 1); ref_field('e', X0, b, mu, o); chk(o, w, "E", b);
    get_bfield(b + 1); sr_check_true("b loaded", curfield_type == 'b' && curfield_band == b + 1); ref_field('b', X0, b, mu, o); chk(o, 1, "B", b);
    get_efield_from_dfield(); sr_check_true("E only from D", curfield_type == 'b'); chk(o, 1, "B after refused E", b);
    get_dfield(0); get_hfield(nb + 1); get_bfield(-1); get_hfield(0); get_dfield(nb + 1); sr_check_true("invalid bands refused", curfield_type == 'b' && curfield_band == b + 1); chk(o, 1, "B after refused bands", b); 
    get_efield(b + 1); sr_check_true("e loaded directly", curfield_type == 'e'); ref_field('e', X0, b, mu, o); chk(o, w, "E direct", b); }
  /* divergence: i 2pi (k+G).F, k+G = |k+G| m x n */
  { static const char T[] = "bdhe"; for (c = 0; c < 4; c++) { char t = T[c]; int x, y, z; double S; b = c % nb; if (t == 'b') get_bfield(b + 1); else if (t == 'h') get_hfield(b + 1); else if (t == 'd') get_dfield(b + 1); else get_efield(b + 1);
      ref_field(t, X0, b, mu, o); S = sqrt(Vol) * (t == 'd' || t == 'e' ? (freqs.items[b] == 0 ? 1 : freqs.items[b]) : 1);
      compute_field_divergence(); sr_check_true("divergence is a Bloch scalar", curfield_type == 'C');
      ref_fft(d, o, 0); cx *r = calloc(d->N, sizeof(cx)), *rr[3] = {r, o[1], o[2]};
      for (i = 0; i < d->N; i++) { k_data *k = d->k_plus_G + i; double m[3] = {k->mx, k->my, k->mz}, n[3] = {k->nx, k->ny, k->nz}; cx s = {0, 0}; int e; for (e = 0; e < 3; e++) s = cxa(s, cxs(k->kmag * (m[(e + 1) % 3] * n[(e + 2) % 3] - m[(e + 2) % 3] * n[(e + 1) % 3]), o[e][i])); r[i] = s; }
      mx_dft(d, r, r, 1);
      for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int cj, q = mx_pidx(d, x, y, z, &cj); i = (x * ny + y) * nz + z; if (cj) continue; double f = TWOPI / d->N; sr_checkf_eq(curfield[q].re * S, -f * r[i].im, "div %c re point %d", t, i); sr_checkf_eq(curfield[q].im * S, f * r[i].re, "div %c im point %d", t, i); if (t == 'b' || t == 'd') { sr_checkf_eq(curfield[q].re, 0, "div %c zero re point %d", t, i); sr_checkf_eq(curfield[q].im, 0, "div %c zero im point %d", t, i); } } (void)rr; free(r); } }
  mx_check_same(H, X0, "eigenvectors unchanged"); sr_check_true("work matrix restored", W[0].p == W[0].alloc_p);
  sr_reach("end"); return 0; }
