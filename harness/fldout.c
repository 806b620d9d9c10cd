/* output of the loaded field to a file. args: nx ny nz lat mu kind which prefix(0/1) parity(0/1)
   kind: a letter of dhbecv, C, DHBR, n, m */
#include "mps.h"
#include "matrixio.h"
#include "h5mem.h"
real mean_medium_from_matrix(const symmetric_matrix *e) { return 2.0 / (e->m00 + e->m11 * 0.5); } /* the eigenvalues are not the matter of this property */
extern void get_epsilon_tensor(int c1, int c2, int imag, int inv);
static int which; static char *pre; static void call(void *p) { output_field_to_file(which, pre); }
static maxwell_data *d; static int nx, ny, nz;
static void mx_off(symmetric_matrix *e, int i) {
#ifdef WITH_HERMITIAN_EPSILON
  CASSIGN_SCALAR(e->m01, 0.0625, 0.125); CASSIGN_SCALAR(e->m02, 0.03125, -0.0625); CASSIGN_SCALAR(e->m12, -0.0625, 0.03125 + 0.0078125 * (i % 3));
#else
  e->m01 = 0.125; e->m02 = -0.0625; e->m12 = 0.03125 + 0.0078125 * (i % 3);
#endif
}
static void full(const char *lab, h5node *D, const double *v, int ri, int conjok, int C, int c, const double *k) { int x, y, z, rank = nz == 1 ? (ny == 1 ? 1 : 2) : 3, a, n[3] = {nx, ny, nz}; sr_checkf_true(D != 0, "%s written", lab); if (!D) return; sr_checkf_true(D->rank == rank, "%s rank", lab); for (a = 0; a < rank && a < D->rank; a++) sr_checkf_true(D->dims[a] == n[a], "%s size", lab); if (D->rank != rank || D->n != nx * ny * nz) return;
  for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int i = (x * ny + y) * nz + z, cj = 0, q = mx_pidx(d, x, y, z, &cj); sr_checkf_true(D->cnt[i] == 1, "%s (%d,%d,%d) written once", lab, x, y, z);
    if (!C) sr_checkf_eq(D->d[i], v[q], "%s at (%d,%d,%d)", lab, x, y, z);
    else { cx f = {v[2 * (q * C + c)], v[2 * (q * C + c) + 1]}; double th = k[0] * x * (1.0 / nx) + k[1] * y * (1.0 / ny) + k[2] * z * (1.0 / nz); cx e = {sr_cos2pi(th), sr_sin2pi(th)}; if (cj) f = cxc(f); f = cxm(f, e); sr_checkf_eq(D->d[i], ri ? f.im : f.re, "%s at (%d,%d,%d)", lab, x, y, z); } } }
int harness_main(int argc, char **v) { int lat = A(v, 4), mu = A(v, 5), i, j, N, c; char kind = v[6][0]; nx = A(v, 1); ny = A(v, 2); nz = A(v, 3); which = A(v, 7); pre = A(v, 8) ? "pre-" : 0; int n[3] = {nx, ny, nz};
  mps_start(nx, ny, nz, 2, 2, lat, mu, 0); d = mdata; if (kind == 'n') for (i = 0; i < d->fft_output_size; i++) { symmetric_matrix *e = d->eps_inv + i; e->m00 = 0.5 + 0.0625 * i; e->m11 = 1 + 0.125 * i; e->m22 = 0.75 + 0.03125 * i; mx_off(e, i); } if (A(v, 9)) set_maxwell_data_parity(d, EVEN_Z_PARITY); kpoint_index = 3;
  double k[3]; for (i = 0; i < 3; i++) { k[i] = n[i] > 1 ? sr_varf(0.11 + 0.17 * i, "k%d", i) : 0; if (n[i] > 1) sr_angle(k[i], n[i]); } for (i = 0; i < 3; i++) { d->current_k[i] = 0; for (j = 0; j < 3; j++) d->current_k[i] += k[j] * G[j][i]; }
  int vec = strchr("dhbecv", kind) != 0, C = vec ? 3 : kind == 'C' ? 1 : 0; double *O; 
  if (kind == 'n') get_epsilon(); else if (kind == 'm') get_mu(); else { get_dfield(2); curfield_type = kind; }
  N = d->fft_output_size; double *cf = (double *)curfield; if (kind != 'n' && kind != 'm') for (i = 0; i < (C ? 2 * C : 1) * N; i++) cf[i] = sr_varf(nomv(i * 3), "f%d", i); if (kind == 'v' || kind == 'R') { k[0] = k[1] = k[2] = 0; }
  O = malloc(sizeof(double) * N * 6); for (i = 0; i < (C ? 2 * C : 1) * N; i++) O[i] = cf[i]; double *tens[2][3][3][2]; if (kind == 'n') { int c1, c2, inv, im; for (inv = 0; inv < 2; inv++) for (c1 = 0; c1 < 3; c1++) for (c2 = c1; c2 < 3; c2++) for (im = 0; im < 2; im++) { get_epsilon_tensor(c1, c2, im, inv); tens[inv][c1][c2][im] = malloc(sizeof(double) * N); for (i = 0; i < N; i++) tens[inv][c1][c2][im][i] = cf[i]; } get_epsilon(); }
  sr_check_true("written", !hx_try(call, 0)); sr_check_true("one file", h5nfiles == 1); sr_check_true("all closed", h5_open == 0); sr_check_true("field given up", !curfield && curfield_type == '-');
  { char nm[200], e[100]; if (kind == 'n') sprintf(e, "epsilon"); else if (kind == 'm') sprintf(e, "mu"); else sprintf(e, strchr("DHBR", kind) ? "%cpwr.k03.b02" : "%c.k03.b02", strchr("DHBR", kind) ? kind + 32 : kind); if (vec && which >= 0) { strcat(e, ".x"); e[strlen(e) - 1] += which; } sprintf(nm, "%s%s%s%s.h5", pre ? pre : "", e, d->parity && kind != 'n' && kind != 'm' ? "." : "", d->parity && kind != 'n' && kind != 'm' ? parity_string(d) : ""); sr_note("file %s", h5files[0]->name); sr_check_true("name of the file", !strcmp(nm, h5files[0]->name)); }
  h5node *F = h5files[0], *q; int nd = 0; for (q = F->first; q; q = q->next) nd++;
  if (C) { int ri, wanted = 0; for (c = 0; c < C; c++) for (ri = 0; ri < 2; ri++) { char nm[4] = "x.r"; nm[0] = C == 1 ? 'c' : 'x' + c; nm[2] = ri ? 'i' : 'r'; q = h5sub(F, nm); if (which < 0 || which == c) { full(nm, q, O, ri, 1, C, c, k); wanted++; } else sr_checkf_true(!q, "%s not written", nm); } sr_check_true("nothing else", nd == wanted + 3);
    q = h5sub(F, "Bloch wavevector"); sr_check_true("wavevector stored", q && q->rank == 1 && q->n == 3); for (i = 0; i < 3; i++) sr_checkf_eq(q->d[i], k[i], "wavevector %d", i); }
  else { full("data", h5sub(F, "data"), O, 0, 0, 0, 0, k); if (kind == 'n') { int c1, c2, inv, im, want = 3; for (inv = 0; inv < 2; inv++) for (c1 = 0; c1 < 3; c1++) for (c2 = c1; c2 < 3; c2++) for (im = 0; im < 2; im++) { char nm[60]; sprintf(nm, "%s.%c%c%s", inv ? "epsilon_inverse" : "epsilon", 'x' + c1, 'x' + c2, im ? ".i" : "");
#ifndef SCALAR_COMPLEX
    if (im) continue;
#endif
#ifndef WITH_HERMITIAN_EPSILON
    if (im) { sr_checkf_true(!h5sub(F, nm), "%s not written", nm); continue; }
#endif
    if (im && c1 == c2) continue; full(nm, h5sub(F, nm), tens[inv][c1][c2][im], 0, 0, 0, 0, k); want++; } sr_check_true("nothing else", nd == want); } else sr_check_true("nothing else", nd == 3); }
  q = h5sub(F, "lattice vectors"); sr_check_true("lattice stored", q && q->rank == 2 && q->n == 9); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) sr_checkf_eq(q->d[3 * i + j], R[i][j], "lattice %d %d", i, j); q = h5sub(F, "description"); sr_check_true("description stored", q && q->str);
  sr_reach("end"); return 0; }
