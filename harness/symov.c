/* overlap of a band with its image under {W|w}. args: nx ny nz lat mu field(0 b,1 d) W w kmode sym(0 field arbitrary, 1 k arbitrary, 2 translation along x arbitrary)
   mode by nx<0: refusals and the per-band list */
#include "mps.h"
static cx *G_; static cx gv(int x, int y, int z, int c) { int n[3] = {mdata->nx, mdata->ny, mdata->nz}; x = ((x % n[0]) + n[0]) % n[0]; y = ((y % n[1]) + n[1]) % n[1]; z = ((z % n[2]) + n[2]) % n[2]; return G_[((x * n[1] + y) * n[2] + z) * 3 + c]; }
static cx interp(const double t[3], int c) { int f[3], a, o[3]; double w[3]; cx s = {0, 0}; for (a = 0; a < 3; a++) { f[a] = (int)floor(t[a]); w[a] = t[a] - f[a]; }
  for (o[0] = 0; o[0] < 2; o[0]++) for (o[1] = 0; o[1] < 2; o[1]++) for (o[2] = 0; o[2] < 2; o[2]++) { double g = 1; for (a = 0; a < 3; a++) g = g * (o[a] ? w[a] : 1 - w[a]); if (g != 0) s = cxa(s, cxs(g, gv(f[0] + o[0], f[1] + o[1], f[2] + o[2], c))); } return s; }
static const int WL[][3][3] = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}, {{-1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, -1, 0}, {1, 0, 0}, {0, 0, 1}}, {{0, 1, 0}, {1, 0, 0}, {0, 0, -1}}, {{1, 1, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}, {{1, 0, 0}, {0, 1, 0}, {0, 0, -1}}, {{0, -1, 0}, {1, 0, 0}, {0, 0, -1}}};
/* translations in units of the cell */
static const double TL[][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 2, 0}, {0.5, 0, 0}, {0, 0.5, 0.5}, {0.25, 0.125, 0}, {0.5, 1, -1}};
static cnumber out; static matrix3x3 Wm; static vector3 wv; static int band; static void call(void *p) { out = band ? compute_symmetry(band, Wm, wv) : transformed_overlap(Wm, wv); }
static double wx; static int wsym; static double tl(int it, int i) { return wsym && i == 0 ? wx : TL[it][i]; }
static void setW(int iw, int it) { double *m = (double *)&Wm; int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) m[3 * j + i] = WL[iw][i][j]; double *s = (double *)&geometry_lattice.size; for (i = 0; i < 3; i++) ((double *)&wv)[i] = tl(it, i) * (s[i] < 1e-10 ? 0 : s[i]); }
static cx oracle(int iw, int it, int type) { maxwell_data *d = mdata; int n[3] = {d->nx, d->ny, d->nz}, x, y, z, i, j, k, cj; double *s = (double *)&geometry_lattice.size, *B[3] = {(double *)&geometry_lattice.basis.c0, (double *)&geometry_lattice.basis.c1, (double *)&geometry_lattice.basis.c2}; const int (*w)[3] = WL[iw];
  int det = w[0][0] * (w[1][1] * w[2][2] - w[1][2] * w[2][1]) - w[0][1] * (w[1][0] * w[2][2] - w[1][2] * w[2][0]) + w[0][2] * (w[1][0] * w[2][1] - w[1][1] * w[2][0]); cx I = {0, 0};
  /* Cartesian form: rows of the inverse of the basis */ matrix3x3 Bi = matrix3x3_inverse(geometry_lattice.basis); double *bi = (double *)&Bi, Wc[3][3]; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { Wc[i][j] = 0; int a, b; for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) Wc[i][j] += B[a][i] * w[a][b] * bi[3 * j + b]; }
  for (x = 0; x < n[0]; x++) for (y = 0; y < n[1]; y++) for (z = 0; z < n[2]; z++) { int q[3] = {x, y, z}; double p[3], u[3], t[3], f = 0; for (i = 0; i < 3; i++) p[i] = n[i] > 1 ? s[i] * ((double)q[i] / n[i] - 0.5) : 0;
    for (i = 0; i < 3; i++) u[i] = p[i] - ((double *)&wv)[i];
    /* inverse of the integer matrix by cofactors */ double pt[3]; for (i = 0; i < 3; i++) { pt[i] = 0; for (j = 0; j < 3; j++) { int r1 = (j + 1) % 3, r2 = (j + 2) % 3, c1 = (i + 1) % 3, c2 = (i + 2) % 3; pt[i] += det * (w[r1][c1] * w[r2][c2] - w[r1][c2] * w[r2][c1]) * u[j]; } }
    for (i = 0; i < 3; i++) { t[i] = s[i] < 1e-10 ? 0.5 : (pt[i] / s[i] + 0.5) * n[i]; if (s[i] > 1e-10) f += ((double *)&cur_kvector)[i] * (pt[i] - p[i]) / s[i]; }
    cx ph = {sr_cos2pi(f), sr_sin2pi(f)}, g = {0, 0}, F[3], D[3], M[3][3]; symmetric_matrix *T = type == 'd' ? d->eps_inv : d->mu_inv; for (i = 0; i < 3; i++) { F[i] = gv(x, y, z, i); D[i] = interp(t, i); } if (T) mx_sq3(M, d, T, x, y, z); (void)cj; (void)k;
    for (i = 0; i < 3; i++) { cx a = F[i], b = {0, 0}; if (T) { a.re = a.im = 0; for (j = 0; j < 3; j++) a = cxa(a, cxm(M[i][j], F[j])); } for (j = 0; j < 3; j++) b = cxa(b, cxs(Wc[i][j], D[j])); g = cxa(g, cxm(cxc(a), b)); }
    I = cxa(I, cxm(g, ph)); }
  return cxs(Vol / (n[0] * n[1] * n[2]) * (type == 'b' ? det : 1), I); }
static void grab(void) { int N = 3 * mdata->fft_output_size, i; G_ = calloc(N, sizeof(cx)); for (i = 0; i < N; i++) { G_[i].re = curfield[i].re; G_[i].im = curfield[i].im; } }
int harness_main(int argc, char **v) { int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), lat = A(v, 4), mu = A(v, 5), ty = A(v, 6), iw = A(v, 7), it = A(v, 8), km = A(v, 9), sym = A(v, 10), i, b; int list = nx < 0; if (list) nx = -nx;
  mps_start(nx, ny, nz, list ? 2 : 1, list ? 2 : 1, lat, mu, 0);
  static const double K[4][3] = {{0, 0, 0}, {0.5, -0.5, 0.5}, {1, -2, 1}, {2. / 3, -4. / 3, 2. / 3}}; cur_kvector = mp_v(K[km][0], ny > 1 ? K[km][1] : 0, nz > 1 ? K[km][2] : 0); if (sym == 1) { cur_kvector.x = sr_var("kx", 0.2); sr_angle(cur_kvector.x, 16); }
  if (sym == 2) { wx = sr_var("wx", 0.3); sr_assume_ge(wx, -1); sr_assume_ge(2, wx); sr_angle(wx, 24); wsym = 1; }
  if (!list) { if (ty) get_dfield(1); else get_bfield(1); int ct = curfield_type, N = 3 * mdata->fft_output_size; if (sym == 0) for (i = 0; i < N; i++) { curfield[i].re = sr_varf(nomv(i * 7), "f%dr", i); curfield[i].im = sr_varf(nomv(i * 7 + 900), "f%di", i); } 
    grab(); setW(iw, it); band = 0; sr_check_true("accepted", !hx_try(call, 0)); cx w = oracle(iw, it, ct); sr_check_eq("overlap re", out.re, w.re); sr_check_eq("overlap im", out.im, w.im);
    if (!wsym && iw == 0 && (it < 3 || it == 6) && it != 6) { /* a lattice translation: norm times the Bloch phase */ double nrm = 0, f = 0; int it0 = it; for (i = 0; i < 3; i++) { double sz = ((double *)&geometry_lattice.size)[i]; f -= ((double *)&cur_kvector)[i] * (sz < 1e-10 ? 0 : TL[it0][i]); } setW(0, 0); cx z = oracle(0, 0, ct); nrm = z.re; sr_check_eq("translation re", out.re, nrm * sr_cos2pi(f)); sr_check_eq("translation im", out.im, nrm * sr_sin2pi(f)); sr_check_eq("norm is real", z.im, 0); }
    for (i = 0; i < N; i++) { sr_checkf_eq(curfield[i].re, G_[i].re, "field unchanged %d", i); sr_checkf_eq(curfield[i].im, G_[i].im, "field unchanged im %d", i); } sr_check_true("field kind unchanged", curfield_type == ct); }
  else { cx want[2]; mx_fill_const(H, 3); H.data[1].re = sr_var("h1", 0.5); H.data[H.p + 0].im = sr_var("h0", -0.25); setW(iw, it); for (b = 0; b < 2; b++) { get_bfield(b + 1); grab(); want[b] = oracle(iw, it, 'b'); }
    for (b = 0; b < 2; b++) { band = b + 1; sr_checkf_true(!hx_try(call, 0), "band %d accepted", b); sr_checkf_eq(out.re, want[b].re, "band %d re", b); sr_checkf_eq(out.im, want[b].im, "band %d im", b); }
    get_dfield(1); cnumber_list l = compute_symmetries(Wm, wv); sr_check_true("one value for each band", l.num_items == 2); for (b = 0; b < 2; b++) { sr_checkf_eq(l.items[b].re, want[b].re, "list, band %d re", b); sr_checkf_eq(l.items[b].im, want[b].im, "list, band %d im", b); }
    /* refusals: nothing is computed */ band = 0; get_bfield(1); { static const char T[] = "ehRpD-vC"; for (i = 0; T[i]; i++) { curfield_type = T[i]; sr_checkf_true(!hx_try(call, 0) && out.re == 0 && out.im == 0, "field of kind %c refused", T[i]); } } get_bfield(1); int sd = sr_choose("side", 0, 2); double a = sr_var("a", sd == 0 ? 1.25 : sd == 1 ? 0.5 : -2); if (sd == 0) sr_assume_gt(a, 1.001); else if (sd == 1) { sr_assume_gt(0.999, a); sr_assume_gt(a, -0.999); } else sr_assume_gt(-1.001, a); Wm.c0.x = Wm.c0.x * a; sr_check_true("no stop", !hx_try(call, 0)); sr_check_eq("determinant refused re", out.re, 0); sr_check_eq("determinant refused im", out.im, 0); }
  sr_reach("end"); return 0; }
