/* phase of a loaded field. args: nx ny nz lat what field
   what: number of free field components (complex: 1 or 2, elsewhere fixed small ones) and position pattern */
#include "mps.h"
#include "mpt.h"
static cx F0[400]; static cx cq(double a, double b) { cx r = {a, b}; return r; }
static void same(cx a, cx b, const char *s, int i) { sr_checkf_eq(a.re, b.re, "%s %d re", s, i); sr_checkf_eq(a.im, b.im, "%s %d im", s, i); }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), lat = A(v, 4), what = A(v, 5), pat = A(v, 6), i, j, b, nb = 3; static const char T[] = "dhbecv";
  mps_start(nx, ny, nz, nb, 2, lat, 0, 0); maxwell_data *d = mdata; int n = 3 * d->fft_output_size;
  get_dfield(2); curfield_type = T[pat % 6]; sr_check_true("band 2 is loaded", curfield_band == 2);
  /* two free components at positions depending on the pattern; the others small and fixed, or zero */
  int p0 = (pat * 5 + 1) % n, p1 = n - 1 - pat % 4; if (p1 == p0) p1 = (p1 + 2) % n;
  for (i = 0; i < n; i++) { curfield[i].re = what & 4 ? nomv(i) * 0.0625 : 0; curfield[i].im = what & 4 ? nomv(i + 9) * 0.0625 : 0; }
  curfield[p0].re = sr_var("ar", 0.75); curfield[p0].im = sr_var("ai", -0.5); if (what & 1) { curfield[p1].re = sr_var("br", 0.5); curfield[p1].im = 0.25; } if (what & 2) { curfield[p1].re = what & 8 ? -0.5 : 0.125; curfield[p1].im = 0.25; }
  for (i = 0; i < n; i++) F0[i] = cq(curfield[i].re, curfield[i].im);
  scalar *H0 = malloc(H.n * H.p * sizeof(scalar)); for (i = 0; i < H.n * H.p; i++) H0[i] = H.data[i];
#ifdef SCALAR_COMPLEX
  cx s = {0, 0}; for (i = 0; i < n; i++) s = cxa(s, cxm(F0[i], F0[i])); double R2 = s.re * s.re + s.im * s.im; sr_assume_gt(R2, 0);
#endif
  fix_field_phase();
  sr_check_true("same field stays loaded", curfield_type == T[pat % 6] && curfield_band == 2);
  cx ph; int r = p0; 
#ifdef SCALAR_COMPLEX
  /* the factor, from the stored band at an entry that is a fixed nonzero number */
  { cx h0 = {SC_RE(H0[1]), SC_IM(H0[1])}, h1 = {SC_RE(H.data[1]), SC_IM(H.data[1])}; double m = h0.re * h0.re + h0.im * h0.im; ph = cxs(1 / m, cxm(h1, cxc(h0))); }
  sr_check_eq("factor has unit modulus", ph.re * ph.re + ph.im * ph.im, 1);
  /* the sum of the squares is made real and positive exactly when the factor squared is conj(sum)/|sum| */
  { cx t = cxm(ph, ph); double R = sqrt(R2); sr_check_eq("sum of squares becomes real and as large as possible (re)", t.re * R, s.re); sr_check_eq("sum of squares becomes real and as large as possible (im)", t.im * R, -s.im); }
#else
  ph = cq(SC_RE(H.data[1]) / SC_RE(H0[1]), 0); sr_check_true("factor is a sign", ph.re == 1 || ph.re == -1); (void)r;
#endif
  for (i = 0; i < n; i++) same(cq(curfield[i].re, curfield[i].im), cxm(F0[i], ph), "field times the factor", i);
  for (i = 0; i < H.n; i++) for (b = 0; b < H.p; b++) { cx h0 = {SC_RE(H0[i * H.p + b]), SC_IM(H0[i * H.p + b])}, h1 = {SC_RE(H.data[i * H.p + b]), SC_IM(H.data[i * H.p + b])}; same(h1, b == 1 ? cxm(h0, ph) : h0, b == 1 ? "stored band times the factor" : "other bands untouched", i * H.p + b); }
  /* sign: the last component whose real part (real minus imaginary, with inversion) is at least half of the largest is positive */
  { double mx = 0; int found = 0; for (i = 0; i < n; i++) { double q = curfield[i].re;
#ifndef SCALAR_COMPLEX
      q = q - curfield[i].im;
#endif
      if (q < 0) q = -q; if (q > mx) mx = q; }
    for (i = n - 1; i >= 0 && !found; i--) { double q = curfield[i].re;
#ifndef SCALAR_COMPLEX
      q = q - curfield[i].im;
#endif
      double aq = q < 0 ? -q : q; if (2 * aq >= mx) { found = 1; sr_check_le("selected component is positive", 0, q); } } sr_check_true("a component is selected", found); }
  (void)j; sr_reach("end"); return 0; }
