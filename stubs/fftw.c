/* Contract stub for FFTW3: the exact (unnormalised) DFT over the plan's layout. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <fftw3.h>
#include "sym.h"
#define PLANMAGIC 0x5157
typedef struct { int magic, kind, rank, n[3], howmany, istride, idist, ostride, odist, sign; int inemb[3], onemb[3]; int destroyed; } plan_t;
enum { C2C, C2R, R2C };
int fftw_stub_live = 0, fftw_stub_created = 0;
static void root(int n, int j, double *c, double *s) {
  j = ((j % n) + n) % n;
  int k = 24 * j / n; double sg_c = 1, sg_s = 1, q;
  if (24 * j % n) { *c = sr_cos2pi(j * (1.0 / n)); *s = sr_sin2pi(j * (1.0 / n)); return; }
  if (k > 12) { k = 24 - k; sg_s = -1; }
  if (k > 6) { k = 12 - k; sg_c = -1; }
  switch (k) {
    case 0: *c = 1; *s = 0; break;
    case 6: *c = 0; *s = 1; break;
    case 3: q = sr_sqrt_of(2.0); *c = q * 0.5; *s = q * 0.5; break;
    case 4: q = sr_sqrt_of(3.0); *c = 0.5; *s = q * 0.5; break;
    case 2: q = sr_sqrt_of(3.0); *c = q * 0.5; *s = 0.5; break;
    default: *c = sr_cos2pi(k * (1.0 / 24)); *s = sr_sin2pi(k * (1.0 / 24));
  }
  *c *= sg_c; *s *= sg_s;
}
static plan_t *mk(int kind, int rank, const int *n, int howmany, const int *inembed, int istride, int idist, const int *onembed, int ostride, int odist, int sign) {
  plan_t *p = calloc(1, sizeof *p); int i;
  p->magic = PLANMAGIC; p->kind = kind; p->rank = rank; p->howmany = howmany; p->istride = istride; p->idist = idist; p->ostride = ostride; p->odist = odist; p->sign = sign;
  for (i = 0; i < 3; i++) p->n[i] = i < rank ? n[i] : 1;
  for (i = 0; i < rank; i++) {
    int in = n[i], on = n[i];
    if (i == rank - 1 && kind == C2R) in = n[i] / 2 + 1;
    if (i == rank - 1 && kind == R2C) on = n[i] / 2 + 1;
    p->inemb[i] = inembed ? inembed[i] : in; p->onemb[i] = onembed ? onembed[i] : on;
  }
  for (; i < 3; i++) p->inemb[i] = p->onemb[i] = 1;
  fftw_stub_live++; fftw_stub_created++;
  return p;
}
static void dft_dim(double *re, double *im, int N, int n, int stride, int sign) {
  /* along one dimension of a dense array */
  double *tr = malloc(sizeof(double) * n), *ti = malloc(sizeof(double) * n); int b, k, j;
  if (n > 1)
    for (b = 0; b < N; b++) {
      if ((b / stride) % n) continue;
      for (k = 0; k < n; k++) {
        double ar = 0, ai = 0;
        for (j = 0; j < n; j++) { double c, s; root(n, k * j, &c, &s); s *= sign; ar += re[b + j * stride] * c - im[b + j * stride] * s; ai += re[b + j * stride] * s + im[b + j * stride] * c; }
        tr[k] = ar; ti[k] = ai;
      }
      for (k = 0; k < n; k++) { re[b + k * stride] = tr[k]; im[b + k * stride] = ti[k]; }
    }
  free(tr); free(ti);
}
static void exec(plan_t *p, double *in, double *out) {
  if (p->magic != PLANMAGIC) sr_fatal("fftw plan invalid");
  if (p->destroyed) sr_check_true("FFT plan used after destruction", 0);
  int n0 = p->n[0], n1 = p->n[1], n2 = p->n[2], N = n0 * n1 * n2, h, x, y, z, last = p->n[p->rank - 1];
  double *re = malloc(sizeof(double) * N * p->howmany), *im = malloc(sizeof(double) * N * p->howmany);
  int cin = p->kind != R2C, cout = p->kind != C2R;
  for (h = 0; h < p->howmany; h++) { double *R = re + h * N, *I = im + h * N;
    for (x = 0; x < n0; x++) for (y = 0; y < n1; y++) for (z = 0; z < n2; z++) {
      int xs = x, ys = y, zs = z, conj = 0, i; int *l = p->rank == 1 ? &xs : p->rank == 2 ? &ys : &zs;
      if (p->kind == C2R && *l >= last / 2 + 1) { conj = 1; xs = (n0 - x) % n0; ys = (n1 - y) % n1; zs = (n2 - z) % n2; }
      i = ((xs * p->inemb[1] + ys) * p->inemb[2] + zs) * p->istride + h * p->idist;
      int t = (x * n1 + y) * n2 + z;
      if (cin) { R[t] = in[2 * i]; I[t] = conj ? -in[2 * i + 1] : in[2 * i + 1]; } else { R[t] = in[i]; I[t] = 0; }
    }
    dft_dim(R, I, N, n2, 1, p->sign); dft_dim(R, I, N, n1, n2, p->sign); dft_dim(R, I, N, n0, n1 * n2, p->sign);
  }
  for (h = 0; h < p->howmany; h++) { double *R = re + h * N, *I = im + h * N;
    for (x = 0; x < n0; x++) for (y = 0; y < n1; y++) for (z = 0; z < n2; z++) {
      int l = p->rank == 1 ? x : p->rank == 2 ? y : z, i = ((x * p->onemb[1] + y) * p->onemb[2] + z) * p->ostride + h * p->odist, t = (x * n1 + y) * n2 + z;
      if (p->kind == R2C && l >= last / 2 + 1) continue;
      if (cout) { out[2 * i] = R[t]; out[2 * i + 1] = I[t]; } else out[i] = R[t];
    } }
  free(re); free(im);
}
fftw_plan fftw_plan_many_dft(int rank, const int *n, int howmany, fftw_complex *in, const int *inembed, int istride, int idist, fftw_complex *out, const int *onembed, int ostride, int odist, int sign, unsigned flags) { return (fftw_plan)mk(C2C, rank, n, howmany, inembed, istride, idist, onembed, ostride, odist, sign); }
fftw_plan fftw_plan_many_dft_c2r(int rank, const int *n, int howmany, fftw_complex *in, const int *inembed, int istride, int idist, double *out, const int *onembed, int ostride, int odist, unsigned flags) { return (fftw_plan)mk(C2R, rank, n, howmany, inembed, istride, idist, onembed, ostride, odist, FFTW_BACKWARD); }
fftw_plan fftw_plan_many_dft_r2c(int rank, const int *n, int howmany, double *in, const int *inembed, int istride, int idist, fftw_complex *out, const int *onembed, int ostride, int odist, unsigned flags) { return (fftw_plan)mk(R2C, rank, n, howmany, inembed, istride, idist, onembed, ostride, odist, FFTW_FORWARD); }
void fftw_execute_dft(const fftw_plan p, fftw_complex *in, fftw_complex *out) { exec((plan_t *)p, (double *)in, (double *)out); }
void fftw_execute_dft_r2c(const fftw_plan p, double *in, fftw_complex *out) { exec((plan_t *)p, in, (double *)out); }
void fftw_execute_dft_c2r(const fftw_plan p, fftw_complex *in, double *out) { exec((plan_t *)p, (double *)in, out); }
void fftw_destroy_plan(fftw_plan p) { plan_t *q = (plan_t *)p; if (q->destroyed) sr_check_true("FFT plan destroyed twice", 0); q->destroyed = 1; fftw_stub_live--; }
void *fftw_malloc(size_t n) { return sr_malloc(n); }
void fftw_free(void *p) { free(p); }
