/* field variables. args: nx ny nz lat test
   0 map over fields, 1 integrals over stored fields, 2 integrals over the loaded field, 3 make/copy/load/types and point queries on field variables */
#include "mps.h"
#include "mpt.h"
#include "field-smob.h"
#include "ctlstub.h"
static int M, ncall; static double px[3];
/* a map that is neither linear nor odd; each argument and component has its own weight */
static cx poly(int n, SCM *a, int comp) { cx s = {0.25 * (comp + 1), 0.5 - comp}, q = {1, 0}; int i, k; for (i = 0; i < n; i++) { ctlval *v = ctl_val(a[i]); int m = v->kind == 'n' ? 1 : v->kind == 'c' ? 2 : v->kind == 'v' ? 3 : 6; for (k = 0; k < m; k++) { cx w = {1 + i + 0.5 * k + 0.25 * comp, (k % 3) - 1 + 0.125 * i}; s = cxa(s, cxs(v->d[k], w)); } q = cxs(v->d[comp % m], q); } s.re = s.re + q.re; return s; }
static int rtype; /* kind of value the user's function returns */
static SCM ret(cx *z) { cvector3 V; cnumber c; if (rtype == 0) return scm_from_double(z[0].re); c.re = z[0].re; c.im = z[0].im; if (rtype == 1) return cnumber2scm(c); V.x = c; V.y.re = z[1].re; V.y.im = z[1].im; V.z.re = z[2].re; V.z.im = z[2].im; return cvector32scm(V); }
static double wf[4] = {1, 0.75, -0.5, 2};
/* integrand g(p, fields) = (w0 + w.p) * poly */
static cx gfun(int n, SCM *a) { cx z = poly(n, a, 1); return z; }
SCM ctl_apply(SCM f, int n, SCM *a) { cx z[3]; int c; ncall++; for (c = 0; c < 3; c++) z[c] = ctl_val(f)->id ? gfun(n, a) : poly(n, a, c); return ret(z); }
extern SCM field2scm(field_smob *);
static field_smob *sm(SCM s) { return assert_field_smob(s); }
static const int TY[3] = {RSCALAR_FIELD_SMOB, CSCALAR_FIELD_SMOB, CVECTOR_FIELD_SMOB};
static const char *TN[3] = {"real", "scalar", "vector"};
static SCM mk(SCM base, int t) { if (t == 1) { char o = curfield_type; SCM s; curfield_type = 'C'; update_curfield_smob(); s = field_make(base); curfield_type = o; update_curfield_smob(); return s; } return t == 0 ? rscalar_field_make(base) : cvector_field_make(base); }
static int nf;
static void fillf(SCM s, int id, int sym) { nf++; field_smob *p = sm(s); int i, n = p->type == RSCALAR_FIELD_SMOB ? 1 : p->type == CSCALAR_FIELD_SMOB ? 2 : 6; double *d = (double *)p->f.rs; for (i = 0; i < n * M; i++) d[i] = sym ? sr_varf(nomv(i + id * 17), "v%d_%d", nf, i) : nomv(i * 3 + id); 
#ifndef SCALAR_COMPLEX
  { int x, y, z, c, q, r, c1, c2; for (x = 0; x < p->nx; x++) for (y = 0; y < p->ny; y++) for (z = 0; z < p->nz; z++) { q = mx_pidx(mdata, x, y, z, &c1); if (c1) continue; r = mx_pidx(mdata, (p->nx - x) % p->nx, (p->ny - y) % p->ny, (p->nz - z) % p->nz, &c2); if (c2) continue; for (c = 0; c < n; c++) { int im = n > 1 && c % 2; if (r > q) d[n * r + c] = im ? -d[n * q + c] : d[n * q + c]; else if (r == q && im) d[n * q + c] = 0; } } }
#endif
}
static SCM item(field_smob *p, int q, int cj) { if (p->type == RSCALAR_FIELD_SMOB) return scm_from_double(p->f.rs[q]); if (p->type == CSCALAR_FIELD_SMOB) { cnumber c = {p->f.cs[q].re, p->f.cs[q].im}; if (cj) c.im = -c.im; return cnumber2scm(c); } { cvector3 V; cnumber *e = (cnumber *)&V; int k; for (k = 0; k < 3; k++) { e[k].re = p->f.cv[3 * q + k].re; e[k].im = cj ? -p->f.cv[3 * q + k].im : p->f.cv[3 * q + k].im; } return cvector32scm(V); } }
static vector3 pos(int x, int y, int z) { int n[3] = {mdata->nx, mdata->ny, mdata->nz}, i[3] = {x, y, z}, c; double s[3] = {geometry_lattice.size.x, geometry_lattice.size.y, geometry_lattice.size.z}, p[3]; for (c = 0; c < 3; c++) p[c] = n[c] == 1 ? 0 : i[c] * s[c] / n[c] - s[c] / 2; return mp_v(p[0], p[1], p[2]); }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), lat = A(v, 4), test = A(v, 5), i, j, t, x, y, z, cj, N = nx * ny * nz, k;
  mps_start(nx, ny, nz, 1, 1, lat, 0, 0); maxwell_data *d = mdata; M = d->fft_output_size; register_field_smobs();
  get_dfield(1); SCM cur = field2scm(update_curfield_smob()); SCM f = ctl_fn(0);
  if (test == 0) { static const int S[9][4] = {{1, 0, 0, 0}, {2, 1, 0, 0}, {2, 2, 2, 0}, {3, 0, 1, 2}, {1, 2, 0, 0}, {1, 1, 0, 0}, {2, 0, 2, 0}, {0, 0, 0, 0}, {3, 2, 2, 2}}; int s, al;
    for (t = 0; t < 3; t++) for (s = 0; s < 9; s++) for (al = 0; al < 2; al++) { /* al: the result replaces one of the arguments */
      SCM src[3], dst = mk(cur, t), a[3]; int n = S[s][0], hit = -1; SCM_list L; for (i = 0; i < n; i++) { src[i] = mk(cur, S[s][i + 1]); fillf(src[i], 1 + i, 1 + i == n); if (S[s][i + 1] == t) hit = i; } if (al && hit < 0) continue; if (al) dst = src[hit]; L.num_items = n; L.items = src; rtype = t; ncall = 0;
      if (n == 1 && S[s][1] == 2) cvector_field_nonblochB(src[0]); else if (n == 1 && S[s][1] == 0) sm(src[0])->type_char = 'D'; char tc0 = sm(dst)->type_char, ts = n ? sm(src[0])->type_char : 0;
      cx (*w)[3] = malloc(M * sizeof *w); for (i = 0; i < M; i++) { for (j = 0; j < n; j++) a[j] = item(sm(src[j]), i, 0); for (k = 0; k < 3; k++) w[i][k] = poly(n, a, k); }
      field_mapLB(dst, f, L); field_smob *p = sm(dst); for (i = 0; i < M; i++) if (t == 0) sr_checkf_eq(p->f.rs[i], w[i][0].re, "map to real %d.%d point %d", s, al, i); else for (k = 0; k < (t == 1 ? 1 : 3); k++) { scalar_complex g = t == 1 ? p->f.cs[i] : p->f.cv[3 * i + k]; sr_checkf_eq(g.re, w[i][k].re, "map to %s %d.%d re point %d.%d", TN[t], s, al, i, k); sr_checkf_eq(g.im, w[i][k].im, "map to %s %d.%d im point %d.%d", TN[t], s, al, i, k); }
      sr_checkf_true(p->type == TY[t], "map keeps the kind %d %d", t, s); sr_checkf_true(p->type_char == (n == 1 && S[s][1] == t ? ts : n > 1 ? "RCc"[t] : tc0), "map's Bloch mark %d %d", t, s); free(w); }
    /* into the loaded field: it stays loaded */
    { SCM e = mk(cur, 2), src[2] = {e, cur}; SCM_list L = {2, src}; fillf(e, 1, 0); SCM a[2]; cx (*w)[3] = malloc(M * sizeof *w); for (i = 0; i < 3 * M; i++) { curfield[i].re = sr_varf(nomv(i), "c%dr", i); curfield[i].im = sr_varf(nomv(i + 40), "c%di", i); } for (i = 0; i < M; i++) { a[0] = item(sm(e), i, 0); a[1] = item(sm(cur), i, 0); for (k = 0; k < 3; k++) w[i][k] = poly(2, a, k); }
      rtype = 2; field_mapLB(cur, f, L); cvector_field_nonblochB(cur); sr_check_true("the loaded field is marked non-Bloch", curfield_type == 'v' && curfield == d->fft_data); for (i = 0; i < M; i++) for (k = 0; k < 3; k++) { sr_checkf_eq(curfield[3 * i + k].re, w[i][k].re, "map onto the loaded field, point %d.%d re", i, k); sr_checkf_eq(curfield[3 * i + k].im, w[i][k].im, "map onto the loaded field, point %d.%d im", i, k); } } }
  if (test == 1) { static const int S[7][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {1, 1, 0, 0}, {1, 2, 0, 0}, {3, 0, 1, 2}, {2, 2, 2, 0}, {2, 1, 1, 0}}; int s; for (s = 0; s < 7; s++) { SCM src[3], a[4]; int n = S[s][0]; SCM_list L = {n, src}; for (i = 0; i < n; i++) { src[i] = mk(cur, S[s][i + 1]); fillf(src[i], 1 + i, i == n - 1); if (S[s][i + 1] == 2 && i % 2) cvector_field_nonblochB(src[i]); }
      cx w = {0, 0}; for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int q = mx_pidx(d, x, y, z, &cj); a[0] = vector32scm(pos(x, y, z)); for (j = 0; j < n; j++) a[j + 1] = item(sm(src[j]), q, cj); w = cxa(w, gfun(n + 1, a)); }
      rtype = 1; ncall = 0; cnumber r = integrate_fieldL(ctl_fn(1), L); sr_checkf_eq(r.re * N, w.re * Vol, "integral over fields %d re", s); sr_checkf_eq(r.im * N, w.im * Vol, "integral over fields %d im", s); sr_checkf_true(ncall == N, "every point once %d", s);
      rtype = 0; r = integrate_fieldL(ctl_fn(1), L); sr_checkf_eq(r.re * N, w.re * Vol, "integral of a real function %d re", s); sr_checkf_eq(r.im, 0, "integral of a real function %d im", s); } }
  if (test == 2) { static const char T[] = "dhebcvDHBR"; int s; double em[256]; static const double W[4][3] = {{0.25, 0.25, 0.5}, {0.125, 0.375, 2}, {0.5, 1.5, 1.5}, {0.75, 0.75, 0.75}};
    for (i = 0; i < M; i++) { mp_known(d->eps_inv + i, i + 1, W[(i * 3 + 1) % 4]); em[i] = 2 / (W[(i * 3 + 1) % 4][0] + W[(i * 3 + 1) % 4][1]); } /* equal at stored partner points: */
#ifndef SCALAR_COMPLEX
    for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int c2, q = mx_pidx(d, x, y, z, &cj), r; if (cj) continue; r = mx_pidx(d, (nx - x) % nx, (ny - y) % ny, (nz - z) % nz, &c2); if (!c2 && r > q) { d->eps_inv[r] = d->eps_inv[q]; em[r] = em[q]; } }
#endif
    SCM e = mk(cur, 2), e0 = mk(cur, 0); fillf(e, 3, 1); fillf(e0, 5, 1); cur_kvector = mp_v(sr_var("kx", 0.2), 0.5, -0.5); sr_angle(cur_kvector.x, 48);
    for (s = 0; T[s]; s++) { int sc = T[s] < 'a'; SCM a[3]; if (sc) memcpy(curfield, sm(e0)->f.rs, M * sizeof(real)); else memcpy(curfield, sm(e)->f.cv, 3 * M * sizeof(scalar_complex)); curfield_type = T[s];
      cx w = {0, 0}; for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int q = mx_pidx(d, x, y, z, &cj); vector3 p = pos(x, y, z); a[1] = scm_from_double(em[q]); a[2] = vector32scm(p); if (sc) a[0] = scm_from_double(((real *)curfield)[q]); else { double ph = cur_kvector.x * p.x / geometry_lattice.size.x + cur_kvector.y * p.y / geometry_lattice.size.y + cur_kvector.z * p.z / geometry_lattice.size.z; cx P = {1, 0}; if (T[s] != 'v') { P.re = sr_cos2pi(ph); P.im = sr_sin2pi(ph); } cvector3 V; cnumber *u = (cnumber *)&V; for (k = 0; k < 3; k++) { cx F = {curfield[3 * q + k].re, cj ? -curfield[3 * q + k].im : curfield[3 * q + k].im}; F = cxm(F, P); u[k].re = F.re; u[k].im = F.im; } a[0] = cvector32scm(V); }
        w = cxa(w, gfun(3, a)); }
      rtype = sc ? 0 : 1; ncall = 0; cnumber r = compute_field_integral(ctl_fn(1)); sr_checkf_eq(r.re * N, w.re * Vol, "integral of %c re", T[s]); sr_checkf_eq(r.im * N, sc ? 0 : w.im * Vol, "integral of %c im", T[s]); sr_checkf_true(ncall == N, "every point once %c", T[s]);
      if (sc) sr_checkf_eq(compute_energy_integral(ctl_fn(1)) * N, w.re * Vol, "energy integral of %c", T[s]); else sr_checkf_eq(compute_energy_integral(ctl_fn(1)), 0, "energy integral refused for %c", T[s]); } }
  if (test == 3) { static const char T[] = "dhebcvDHBnRCm"; int s; for (s = 0; T[s]; s++) { t = strchr("DHBnRm", T[s]) ? 0 : T[s] == 'C' ? 1 : 2; int n = t == 0 ? 1 : t == 1 ? 2 : 6; curfield = d->fft_data; curfield_type = T[s]; for (i = 0; i < n * M; i++) ((double *)curfield)[i] = sr_varf(nomv(i + 100 * s), "w%c%d", T[s], i);
      field_smob *c = update_curfield_smob(); sr_checkf_true(c && c->type == TY[t] && c->type_char == T[s] && c->f.rs == (real *)curfield && c->N == M, "the loaded field %c can be used as a field", T[s]); if (!c) continue;
      SCM cp = field_make(cur); field_smob *p = sm(cp); sr_checkf_true(p != c && p->f.rs != c->f.rs && p->type == TY[t] && p->N == M && fields_conformp(cp, cur), "a new field like %c", T[s]); for (i = 0; i < n * M; i++) sr_checkf_eq(p->f.rs[i], 0, "new field is zero %c %d", T[s], i);
      field_setB(cp, cur); for (i = 0; i < n * M; i++) sr_checkf_eq(p->f.rs[i], ((double *)curfield)[i], "copy of %c value %d", T[s], i); sr_checkf_true(p->type_char == T[s] && curfield_type == T[s], "copy keeps the type %c", T[s]);
      /* another field is loaded, then the copy is loaded again */
      double *old = malloc(n * M * sizeof(double)); memcpy(old, curfield, n * M * sizeof(double)); get_efield(1); field_load(cp); sr_checkf_true(curfield_type == T[s] && curfield == d->fft_data, "loaded again %c", T[s]); for (i = 0; i < n * M; i++) { sr_checkf_eq(((double *)curfield)[i], old[i], "loaded value of %c %d", T[s], i); sr_checkf_eq(p->f.rs[i], old[i], "the variable keeps its values %c %d", T[s], i); } 
      /* with nothing loaded */ curfield_reset(); field_load(cp); sr_checkf_true(curfield_type == T[s] && curfield, "loaded with nothing before %c", T[s]); for (i = 0; curfield && i < n * M; i++) sr_checkf_eq(((double *)curfield)[i], old[i], "loaded afresh %c %d", T[s], i); free(old); }
    get_dfield(1); update_curfield_smob(); for (t = 0; t < 3; t++) { SCM a = mk(cur, t); field_smob *p = sm(a); for (i = 0; i < (t == 0 ? 1 : t == 1 ? 2 : 6) * M; i++) sr_checkf_eq(p->f.rs[i], 0, "made field %d is zero %d", t, i); sr_checkf_true(p->type == TY[t] && p->type_char == "RCc"[t] && p->N == M, "made field %d", t); } }
  sr_reach("end"); return 0; }
