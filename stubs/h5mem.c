/* HDF5 stand-in: files, groups, datasets and attributes in memory, with HDF5's rules for selections and names.
   Values keep their symbolic terms; every dataset element counts how often it was written. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "h5mem.h"
typedef long long hid_t; typedef unsigned long long hsize_t; typedef int herr_t;
enum { FREE, FILE_, GROUP, DSET, ATTR, SPACE, TYPE, PROP };
typedef struct { int kind, sel, rank; unsigned long long dims[8], st[8], sd[8], ct[8]; int size, str; h5node *n; } H;
#define MAXH 400
static H T[MAXH]; static int nT = 1;
h5node *h5files[32]; int h5nfiles, h5collective, h5_open;
hid_t H5T_NATIVE_DOUBLE_g = -1, H5T_C_S1_g = -2, H5T_NATIVE_FLOAT_g = -3, H5T_NATIVE_LDOUBLE_g = -4, H5P_CLS_FILE_ACCESS_ID_g = -5, H5P_CLS_FILE_CREATE_ID_g = -6;
static hid_t nh(int kind) { int i; for (i = 1; i < MAXH && T[i].kind; i++) ; if (i == MAXH) sr_fatal("too many HDF5 handles"); memset(&T[i], 0, sizeof(H)); T[i].kind = kind; h5_open++; return i; }
static H *get(hid_t i) { return i > 0 && i < MAXH && T[i].kind ? &T[i] : 0; }
static herr_t rel(hid_t i, int kind) { H *h = get(i); if (!h || h->kind != kind) { sr_check_true("HDF5 object closed is open and of that kind", 0); return -1; } h->kind = 0; h5_open--; return 0; }
herr_t H5open(void) { return 0; } herr_t H5check_version(unsigned a, unsigned b, unsigned c) { return 0; }
typedef herr_t (*efn)(void *); static efn ef; static void *ed; herr_t H5Eget_auto1(efn *f, void **d) { *f = ef; *d = ed; return 0; } herr_t H5Eset_auto1(efn f, void *d) { ef = f; ed = d; return 0; }
static h5node *node(const char *name, int kind) { h5node *n = calloc(1, sizeof *n); n->name = strdup(name); n->kind = kind; return n; }
h5node *h5sub(h5node *p, const char *name) { h5node *c; if (*name == '/') name++; for (c = p->first; c; c = c->next) if (c->kind != ATTR && !strcmp(c->name, name)) return c; return 0; }
h5node *h5attr(h5node *p, const char *name) { h5node *c; for (c = p->first; c; c = c->next) if (c->kind == (p->kind == FILE_ ? DSET : ATTR) && !strcmp(c->name, name)) return c; return 0; }
h5node *h5file(const char *name) { int i; for (i = 0; i < h5nfiles; i++) if (!strcmp(h5files[i]->name, name)) return h5files[i]; return 0; }
static void addn(h5node *p, h5node *c) { h5node **q = &p->first; while (*q) q = &(*q)->next; *q = c; }
static hid_t hn(int kind, h5node *n) { hid_t i = nh(kind); T[i].n = n; return i; }
/* collective == 1: every process creates the file and its contents together; the first creates, the others join */
hid_t H5Fcreate(const char *name, unsigned fl, hid_t a, hid_t b) { h5node *f = h5file(name); if (f && h5collective == 2) return hn(FILE_, f); if (!f) { f = node(name, FILE_); h5files[h5nfiles++] = f; } f->first = 0; return hn(FILE_, f); }
hid_t H5Fopen(const char *name, unsigned fl, hid_t a) { h5node *f = h5file(name); hid_t i; if (!f) return -1; i = hn(FILE_, f); T[i].sel = fl & 1; return i; }
herr_t H5Fclose(hid_t i) { return rel(i, FILE_); }
herr_t H5Fflush(hid_t i, int s) { return get(i) ? 0 : -1; }
hid_t H5Pcreate(hid_t c) { return nh(PROP); } herr_t H5Pclose(hid_t i) { return rel(i, PROP); } herr_t H5Pset_fapl_mpio() { return 0; }
int H5Iget_type(hid_t i) { H *h = get(i); return !h ? -1 : h->kind == FILE_ ? 1 : h->kind == GROUP ? 2 : h->kind == DSET ? 5 : h->kind == ATTR ? 6 : 0; }
static void tyof(hid_t t, int *size, int *str) { H *h; if (t == H5T_NATIVE_DOUBLE_g) { *size = 8; *str = 0; } else if ((h = get(t)) && h->kind == TYPE) { *size = h->size; *str = h->str; } else { sr_fatal("HDF5 type %d", (int)t); } }
hid_t H5Tcopy(hid_t t) { hid_t i = nh(TYPE); T[i].str = t == H5T_C_S1_g; T[i].size = T[i].str ? 1 : 8; return i; } herr_t H5Tset_size(hid_t t, size_t s) { H *h = get(t); if (!h || !s) return -1; h->size = s; return 0; } size_t H5Tget_size(hid_t t) { int s, q; tyof(t, &s, &q); return s; } herr_t H5Tclose(hid_t i) { return rel(i, TYPE); }
hid_t H5Screate(int c) { hid_t i = nh(SPACE); T[i].rank = 0; T[i].sel = 1; return i; }
hid_t H5Screate_simple(int r, const hsize_t *d, const hsize_t *m) { hid_t i; int a; if (r < 0 || r > 8) return -1; i = nh(SPACE); T[i].rank = r; T[i].sel = 1; for (a = 0; a < r; a++) T[i].dims[a] = d[a]; return i; }
hid_t H5Scopy(hid_t s) { H *h = get(s); hid_t i; if (!h || h->kind != SPACE) return -1; i = nh(SPACE); T[i] = T[s]; return i; }
herr_t H5Sclose(hid_t i) { return rel(i, SPACE); }
int H5Sget_simple_extent_ndims(hid_t s) { H *h = get(s); return h && h->kind == SPACE ? h->rank : -1; }
int H5Sget_simple_extent_dims(hid_t s, hsize_t *d, hsize_t *m) { H *h = get(s); int a; if (!h) return -1; for (a = 0; a < h->rank; a++) { if (d) d[a] = h->dims[a]; if (m) m[a] = h->dims[a]; } return h->rank; }
long long H5Sget_simple_extent_npoints(hid_t s) { H *h = get(s); long long n = 1; int a; for (a = 0; a < h->rank; a++) n *= h->dims[a]; return n; }
herr_t H5Sselect_none(hid_t s) { get(s)->sel = 0; return 0; }
herr_t H5Sselect_hyperslab(hid_t s, int op, const hsize_t *st, const hsize_t *sd, const hsize_t *ct, const hsize_t *bl) { H *h = get(s); int a; if (!h) return -1; if (op != 0 || bl) sr_fatal("hyperslab selection not modelled"); for (a = 0; a < h->rank; a++) { if (sd && !sd[a]) return -1; h->st[a] = st[a]; h->sd[a] = sd ? sd[a] : 1; h->ct[a] = ct[a]; } h->sel = 2; return 0; }
/* linear positions of a selection, in order; -1 if it leaves the extent */
static long sel(H *h, long **out) { long n = 1, k, N = 1; int a; long *o; for (a = 0; a < h->rank; a++) { n *= h->sel == 2 ? (long)h->ct[a] : (long)h->dims[a]; N *= h->dims[a]; } if (h->sel == 0) n = 0; o = calloc(n + 1, sizeof(long));
  if (h->sel == 2 && n) for (a = 0; a < h->rank; a++) if (h->st[a] + (h->ct[a] - 1) * h->sd[a] >= h->dims[a]) { free(o); return -1; }
  for (k = 0; k < n; k++) { long r = k, p = 0, m = 1; for (a = h->rank - 1; a >= 0; a--) { long c = h->sel == 2 ? h->ct[a] : h->dims[a], i = r % c; r /= c; p += m * (h->sel == 2 ? (long)h->st[a] + i * (long)h->sd[a] : i); m *= h->dims[a]; } o[k] = p; } *out = o; return n; }
static h5node *mkd(const char *name, hid_t t, hid_t s, int kind) { h5node *n = node(name, kind); H *h = get(s); int a; n->rank = h->rank; n->n = 1; for (a = 0; a < h->rank; a++) { n->dims[a] = h->dims[a]; n->n *= h->dims[a]; } tyof(t, &n->size, &n->str); n->d = n->str ? 0 : calloc(n->n + 1, sizeof(double)); n->cnt = calloc(n->n + 1, sizeof(int)); n->s = n->str ? calloc(n->n * n->size + 1, 1) : 0; return n; }
static int same(h5node *n, hid_t t, hid_t s) { H *h = get(s); int a, z, q; tyof(t, &z, &q); if (n->rank != h->rank || n->size != z || n->str != q) return 0; for (a = 0; a < h->rank; a++) if (n->dims[a] != h->dims[a]) return 0; return 1; }
hid_t H5Dcreate1(hid_t f, const char *name, hid_t t, hid_t s, hid_t p) { H *h = get(f); h5node *n; if (!h || (h->kind != FILE_ && h->kind != GROUP)) return -1; if (h->kind == FILE_ && h->sel) { if (h5file(h->n->name) && 0) return -1; } n = h5sub(h->n, name); if (n && h5collective == 2) { sr_check_true("all processes create the same dataset", same(n, t, s)); return hn(DSET, n); } if (n) return -1; n = mkd(name, t, s, DSET); addn(h->n, n); return hn(DSET, n); }
hid_t H5Dopen1(hid_t f, const char *name) { H *h = get(f); h5node *n; if (!h || !name || !(n = h5sub(h->n, name)) || n->kind != DSET) return -1; return hn(DSET, n); }
herr_t H5Dclose(hid_t i) { return rel(i, DSET); }
hid_t H5Dget_space(hid_t d) { H *h = get(d); hid_t i; int a; if (!h || h->kind != DSET) { sr_check_true("HDF5 dataset is open", 0); sr_done(); } i = nh(SPACE); T[i].rank = h->n->rank; T[i].sel = 1; for (a = 0; a < h->n->rank; a++) T[i].dims[a] = h->n->dims[a]; return i; }
hid_t H5Dget_type(hid_t d) { H *h = get(d); hid_t i; if (!h) return -1; i = nh(TYPE); T[i].str = h->n->str; T[i].size = h->n->size; return i; }
static herr_t io(hid_t d, hid_t t, hid_t ms, hid_t fs, void *buf, int wr) { H *h = get(d), A, B; h5node *n; long *pm, *pf, nm, nf, k; int z, q; if (!h || h->kind != DSET) return -1; n = h->n; tyof(t, &z, &q); if (q != n->str) return -1; if (q) { if (wr) memcpy(n->s, buf, n->n * n->size); else { memcpy(buf, n->s, n->size < z ? n->size : z); } return 0; }
  memset(&A, 0, sizeof A); A.sel = 1; A.rank = n->rank; for (k = 0; k < n->rank; k++) A.dims[k] = n->dims[k]; B = A; if (fs != 0) A = *get(fs); if (ms != 0) B = *get(ms); else if (fs != 0) B = A; nf = sel(&A, &pf); nm = sel(&B, &pm); if (nf < 0 || nm < 0 || nf != nm) { sr_note("HDF5 transfer refused: %ld of the file, %ld of memory", nf, nm); return -1; }
  for (k = 0; k < nf; k++) { double *v = (double *)buf + pm[k]; if (wr) { n->d[pf[k]] = *v; n->cnt[pf[k]]++; } else *v = n->d[pf[k]]; } free(pm); free(pf); return 0; }
herr_t H5Dwrite(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t p, const void *b) { return io(d, t, ms, fs, (void *)b, 1); }
herr_t H5Dread(hid_t d, hid_t t, hid_t ms, hid_t fs, hid_t p, void *b) { return io(d, t, ms, fs, b, 0); }
hid_t H5Acreate1(hid_t f, const char *name, hid_t t, hid_t s, hid_t p) { H *h = get(f); h5node *n; if (!h) return -1; n = h5attr(h->n, name); if (n && h5collective == 2) return hn(ATTR, n); if (n) return -1; n = mkd(name, t, s, ATTR); addn(h->n, n); return hn(ATTR, n); }
hid_t H5Aopen_name(hid_t f, const char *name) { H *h = get(f); h5node *n = h ? h5attr(h->n, name) : 0; return n ? hn(ATTR, n) : -1; }
herr_t H5Aclose(hid_t i) { return rel(i, ATTR); }
hid_t H5Aget_type(hid_t d) { hid_t i = nh(TYPE); T[i].str = get(d)->n->str; T[i].size = get(d)->n->size; return i; }
hid_t H5Aget_space(hid_t d) { H *h = get(d); hid_t i = nh(SPACE); int a; T[i].rank = h->n->rank; T[i].sel = 1; for (a = 0; a < h->n->rank; a++) T[i].dims[a] = h->n->dims[a]; return i; }
herr_t H5Awrite(hid_t d, hid_t t, const void *b) { H *h = get(d); h5node *n = h->n; int z, q, k; tyof(t, &z, &q); if (q) memcpy(n->s, b, z < n->size ? z : n->size); else for (k = 0; k < n->n; k++) n->d[k] = ((const double *)b)[k]; return 0; }
herr_t H5Aread(hid_t d, hid_t t, void *b) { H *h = get(d); h5node *n = h->n; int z, q, k; tyof(t, &z, &q); if (q != n->str) return -1; if (q) memcpy(b, n->s, z < n->size ? z : n->size); else for (k = 0; k < n->n; k++) ((double *)b)[k] = n->d[k]; return 0; }
hid_t H5Gcreate1(hid_t f, const char *name, size_t s) { H *h = get(f); h5node *n; if (!h) return -1; n = h5sub(h->n, name); if (n && h5collective == 2) return hn(GROUP, n); if (n) return -1; n = node(name, GROUP); addn(h->n, n); return hn(GROUP, n); }
hid_t H5Gopen1(hid_t f, const char *name) { H *h = get(f); h5node *n = h ? h5sub(h->n, name) : 0; return n && n->kind == GROUP ? hn(GROUP, n) : -1; }
herr_t H5Gclose(hid_t i) { return rel(i, GROUP); }
herr_t H5Gunlink(hid_t f, const char *name) { H *h = get(f); h5node **q; if (!h) return -1; if (h5collective == 2) return 0; for (q = &h->n->first; *q; q = &(*q)->next) if ((*q)->kind != ATTR && !strcmp((*q)->name, name)) { *q = (*q)->next; return 0; } return -1; }
/* by increasing name, as HDF5 does */
herr_t H5Giterate(hid_t f, const char *name, int *idx, herr_t (*op)(hid_t, const char *, void *), void *d) { H *h = get(f); h5node *c, *best; const char *last = ""; int r; if (!h) return -1; for (;;) { best = 0; for (c = h->n->first; c; c = c->next) if (c->kind != ATTR && strcmp(c->name, last) > 0 && (!best || strcmp(c->name, best->name) < 0)) best = c; if (!best) return 0; r = op(f, best->name, d); if (r) return r; last = best->name; } }
herr_t H5Gget_objinfo(hid_t f, const char *name, unsigned follow, void *info) { H *h = get(f); h5node *n = h ? h5sub(h->n, name) : 0; if (!n) return -1; h5setinfo(info, n->kind == GROUP ? 0 : 1); return 0; }
