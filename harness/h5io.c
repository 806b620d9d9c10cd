/* array files: round trips, attributes, saved vectors, refusals. args: mode ... */
#include <math.h>
#include "hx.h"
#include "config.h"
#include <matrices.h>
#include "matrixio.h"
#include "h5mem.h"
#define A(v, i) atoi((v)[i])
typedef struct { matrixio_id id; const char *name; int rank, dims[4], l0, s0, st; real *data, *res; matrixio_id out; } rd; static rd Q;
static void doread(void *p) { Q.res = matrixio_read_real_data(Q.id, Q.name, &Q.rank, Q.dims, Q.l0, Q.s0, Q.st, Q.data); }
static void doopen(void *p) { Q.out = matrixio_open_dataset(Q.id, Q.name, Q.rank, Q.dims); }
static void dofile(void *p) { Q.out = matrixio_open(Q.name, 1); }
static evectmatrix E_; static void dowr(void *p) { evectmatrixio_writeall_raw("vec.h5", E_); } static void dord(void *p) { evectmatrixio_readall_raw("vec", E_); }
static int prod(int r, const int *d) { int a, n = 1; for (a = 0; a < r; a++) n *= d[a]; return n; }
#define REF(l) sr_check_true(l, hx_try(doread, 0))
int harness_main(int argc, char **v) { int mode = A(v, 1), a, i, j, k;
  if (mode == 0) { /* rank d0 d1 d2 axis cut stride lo n: written in two parts along an axis; read back whole, and by a slab of the first dimension */
    int rank = A(v, 2), d[3] = {A(v, 3), A(v, 4), A(v, 5)}, ax = A(v, 6), cut = A(v, 7), st = A(v, 8), lo = A(v, 9), n0 = A(v, 10), N = prod(rank, d), part; double *val = malloc(sizeof(double) * N); for (i = 0; i < N; i++) val[i] = sr_varf(0.3 * i - 1, "v%d", i);
    matrixio_id f = matrixio_create("t"), ds = matrixio_create_dataset(f, "data", "some words", rank, d);
    for (part = 0; part < 2; part++) { int ld[3] = {d[0], d[1], d[2]}, s[3] = {0, 0, 0}, n, c[3]; if (part == 0) ld[ax] = cut; else { ld[ax] = d[ax] - cut; s[ax] = cut; } n = prod(rank, ld); double *b = calloc(n * st + 1, sizeof(double)); for (i = 0; i < n * st; i++) b[i] = 1000 + i; for (i = 0; i < n; i++) { int r = i, p = 0; for (a = rank - 1; a >= 0; a--) { c[a] = r % ld[a] + s[a]; r /= ld[a]; } for (a = 0; a < rank; a++) p = p * d[a] + c[a]; b[i * st] = val[p]; } matrixio_write_real_data(ds, ld, s, st, b); for (i = 0; i < n * st; i++) if (i % st) sr_checkf_eq(b[i], 1000 + i, "source untouched %d", i); }
    h5node *D = h5sub(h5file("t.h5"), "data"); sr_check_true("shape of the dataset", D->rank == rank && D->n == N); for (i = 0; i < N; i++) { sr_checkf_true(D->cnt[i] == 1, "element %d written once", i); sr_checkf_eq(D->d[i], val[i], "stored %d", i); }
    char *w = matrixio_read_string_attr(ds, "description"); sr_check_true("description", w && !strcmp(w, "some words"));
    matrixio_close_dataset(ds); matrixio_close(f); sr_check_true("everything closed", h5_open == 0);
    f = matrixio_open("t.h5", 1); sr_check_true("exists", matrixio_dataset_exists(f, "data") && !matrixio_dataset_exists(f, "dat")); Q.id = f; Q.name = "data"; Q.rank = 3; Q.data = 0; sr_check_true("no stop", !hx_try(doread, 0)); sr_check_true("shape read", Q.res && Q.rank == rank); for (a = 0; a < rank; a++) sr_check_true("dim read", Q.dims[a] == d[a]); for (i = 0; i < N; i++) sr_checkf_eq(Q.res[i], val[i], "read %d", i);
    Q.name = 0; Q.rank = 4; Q.res = 0; hx_try(doread, 0); sr_check_true("the first dataset is read without a name", Q.res != 0); if (Q.res) for (i = 0; i < N; i++) sr_checkf_eq(Q.res[i], val[i], "read unnamed %d", i);
    { int M = N / d[0] * n0 * st; double *b = malloc(sizeof(double) * (M + 4)); for (i = 0; i < M + 4; i++) b[i] = -5 - i; Q.name = "data"; Q.rank = rank; for (a = 0; a < rank; a++) Q.dims[a] = d[a]; Q.l0 = n0; Q.s0 = lo; Q.st = st; Q.data = b; sr_check_true("no stop 2", !hx_try(doread, 0)); sr_check_true("returns the buffer", Q.res == b); for (i = 0; i < M + 4; i++) sr_checkf_eq(b[i], i < M && i % st == 0 ? val[lo * (N / d[0]) + i / st] : -5 - i, "slab %d", i);
      /* refusals */ Q.name = "dat"; Q.res = b; sr_check_true("no stop 3", !hx_try(doread, 0)); sr_check_true("missing dataset", Q.res == 0); Q.name = "data"; for (a = 0; a < rank; a++) { Q.dims[a]++; REF("larger refused"); Q.dims[a] -= 2; REF("smaller refused"); Q.dims[a]++; } Q.rank = rank + 1; Q.dims[rank] = 1; REF("rank refused"); if (rank > 1) { Q.rank = rank - 1; REF("lower rank refused"); Q.data = 0; REF("too many dimensions refused"); } for (i = 0; i < M + 4; i++) sr_checkf_eq(b[i], i < M && i % st == 0 ? val[lo * (N / d[0]) + i / st] : -5 - i, "after refusals %d", i); Q.rank = 0; REF("rank 0 refused");
      Q.rank = rank; sr_check_true("same shape opens", !hx_try(doopen, 0)); Q.dims[rank - 1]++; sr_check_true("other shape does not open", hx_try(doopen, 0)); Q.rank = rank + 1; sr_check_true("other rank does not open", hx_try(doopen, 0)); Q.name = "nofile"; sr_check_true("missing file refused", hx_try(dofile, 0)); } }
  else if (mode == 1) { /* attributes: rank d0 d1 onfile */
    int rank = A(v, 2), d[2] = {A(v, 3), A(v, 4)}, onf = A(v, 5), one = 3, N = prod(rank, d), r = -7, q[3] = {0, 0, 0}; double *val = malloc(sizeof(double) * N), *g; for (i = 0; i < N; i++) val[i] = sr_varf(i + 0.5, "v%d", i); matrixio_id f = matrixio_create("a.h5"), ds = matrixio_create_dataset(f, "x", 0, 1, &one), t = onf ? f : ds; sr_check_true("file name keeps its suffix", h5file("a.h5") && h5nfiles == 1);
    matrixio_write_data_attr(t, "first", val, rank, d); matrixio_write_string_attr(t, "second", "ab c"); matrixio_write_string_attr(t, "empty", ""); matrixio_write_data_attr(t, "none", 0, rank, d); matrixio_write_data_attr(t, "", val, rank, d);
    g = matrixio_read_data_attr(t, "first", &r, rank, q); sr_check_true("attribute read", g && r == rank); for (a = 0; a < rank; a++) sr_check_true("attribute shape", q[a] == d[a]); if (g) for (i = 0; i < N; i++) sr_checkf_eq(g[i], val[i], "attribute %d", i); if (rank) sr_check_true("too many dimensions", !matrixio_read_data_attr(t, "first", &r, rank - 1, q));
    char *s = matrixio_read_string_attr(t, "second"); { h5node *q2 = h5attr(onf ? h5file("a.h5") : h5sub(h5file("a.h5"), "x"), "second"); sr_check_true("string with its end", q2 && q2->str && q2->size == 5 && !memcmp(q2->s, "ab c", 5)); } sr_check_true("string", s && !memcmp(s, "ab c", 5)); { matrixio_id o = matrixio_create_serial("p.h5x"); sr_check_true("suffix added at the end only", h5file("p.h5x.h5") != 0); matrixio_close(o); o = matrixio_open_serial("p.h5x.h5", 0); matrixio_close(o); } sr_check_true("not created", !matrixio_read_string_attr(t, "empty") && !matrixio_read_data_attr(t, "none", &r, 2, q) && !matrixio_read_string_attr(t, "")); if (!onf) { sr_check_true("attributes of the dataset only", !matrixio_read_data_attr(f, "first", &r, 2, q)); }
    matrixio_close_dataset(ds); matrixio_close(f); sr_check_true("everything closed", h5_open == 0); }
  else if (mode == 2) { /* vectors: N c p parts; written by several processes, read by as many others */
    int N = A(v, 2), c = A(v, 3), p = A(v, 4), P = A(v, 5), P2 = A(v, 6), pr, al; int per = N * c; double *val = malloc(sizeof(double) * 2 * per * p); for (i = 0; i < per * p * SCALAR_NUMVALS; i++) val[i] = sr_varf(0.1 * i, "v%d", i);
    for (pr = 0; pr < P; pr++) { int b = (N + P - 1) / P, s = pr * b > N ? N : pr * b, l = s + b > N ? N - s : b; if (!l) s = 0; h5collective = pr ? 2 : 1; E_ = create_evectmatrix(N, c, p + (pr & 1), l, s, l + 1); if (pr & 1) evectmatrix_resize(&E_, p, 0); for (i = 0; i < l * c * p * SCALAR_NUMVALS; i++) ((double *)E_.data)[i] = val[s * c * p * SCALAR_NUMVALS + i]; sr_checkf_true(!hx_try(dowr, 0), "process %d writes", pr); }
    h5node *D = h5sub(h5file("vec.h5"), "rawdata"); sr_check_true("shape", D && D->rank == 4 && D->dims[0] == N && D->dims[1] == c && D->dims[2] == p && D->dims[3] == SCALAR_NUMVALS); for (i = 0; i < D->n; i++) { sr_checkf_true(D->cnt[i] == 1, "element %d written once", i); sr_checkf_eq(D->d[i], val[i], "stored %d", i); }
    h5collective = 0; for (pr = 0; pr < P2; pr++) { int b = (N + P2 - 1) / P2, s = pr * b > N ? N : pr * b, l = s + b > N ? N - s : b; if (!l) s = 0; E_ = create_evectmatrix(N, c, p + !(pr & 1), l, s, l + 1); if (!(pr & 1)) evectmatrix_resize(&E_, p, 0); for (i = 0; i < (l + 1) * c * p * SCALAR_NUMVALS; i++) ((double *)E_.data)[i] = -99; sr_checkf_true(!hx_try(dord, 0), "process %d reads", pr); for (i = 0; i < (l + 1) * c * p * SCALAR_NUMVALS; i++) sr_checkf_eq(((double *)E_.data)[i], i < l * c * p * SCALAR_NUMVALS ? val[s * c * p * SCALAR_NUMVALS + i] : -99, "process %d element %d", pr, i); }
    sr_check_true("everything closed", h5_open == 0);
    for (k = 0; k < 3; k++) { E_ = create_evectmatrix(N + (k == 0), c + (k == 1), p + (k == 2), 1, 0, 1); for (i = 0; i < E_.c * E_.p * SCALAR_NUMVALS; i++) ((double *)E_.data)[i] = -99; sr_checkf_true(hx_try(dord, 0), "other shape %d refused", k); for (i = 0; i < E_.c * E_.p * SCALAR_NUMVALS; i++) sr_checkf_eq(((double *)E_.data)[i], -99, "nothing read %d", i); } }
  else { /* replacing, groups, empty files */
    int d1[2] = {2, 2}, d2[2] = {3, 1}, z[2] = {0, 0}; double u[4], w[3]; for (i = 0; i < 4; i++) u[i] = sr_varf(i, "u%d", i); for (i = 0; i < 3; i++) w[i] = sr_varf(9 - i, "w%d", i); matrixio_id f = matrixio_create("r"), ds = matrixio_create_dataset(f, "m", 0, 2, d1); matrixio_write_real_data(ds, d1, z, 1, u); matrixio_close_dataset(ds); ds = matrixio_create_dataset(f, "m", 0, 2, d2); matrixio_write_real_data(ds, d2, z, 1, w); matrixio_close_dataset(ds);
    matrixio_id g = matrixio_create_sub(f, "grp", "text"), gs = matrixio_create_dataset(g, "m", 0, 2, d1); matrixio_write_real_data(gs, d1, z, 1, u); matrixio_close_dataset(gs); char *s = matrixio_read_string_attr(g, "description"); sr_check_true("group description", s && !strcmp(s, "text")); matrixio_close_sub(g);
    Q.id = f; Q.name = "m"; Q.rank = 2; Q.data = 0; sr_check_true("no stop", !hx_try(doread, 0)); sr_check_true("replaced", Q.res && Q.dims[0] == 3 && Q.dims[1] == 1); if (Q.res) for (i = 0; i < 3; i++) sr_checkf_eq(Q.res[i], w[i], "new value %d", i); matrixio_dataset_delete(f, "m"); Q.rank = 2; hx_try(doread, 0); sr_check_true("deleted", !Q.res); matrixio_close(f);
    f = matrixio_create("r"); Q.id = f; Q.rank = 2; Q.name = "m"; hx_try(doread, 0); sr_check_true("truncated", !Q.res); Q.name = 0; Q.rank = 2; Q.res = w; sr_check_true("no stop", !hx_try(doread, 0)); sr_check_true("no dataset in the file", Q.res == 0); matrixio_close(f); sr_check_true("everything closed", h5_open == 0); }
  sr_reach("end"); return 0; }
