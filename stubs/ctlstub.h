#ifndef CTLSTUB_H
#define CTLSTUB_H
/* kinds: n number, c complex, v vector, w complex vector, i integer, p pair, f function (id), a array */
typedef struct { unsigned long w0; int kind, id; double d[6]; SCM a, b; double *data; int rank, dims[4], open; } ctlval;
ctlval *ctl_val(SCM s);
SCM ctl_fn(int id);
SCM ctl_array(double *d, int rank, const int *n);
SCM ctl_apply(SCM f, int n, SCM *a); /* defined by the harness */
extern int ctl_n[3], ctl_destroyed;
#endif
