#ifndef H5MEM_H
#define H5MEM_H
typedef struct h5node { char *name; int kind, rank, size, str; unsigned long long dims[8]; long n; double *d; int *cnt; char *s; struct h5node *first, *next; } h5node;
extern h5node *h5files[]; extern int h5nfiles, h5collective, h5_open;
h5node *h5file(const char *), *h5sub(h5node *, const char *), *h5attr(h5node *, const char *);
void h5setinfo(void *, int);
#endif
