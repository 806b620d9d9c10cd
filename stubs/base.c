/* program stop, printing and communicator stubs (single process) */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <setjmp.h>
#include "sym.h"
#include "hx.h"
jmp_buf hx_jb; int hx_active = 0; char hx_msg[500];
void mpi_die(const char *t, ...) { va_list ap; va_start(ap, t); vsnprintf(hx_msg, sizeof hx_msg, t, ap); va_end(ap);
  if (hx_active) longjmp(hx_jb, 1);
  sr_note("mpi_die: %s", hx_msg); fprintf(stderr, "mpi_die: %s\n", hx_msg); sr_exit(1); }
int hx_try(void (*f)(void *), void *a) { int r; if (hx_active) sr_fatal("nested hx_try"); hx_active = 1; r = setjmp(hx_jb); if (!r) f(a); hx_active = 0; return r; }
void mpi_one_fprintf(FILE *f, const char *t, ...) {}
__attribute__((weak)) void mpi_one_printf(const char *t, ...) {}
void (*mpb_printf_callback)(const char *s) = 0;
int mpb_verbosity = 0; int verbosity = 0;
#ifndef HAVE_MPI
int mpb_comm = 0;
int mpi_is_master(void) { return 1; }
void mpi_assert_equal(double x) {}
void mpi_begin_critical_section(int tag) {}
void mpi_end_critical_section(int tag) {}
void end_divide_parallel(void) {}
int divide_parallel_processes(int n) { return 0; }
void begin_global_communications(void) {}
void end_global_communications(void) {}
int my_global_rank(void) { return 0; }
#endif
