#ifndef HX_H
#define HX_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include "sym.h"
extern char hx_msg[];
int hx_try(void (*f)(void *), void *a);   /* 1 if the code stopped the program */
void sr_exit(int);
#endif
