/* Common parts of the conformance driver. */
#ifndef DRV_H
#define DRV_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <complex.h>
#include <math.h>
#include <unistd.h>
#define FNFT_ENABLE_SHORT_NAMES
#include "fnft_nsev.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_nsev_inverse.h"
#include "fnft_version.h"
typedef FNFT_UINT UI;
typedef double complex C;

typedef struct { int n; char *k[128]; char *v[128]; } args_t;
const char *arg(args_t *a, const char *k, const char *def);
int has(args_t *a, const char *k);              /* present and not "null" */
long argi(args_t *a, const char *k, long def);
double argd(args_t *a, const char *k, double def);
C *argc_(args_t *a, const char *k, size_t *n);  /* complex list or NULL */
double *argr(args_t *a, const char *k, size_t *n);

/* output object */
typedef struct { char *s; size_t n, cap; int first; } out_t;
void o_raw(out_t *o, const char *fmt, ...);
void o_int(out_t *o, const char *k, long v);
void o_str(out_t *o, const char *k, const char *v);
void o_cx(out_t *o, const char *k, const C *v, size_t n);
void o_re(out_t *o, const char *k, const double *v, size_t n);

/* allocation bookkeeping of library code, per thread */
typedef struct {
  int on;            /* inside the library */
  long nalloc;       /* allocations so far in this call */
  long live;         /* allocated minus freed in this call */
  long failat;       /* 0 = none; n = the n-th allocation fails */
  long failall;      /* 1 = and all later ones */
  long failhidden;   /* n = the n-th hidden temporary of EISCOR fails */
  long failed;       /* number of allocations that were made to fail */
  int fill;          /* -1 none, else byte written over fresh memory */
  int tid;           /* 0 = not scheduled */
} mem_t;
extern __thread mem_t M_;
extern void (*sched_point)(int tid, const char *what);

void lib_enter(args_t *a);
void lib_leave(out_t *o);

/* caller's buffers: exact length, guard words behind, content pattern */
void *ubuf(size_t nbytes);
int ubuf_ok(void *p);        /* guard words untouched */
size_t ubuf_touched(void *p);/* number of 8-byte words that differ from the pattern */
void ubuf_free(void *p);

typedef int (*opfn)(args_t *a, out_t *o);
typedef struct { const char *name; opfn fn; } op_t;
extern op_t ops_api[], ops_low[], ops_man[], ops_mex[];
#endif
