/* Calls of the MATLAB interface (matlab/mex_*.c) through a small stand-in for
   MATLAB: arrays, managed memory, errors that end the call. */
#include "drv.h"
#ifdef NO_MEX
op_t ops_mex[] = {{NULL, NULL}};
#else
#include <setjmp.h>
#include <stdarg.h>
#include "mex.h"
#include "fnft_errwarn.h"
struct mxArray_tag { int chr; size_t m, n; double *re, *im; char *s; };
static jmp_buf env; static char err[512]; static long printed;
static void *held[4096]; static int nheld;
static void *hold(void *p) { if (nheld < 4096) held[nheld++] = p; return p; }
double *mxGetPr(const mxArray *a) { return a->re; }
double *mxGetPi(const mxArray *a) { return a->im; }
double mxGetScalar(const mxArray *a) { return a->re[0]; }
size_t mxGetM(const mxArray *a) { return a->m; }
size_t mxGetN(const mxArray *a) { return a->n; }
size_t mxGetNumberOfElements(const mxArray *a) { return a->m*a->n; }
int mxIsDouble(const mxArray *a) { return !a->chr; }
int mxIsComplex(const mxArray *a) { return a->im != NULL; }
int mxIsChar(const mxArray *a) { return a->chr; }
int mxIsEmpty(const mxArray *a) { return a->m*a->n == 0; }
void *mxMalloc(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0x5a, n); return hold(p); }
void mxFree(void *p) { for (int i = 0; p && i < nheld; i++) if (held[i] == p) { free(p); held[i] = NULL; return; } if (p) { snprintf(err, sizeof err, "mxFree of foreign memory"); longjmp(env, 2); } }
char *mxArrayToString(const mxArray *a) { char *s = mxMalloc(strlen(a->s) + 1); strcpy(s, a->s); return s; }
static mxArray *mk(size_t m, size_t n, int cx) { mxArray *a = hold(calloc(1, sizeof *a)); a->m = m; a->n = n; a->re = hold(calloc(m*n + !(m*n), 8)); if (cx) a->im = hold(calloc(m*n + !(m*n), 8)); return a; }
mxArray *mxCreateDoubleMatrix(size_t m, size_t n, mxComplexity c) { return mk(m, n, c == mxCOMPLEX); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mk(1, 1, 0); a->re[0] = v; return a; }
mxArray *mxCreateString(const char *s) { mxArray *a = mk(1, strlen(s), 0); a->chr = 1; a->s = hold(strdup(s)); return a; }
void mexErrMsgTxt(const char *msg) { snprintf(err, sizeof err, "%s", msg); longjmp(env, 1); }
int mexPrintf(const char *fmt, ...) { (void) fmt; printed++; return 0; }
void *mxCalloc(size_t n, size_t s) { return hold(calloc(n ? n : 1, s)); }
void *mxRealloc(void *p, size_t n) { for (int i = 0; p && i < nheld; i++) if (held[i] == p) return held[i] = realloc(p, n ? n : 1); return mxMalloc(n); }
void mxDestroyArray(mxArray *a) { (void) a; } /* released when the call ends */
mxArray *mxDuplicateArray(const mxArray *a) { if (a->chr) return mxCreateString(a->s); mxArray *b = mk(a->m, a->n, a->im != NULL); memcpy(b->re, a->re, 8*a->m*a->n); if (b->im) memcpy(b->im, a->im, 8*a->m*a->n); return b; }
int mxIsNumeric(const mxArray *a) { return !a->chr; }
int mxIsScalar(const mxArray *a) { return a->m*a->n == 1; }
int mxIsLogical(const mxArray *a) { (void) a; return 0; }
int mxIsSparse(const mxArray *a) { (void) a; return 0; }
int mxIsStruct(const mxArray *a) { (void) a; return 0; }
int mxIsCell(const mxArray *a) { (void) a; return 0; }
size_t mxGetNumberOfDimensions(const mxArray *a) { (void) a; return 2; }
int mxGetString(const mxArray *a, char *buf, size_t n) { if (!a->chr || n == 0) return 1; snprintf(buf, n, "%s", a->s); return strlen(a->s) >= n; }
void *mxGetData(const mxArray *a) { return a->re; }
void *mxGetImagData(const mxArray *a) { return a->im; }
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) { (void) id; va_list v; va_start(v, fmt); vsnprintf(err, sizeof err, fmt, v); va_end(v); longjmp(env, 1); }
void mexWarnMsgTxt(const char *msg) { (void) msg; printed++; }
void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...) { (void) id; (void) fmt; printed++; }
typedef void mexfn(int, mxArray **, int, const mxArray **);
mexfn mex_fnft_nsev, mex_fnft_nsep, mex_fnft_kdvv, mex_fnft_manakovv, mex_fnft_nsev_inverse, mex_fnft_nsev_inverse_XI, mex_fnft_version;
static struct { const char *n; mexfn *f; } tab[] = {{"nsev", mex_fnft_nsev}, {"nsep", mex_fnft_nsep}, {"kdvv", mex_fnft_kdvv}, {"manakovv", mex_fnft_manakovv},
  {"inverse", mex_fnft_nsev_inverse}, {"inverse_XI", mex_fnft_nsev_inverse_XI}, {"version", mex_fnft_version}};
/* "s" string, "r" real row, "k" complex column, "c" complex row, "e" empty */
static const mxArray *in(char *t) {
  char *v = t + 2;
  if (*t == 's') return mxCreateString(v);
  if (*t == 'e') return mk(0, 0, 0);
  size_t n = 0; double x[2048], y[2048]; char *p = v;
  for (; n < 2048; n++) { char *e; x[n] = strtod(p, &e); if (e == p) break; p = e; y[n] = 0; if (*p == ',') { y[n] = strtod(p + 1, &e); p = e; } }
  mxArray *a = mk(*t == 'k' ? n : 1, *t == 'k' ? 1 : n, *t != 'r'); memcpy(a->re, x, 8*n); if (a->im) memcpy(a->im, y, 8*n); return a; }
static int op_mex(args_t *a, out_t *o) {
  const char *fn = arg(a, "fn", ""); static const mxArray *rhs[64]; int volatile nr = 0; int nl = (int) argi(a, "nlhs", 1), no = nl > 0 ? nl : 1;
  mexfn *f = NULL; for (size_t i = 0; i < sizeof tab/sizeof *tab; i++) if (!strcmp(tab[i].n, fn)) f = tab[i].f;
  nheld = 0; printed = 0; err[0] = 0;
  char *s = strdup(arg(a, "in", "")), *sv = NULL; for (char *t = strtok_r(s, "|", &sv); t && nr < 64; t = strtok_r(NULL, "|", &sv)) rhs[nr++] = in(t);
  mxArray **lhs = calloc((size_t) no, sizeof *lhs); /* as many as the caller takes, at least one */
  fnft_printf_ptr_t before = fnft_errwarn_getprintf();
  int j = setjmp(env); if (j == 0) f(nl, lhs, nr, rhs);
  o_int(o, "failed", j); o_str(o, "err", err); o_int(o, "printed", printed);
  o_str(o, "hook", fnft_errwarn_getprintf() == NULL ? "none" : fnft_errwarn_getprintf() == (fnft_printf_ptr_t) mexPrintf ? "mex" : "other");
  fnft_errwarn_setprintf(before);
  int cnt = 0;
  for (int i = 0; i < no; i++) { char nm[16], dm[40]; snprintf(nm, sizeof nm, "out%d", i + 1); snprintf(dm, sizeof dm, "dim%d", i + 1);
    if (!lhs[i]) continue; cnt++; if (lhs[i]->chr) { o_str(o, nm, lhs[i]->s); continue; }
    char d[64]; snprintf(d, sizeof d, "%zux%zu", lhs[i]->m, lhs[i]->n); o_str(o, dm, d);
    size_t n = lhs[i]->m*lhs[i]->n; C *v = malloc((n + 1)*sizeof(C)); for (size_t l = 0; l < n; l++) v[l] = lhs[i]->re[l] + (lhs[i]->im ? I*lhs[i]->im[l] : 0); o_cx(o, nm, v, n); free(v); }
  o_int(o, "nout", cnt);
  free(lhs); free(s); for (int i = 0; i < nheld; i++) free(held[i]); return j; }
op_t ops_mex[] = {{"mex", op_mex}, {NULL, NULL}};
#endif
