/* The part of the MEX interface that the files in matlab/ use. */
#ifndef MEX_H
#define MEX_H
#include <stddef.h>
#include <stdio.h>
#include <complex.h>
typedef struct mxArray_tag mxArray;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
double *mxGetPr(const mxArray *a); double *mxGetPi(const mxArray *a); double mxGetScalar(const mxArray *a);
size_t mxGetM(const mxArray *a); size_t mxGetN(const mxArray *a); size_t mxGetNumberOfElements(const mxArray *a);
int mxIsDouble(const mxArray *a); int mxIsComplex(const mxArray *a); int mxIsChar(const mxArray *a); int mxIsEmpty(const mxArray *a);
char *mxArrayToString(const mxArray *a);
mxArray *mxCreateDoubleMatrix(size_t m, size_t n, mxComplexity c); mxArray *mxCreateDoubleScalar(double v); mxArray *mxCreateString(const char *s);
void *mxMalloc(size_t n); void mxFree(void *p);
/* not used by these files at present, but by others like them */
void *mxCalloc(size_t n, size_t s); void *mxRealloc(void *p, size_t n); void mxDestroyArray(mxArray *a); mxArray *mxDuplicateArray(const mxArray *a);
int mxIsNumeric(const mxArray *a); int mxIsScalar(const mxArray *a); int mxIsLogical(const mxArray *a); int mxIsSparse(const mxArray *a); int mxIsStruct(const mxArray *a); int mxIsCell(const mxArray *a);
size_t mxGetNumberOfDimensions(const mxArray *a); int mxGetString(const mxArray *a, char *buf, size_t n); void *mxGetData(const mxArray *a); void *mxGetImagData(const mxArray *a);
void mexErrMsgIdAndTxt(const char *id, const char *fmt, ...) __attribute__((noreturn)); void mexWarnMsgTxt(const char *msg); void mexWarnMsgIdAndTxt(const char *id, const char *fmt, ...);
#include <stdbool.h>
#include <stdint.h>
typedef size_t mwSize; typedef size_t mwIndex; typedef double mxDouble;
void mexErrMsgTxt(const char *msg) __attribute__((noreturn)); int mexPrintf(const char *fmt, ...);
#endif
