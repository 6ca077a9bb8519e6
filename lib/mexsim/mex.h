/* A stand-in for MATLAB's mex.h: what the toolbox's MEX functions use, and no more.
   Data blocks have exactly the size their dimensions ask for, so that the address
   sanitizer sees every access outside an argument. */
#ifndef MEXSIM_MEX_H
#define MEXSIM_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#define MWSIZE_MAX 281474976710655UL
#define EXTERN_C extern
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef uint16_t mxChar; typedef bool mxLogical;
typedef struct mxArray_tag mxArray;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS,
  mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS,
  mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t); void *mxRealloc(void *, size_t); void mxFree(void *);
double *mxGetPr(const mxArray *); void *mxGetData(const mxArray *); mxClassID mxGetClassID(const mxArray *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity);
mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray *mxCreateDoubleScalar(double); mxArray *mxCreateString(const char *);
mxArray *mxCreateStructArray(mwSize, const mwSize *, int, const char **); mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **);
mxArray *mxCreateCellMatrix(mwSize, mwSize); mxArray *mxCreateSparse(mwSize, mwSize, mwSize, mxComplexity); mxArray *mxCreateLogicalScalar(bool);
mxArray *mxDuplicateArray(const mxArray *); void mxDestroyArray(mxArray *);
size_t mxGetM(const mxArray *); size_t mxGetN(const mxArray *); size_t mxGetNumberOfElements(const mxArray *); mwSize mxGetNumberOfDimensions(const mxArray *);
const mwSize *mxGetDimensions(const mxArray *); double mxGetScalar(const mxArray *); size_t mxGetElementSize(const mxArray *);
void mxSetM(mxArray *, mwSize); void mxSetN(mxArray *, mwSize); int mxSetDimensions(mxArray *, const mwSize *, mwSize);
void mxSetData(mxArray *, void *); void mxSetPr(mxArray *, double *);
int mxGetFieldNumber(const mxArray *a, const char *f);
mxArray *mxGetField(const mxArray *, mwIndex, const char *); void mxSetField(mxArray *, mwIndex, const char *, mxArray *);
void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *); mxArray *mxGetCell(const mxArray *, mwIndex); void mxSetCell(mxArray *, mwIndex, mxArray *);
bool mxIsNumeric(const mxArray *); bool mxIsComplex(const mxArray *); bool mxIsSparse(const mxArray *); bool mxIsStruct(const mxArray *); bool mxIsClass(const mxArray *, const char *);
bool mxIsDouble(const mxArray *); bool mxIsChar(const mxArray *); bool mxIsLogicalScalar(const mxArray *); bool mxIsCell(const mxArray *); bool mxIsEmpty(const mxArray *); bool mxIsLogical(const mxArray *);
bool mxIsSingle(const mxArray *); bool mxIsUint8(const mxArray *);
mxLogical *mxGetLogicals(const mxArray *); int mxGetString(const mxArray *, char *, mwSize); mwIndex *mxGetIr(const mxArray *); mwIndex *mxGetJc(const mxArray *);
double mxGetInf(void); double mxGetNaN(void); double mxGetEps(void); bool mxIsFinite(double); bool mxIsNaN(double); bool mxIsInf(double);
int mexPrintf(const char *, ...);
void mexErrMsgTxt(const char *) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *, const char *, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *); void mexWarnMsgIdAndTxt(const char *, const char *, ...);
int mexCallMATLAB(int, mxArray **, int, mxArray **, const char *);

/* ---- for the drivers ---- */
typedef void (*mexfn)(int, mxArray **, int, const mxArray **);
/* runs the function: 0 returned, 1 raised an error (mex_message); memory it left behind is released as MATLAB does;
   its inputs must be unchanged and its outputs backed by enough memory */
int mex_call(mexfn, int nout, mxArray **out, int nin, mxArray **in);
extern char mex_message[1024], mex_id[256]; extern int mex_warnings;
extern void (*mex_callmatlab)(int, mxArray **, int, mxArray **, const char *);
mxArray *mxn(mxClassID cls, int nd, ...);            /* zero array of the given (int) dimensions */
mxArray *mx2(mxClassID cls, int m, int n, const double *v); /* matrix with values converted (NULL: zeros) */
double mxv(const mxArray *, size_t i);               /* element i as a double */
void mxsv(mxArray *, size_t i, double v);
int mx_is(const mxArray *, mxClassID, int m, int n); /* class and 2-D size */
void mx_release(void);                               /* free every array made so far */
uint64_t mx_hash(const mxArray *);
#endif
