#include "mex.h"
#include <stdarg.h>
#include <setjmp.h>
#include <math.h>
#include "mc.h"
#include <vl/generic.h>
struct mxArray_tag { mxClassID cls; mwSize nd; mwSize *dims; void *data; bool complex, sparse; mwSize nzmax; mwIndex *ir, *jc;
  int nf; char **names; mxArray **child; bool keep; };
char mex_message[1024], mex_id[256]; int mex_warnings;
void (*mex_callmatlab)(int, mxArray **, int, mxArray **, const char *);
static jmp_buf env; static int inside;
/* ---- blocks ---- */
typedef struct { void *p; size_t n; bool keep; } Blk;
static Blk *blk; static size_t nblk, cblk, blk_base;
static mxArray **arr; static size_t narr, carr, arr_base;
static Blk *bfind(const void *p) { for (size_t i = nblk; i-- > 0; ) if (blk[i].p == p) return blk + i; return 0; }
static void badmem(const char *what) {
  mc_fail("memory", "the MEX function %s", what);
  if (inside) { snprintf(mex_message, sizeof mex_message, "%s", what); longjmp(env, 2); }
}
void *mxMalloc(size_t n) {
  if (n > ((size_t)1 << 31)) { if (inside) mexErrMsgIdAndTxt("MATLAB:nomem", "out of memory"); return 0; }
  void *p = malloc(n ? n : 1);      /* one spare byte only for empty blocks */
  memset(p, 0xCD, n ? n : 1);
  if (nblk == cblk) { cblk = cblk ? 2 * cblk : 256; blk = realloc(blk, cblk * sizeof *blk); }
  blk[nblk++] = (Blk){p, n, 0}; return p;
}
void *mxCalloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { if (inside) mexErrMsgIdAndTxt("MATLAB:nomem", "out of memory"); return 0; } void *p = mxMalloc(a * b); if (p) memset(p, 0, a * b); return p; }
void mxFree(void *p) {
  if (!p) return;
  Blk *b = bfind(p);
  if (!b) { badmem("freed a block that is not MATLAB's"); return; }
  size_t i = b - blk; if (i < blk_base) { badmem("freed a block that it did not allocate"); return; }
  free(p); blk[i] = blk[--nblk];
}
void *mxRealloc(void *p, size_t n) {
  if (!p) return mxMalloc(n);
  Blk *b = bfind(p); if (!b || (size_t)(b - blk) < blk_base) { badmem("reallocated a block that is not its own"); return 0; }
  size_t old = b->n;
  if (n == 0) { mxFree(p); return 0; }
  void *q = mxMalloc(n); if (!q) return 0;
  memcpy(q, p, old < n ? old : n); mxFree(p); return q;
}
/* ---- arrays ---- */
static size_t esize(mxClassID c) {
  switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: case mxFUNCTION_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; case mxINT8_CLASS: case mxUINT8_CLASS: case mxLOGICAL_CLASS: return 1; default: return 0; }
}
static mxArray *newarr(mxClassID c, mwSize nd, const mwSize *d) {
  mxArray *a = calloc(1, sizeof *a); a->cls = c;
  while (nd > 2 && d[nd - 1] == 1) nd--;               /* MATLAB drops trailing singleton dimensions */
  mwSize n = nd < 2 ? 2 : nd;
  a->dims = malloc(n * sizeof *a->dims); a->nd = n;
  for (mwSize i = 0; i < n; i++) a->dims[i] = i < nd ? d[i] : 1;
  if (narr == carr) { carr = carr ? 2 * carr : 256; arr = realloc(arr, carr * sizeof *arr); }
  arr[narr++] = a; return a;
}
size_t mxGetNumberOfElements(const mxArray *a) { size_t n = 1; for (mwSize i = 0; i < a->nd; i++) n *= a->dims[i]; return n; }
static void freearr(mxArray *a) { free(a->dims); for (int i = 0; i < a->nf; i++) free(a->names[i]); free(a->names); free(a->child); free(a); }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity x) {
  if (!esize(c)) { if (inside) mexErrMsgTxt("mxCreateNumericArray: bad class"); return 0; }
  double tot = 1; for (mwSize i = 0; i < nd; i++) tot *= (double)d[i];
  if (tot * esize(c) > 1e9) { if (inside) mexErrMsgIdAndTxt("MATLAB:nomem", "out of memory"); return 0; }
  mxArray *a = newarr(c, nd, d); a->complex = x == mxCOMPLEX;
  a->data = mxCalloc(mxGetNumberOfElements(a) * (a->complex ? 2 : 1), esize(c)); return a;
}
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { mwSize d[2] = {m, n}; return mxCreateNumericArray(2, d, c, x); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->data = v; return a; }
mxArray *mxCreateLogicalScalar(bool v) { mwSize d[2] = {1, 1}; mxArray *a = newarr(mxLOGICAL_CLASS, 2, d); a->data = mxCalloc(1, 1); *(bool *)a->data = v; return a; }
mxArray *mxCreateString(const char *s) { mwSize d[2] = {s[0] ? 1 : 0, strlen(s)}; mxArray *a = newarr(mxCHAR_CLASS, 2, d); mxChar *p = a->data = mxCalloc(d[1], 2); for (; *s; s++) *p++ = (unsigned char)*s; return a; }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **names) {
  mxArray *a = newarr(mxSTRUCT_CLASS, nd, d); a->nf = nf; a->names = malloc(nf * sizeof *a->names + 1);
  for (int i = 0; i < nf; i++) a->names[i] = strdup(names[i]);
  a->child = calloc(mxGetNumberOfElements(a) * nf + 1, sizeof *a->child); return a;
}
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **names) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, names); }
mxArray *mxCreateCellMatrix(mwSize m, mwSize n) { mwSize d[2] = {m, n}; mxArray *a = newarr(mxCELL_CLASS, 2, d); a->child = calloc(m * n + 1, sizeof *a->child); return a; }
mxArray *mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity x) {
  mwSize d[2] = {m, n}; mxArray *a = newarr(mxDOUBLE_CLASS, 2, d); a->sparse = 1; a->nzmax = nz ? nz : 1;
  a->data = mxCalloc(a->nzmax, 8); a->ir = mxCalloc(a->nzmax, sizeof(mwIndex)); a->jc = mxCalloc(n + 1, sizeof(mwIndex)); return a;
}
static size_t nchild(const mxArray *a) { return a->child ? mxGetNumberOfElements(a) * (a->cls == mxSTRUCT_CLASS ? a->nf : 1) : 0; }
mxArray *mxDuplicateArray(const mxArray *s) {
  mxArray *a = newarr(s->cls, s->nd, s->dims); a->complex = s->complex; a->sparse = s->sparse; a->nzmax = s->nzmax; a->nf = s->nf;
  if (s->data) { Blk *b = bfind(s->data); size_t n = b->n; a->data = mxMalloc(n); memcpy(a->data, s->data, n); }
  if (s->ir) { a->ir = mxMalloc(s->nzmax * sizeof(mwIndex)); memcpy(a->ir, s->ir, s->nzmax * sizeof(mwIndex)); a->jc = mxMalloc((s->dims[1] + 1) * sizeof(mwIndex)); memcpy(a->jc, s->jc, (s->dims[1] + 1) * sizeof(mwIndex)); }
  if (s->names) { a->names = malloc(s->nf * sizeof *a->names + 1); for (int i = 0; i < s->nf; i++) a->names[i] = strdup(s->names[i]); }
  if (s->child) { size_t n = nchild(s); a->child = calloc(n + 1, sizeof *a->child); for (size_t i = 0; i < n; i++) if (s->child[i]) a->child[i] = mxDuplicateArray(s->child[i]); }
  return a;
}
void mxDestroyArray(mxArray *a) {
  if (!a) return;
  size_t i; for (i = narr; i-- > 0; ) if (arr[i] == a) break;
  if (i == (size_t)-1) { badmem("destroyed an array that does not exist"); return; }
  if (i < arr_base) { badmem("destroyed an array that it did not create"); return; }
  for (size_t k = 0, n = nchild(a); k < n; k++) mxDestroyArray(a->child[k]);
  for (i = narr; i-- > 0; ) if (arr[i] == a) break;
  if (a->data) mxFree(a->data); if (a->ir) mxFree(a->ir); if (a->jc) mxFree(a->jc);
  arr[i] = arr[--narr]; freearr(a);
}
double *mxGetPr(const mxArray *a) { return a->data; }
void *mxGetData(const mxArray *a) { return a->data; }
mxClassID mxGetClassID(const mxArray *a) { return a->cls; }
size_t mxGetM(const mxArray *a) { return a->dims[0]; }
size_t mxGetN(const mxArray *a) { size_t n = 1; for (mwSize i = 1; i < a->nd; i++) n *= a->dims[i]; return n; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->nd; }
const mwSize *mxGetDimensions(const mxArray *a) { return a->dims; }
size_t mxGetElementSize(const mxArray *a) { return esize(a->cls); }
void mxSetM(mxArray *a, mwSize m) { a->dims[0] = m; }
void mxSetN(mxArray *a, mwSize n) { a->dims[1] = n; a->nd = 2; }
int mxSetDimensions(mxArray *a, const mwSize *d, mwSize nd) {
  while (nd > 2 && d[nd - 1] == 1) nd--;
  mwSize n = nd < 2 ? 2 : nd; mwSize *q = malloc(n * sizeof *q);
  for (mwSize i = 0; i < n; i++) q[i] = i < nd ? d[i] : 1;
  free(a->dims); a->dims = q; a->nd = n; return 0;
}
void mxSetData(mxArray *a, void *p) { a->data = p; }
void mxSetPr(mxArray *a, double *p) { a->data = p; }
static int fieldno(const mxArray *a, const char *f) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->names[i], f)) return i; return -1; }
int mxGetFieldNumber(const mxArray *a, const char *f) { return a->cls == mxSTRUCT_CLASS ? fieldno(a, f) : -1; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *f) { if (a->cls != mxSTRUCT_CLASS) return 0; int k = fieldno(a, f); return k < 0 || i >= mxGetNumberOfElements(a) ? 0 : a->child[i * a->nf + k]; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v) { if (k < 0 || k >= a->nf || i >= mxGetNumberOfElements(a)) { badmem("set a field outside its structure"); return; } a->child[i * a->nf + k] = v; }
void mxSetField(mxArray *a, mwIndex i, const char *f, mxArray *v) { mxSetFieldByNumber(a, i, fieldno(a, f), v); }
mxArray *mxGetCell(const mxArray *a, mwIndex i) { return a->child[i]; }
void mxSetCell(mxArray *a, mwIndex i, mxArray *v) { if (i >= mxGetNumberOfElements(a)) { badmem("set a cell outside its array"); return; } a->child[i] = v; }
bool mxIsNumeric(const mxArray *a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsComplex(const mxArray *a) { return a->complex; }
bool mxIsSparse(const mxArray *a) { return a->sparse; }
bool mxIsStruct(const mxArray *a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsCell(const mxArray *a) { return a->cls == mxCELL_CLASS; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsUint8(const mxArray *a) { return a->cls == mxUINT8_CLASS; }
bool mxIsChar(const mxArray *a) { return a->cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray *a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsEmpty(const mxArray *a) { return mxGetNumberOfElements(a) == 0; }
bool mxIsLogicalScalar(const mxArray *a) { return a->cls == mxLOGICAL_CLASS && mxGetNumberOfElements(a) == 1; }
static const char *cname(mxClassID c) { static const char *n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return n[c]; }
bool mxIsClass(const mxArray *a, const char *c) { return !strcmp(c, cname(a->cls)); }
mxLogical *mxGetLogicals(const mxArray *a) { return a->data; }
mwIndex *mxGetIr(const mxArray *a) { return a->ir; }
mwIndex *mxGetJc(const mxArray *a) { return a->jc; }
int mxGetString(const mxArray *a, char *buf, mwSize n) {
  if (a->cls != mxCHAR_CLASS || n == 0) return 1;
  size_t k = mxGetNumberOfElements(a), m = k < n - 1 ? k : n - 1; for (size_t i = 0; i < m; i++) buf[i] = (char)((mxChar *)a->data)[i];
  buf[m] = 0; return k > n - 1;
}
double mxv(const mxArray *a, size_t i) {
  switch (a->cls) { case mxDOUBLE_CLASS: return ((double *)a->data)[i]; case mxSINGLE_CLASS: return ((float *)a->data)[i];
    case mxINT8_CLASS: return ((int8_t *)a->data)[i]; case mxUINT8_CLASS: return ((uint8_t *)a->data)[i]; case mxINT16_CLASS: return ((int16_t *)a->data)[i]; case mxUINT16_CLASS: case mxCHAR_CLASS: return ((uint16_t *)a->data)[i];
    case mxINT32_CLASS: return ((int32_t *)a->data)[i]; case mxUINT32_CLASS: return ((uint32_t *)a->data)[i]; case mxINT64_CLASS: return (double)((int64_t *)a->data)[i]; case mxUINT64_CLASS: return (double)((uint64_t *)a->data)[i];
    case mxLOGICAL_CLASS: return ((bool *)a->data)[i]; default: return NAN; }
}
void mxsv(mxArray *a, size_t i, double v) {
  switch (a->cls) { case mxDOUBLE_CLASS: ((double *)a->data)[i] = v; break; case mxSINGLE_CLASS: ((float *)a->data)[i] = (float)v; break;
    case mxINT8_CLASS: ((int8_t *)a->data)[i] = (int8_t)v; break; case mxUINT8_CLASS: ((uint8_t *)a->data)[i] = (uint8_t)v; break; case mxINT16_CLASS: ((int16_t *)a->data)[i] = (int16_t)v; break; case mxUINT16_CLASS: case mxCHAR_CLASS: ((uint16_t *)a->data)[i] = (uint16_t)v; break;
    case mxINT32_CLASS: ((int32_t *)a->data)[i] = (int32_t)v; break; case mxUINT32_CLASS: ((uint32_t *)a->data)[i] = (uint32_t)v; break; case mxINT64_CLASS: ((int64_t *)a->data)[i] = (int64_t)v; break; case mxUINT64_CLASS: ((uint64_t *)a->data)[i] = (uint64_t)v; break;
    case mxLOGICAL_CLASS: ((bool *)a->data)[i] = v != 0; break; default: break; }
}
double mxGetScalar(const mxArray *a) {
  if (!a->data || mxGetNumberOfElements(a) == 0) { badmem("read the first element of an empty array"); return 0; }
  return mxv(a, 0);
}
double mxGetInf(void) { return INFINITY; }
double mxGetNaN(void) { return NAN; }
bool mxIsFinite(double v) { return isfinite(v); }
bool mxIsNaN(double v) { return isnan(v); }
bool mxIsInf(double v) { return isinf(v); }
double mxGetEps(void) { return 2.220446049250313e-16; }
/* ---- messages ---- */
int mexPrintf(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); int r = vsnprintf(b, sizeof b, f, a); va_end(a); return r; }
static void raise_error(void) { if (!inside) { mc_fail("harness", "MEX error outside a call: %s", mex_message); abort(); } longjmp(env, 1); }
void mexErrMsgTxt(const char *m) { snprintf(mex_message, sizeof mex_message, "%s", m ? m : ""); mex_id[0] = 0; raise_error(); abort(); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { va_list a; va_start(a, f); vsnprintf(mex_message, sizeof mex_message, f, a); va_end(a); snprintf(mex_id, sizeof mex_id, "%s", id); raise_error(); abort(); }
void mexWarnMsgTxt(const char *m) { mex_warnings++; }
void mexWarnMsgIdAndTxt(const char *id, const char *f, ...) { mex_warnings++; char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); }
int mexCallMATLAB(int no, mxArray **o, int ni, mxArray **i, const char *f) { if (mex_callmatlab) mex_callmatlab(no, o, ni, i, f); return 0; }
/* ---- calls ---- */
uint64_t mx_hash(const mxArray *a) {
  if (!a) return 1;
  uint64_t h = mc_mix(a->cls, a->complex); h = mc_hash(h, a->dims, a->nd * sizeof *a->dims);
  if (a->data) { Blk *b = bfind(a->data); if (b) h = mc_hash(h, a->data, b->n); }
  for (size_t i = 0, n = nchild(a); i < n; i++) h = mc_mix(h, mx_hash(a->child[i]));
  return h;
}
static void mark(mxArray *a) {
  if (!a || a->keep) return; a->keep = 1;
  if (a->data) { Blk *b = bfind(a->data); if (b) b->keep = 1; }
  if (a->ir) { bfind(a->ir)->keep = 1; bfind(a->jc)->keep = 1; }
  for (size_t i = 0, n = nchild(a); i < n; i++) mark(a->child[i]);
}
static int backed(mxArray *a) {
  if (!a) return 1;
  size_t n = mxGetNumberOfElements(a), e = esize(a->cls);
  if (e && !a->sparse && n) { Blk *b = a->data ? bfind(a->data) : 0; if (!b || b->n < n * e * (a->complex ? 2 : 1)) return 0; }
  for (size_t i = 0, m = nchild(a); i < m; i++) if (!backed(a->child[i])) return 0;
  return 1;
}
static void collect(void) {
  size_t k = arr_base;
  for (size_t i = arr_base; i < narr; i++) if (arr[i]->keep) { arr[i]->keep = 0; arr[k++] = arr[i]; } else freearr(arr[i]);
  narr = k; k = blk_base;
  for (size_t i = blk_base; i < nblk; i++) if (blk[i].keep) { blk[i].keep = 0; blk[k++] = blk[i]; } else free(blk[i].p);
  nblk = k;
}
int mex_call(mexfn f, int nout, mxArray **out, int nin, mxArray **in) {
  int slots = nout < 1 ? 1 : nout; volatile int r = 0;
  uint64_t h[32]; for (int i = 0; i < nin; i++) h[i] = mx_hash(in[i]);
  mxArray **o = malloc(slots * sizeof *o); const mxArray **ii = malloc((nin ? nin : 1) * sizeof *ii);
  for (int i = 0; i < slots; i++) o[i] = 0; for (int i = 0; i < nin; i++) ii[i] = in[i];
  arr_base = narr; blk_base = nblk; mex_message[0] = mex_id[0] = 0; mex_warnings = 0; inside = 1; mc_op();
  r = setjmp(env);
  if (r == 0) f(nout, o, nin, ii);
  inside = 0;
  vl_set_alloc_func(malloc, realloc, calloc, free); vl_set_printf_func(printf);
  if (r) for (int i = 0; i < slots; i++) o[i] = 0;
  for (int i = 0; i < slots; i++) { mark(o[i]); if (out) out[i] = o[i]; }
  for (int i = 0; i < slots; i++) MC_CHECK("memory", backed(o[i]), "output %d is not backed by as much memory as its dimensions say", i);
  collect();
  for (int i = 0; i < nin; i++) MC_CHECK("input", h[i] == mx_hash(in[i]), "the MEX function changed its argument %d", i);
  free(o); free(ii); arr_base = blk_base = 0; return r;
}
void mx_release(void) { inside = 0; vl_set_alloc_func(malloc, realloc, calloc, free); vl_set_printf_func(printf); arr_base = blk_base = 0; for (size_t i = 0; i < narr; i++) freearr(arr[i]); for (size_t i = 0; i < nblk; i++) free(blk[i].p); narr = nblk = 0; }
mxArray *mxn(mxClassID c, int nd, ...) { mwSize d[8]; va_list a; va_start(a, nd); for (int i = 0; i < nd; i++) d[i] = va_arg(a, int); va_end(a);
  if (c == mxCHAR_CLASS || c == mxLOGICAL_CLASS) { mxArray *x = newarr(c, nd, d); x->data = mxCalloc(mxGetNumberOfElements(x), esize(c)); return x; }
  return mxCreateNumericArray(nd, d, c, mxREAL); }
mxArray *mx2(mxClassID c, int m, int n, const double *v) { mxArray *a = mxn(c, 2, m, n); if (v) for (int i = 0; i < m * n; i++) mxsv(a, i, v[i]); return a; }
int mx_is(const mxArray *a, mxClassID c, int m, int n) { return a && a->cls == c && a->nd == 2 && a->dims[0] == (mwSize)m && a->dims[1] == (mwSize)n; }
