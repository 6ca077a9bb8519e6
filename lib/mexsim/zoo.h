/* helpers of the toolbox drivers: printing, and arrays of every kind */
#ifndef ZOO_H
#define ZOO_H
#include "mc.h"
#include "mex.h"
static inline mxArray *sc(double v) { return mxCreateDoubleScalar(v); }
static inline mxArray *str(const char *s) { return mxCreateString(s); }
static inline char *show(const mxArray *a) {
  static char b[6][400]; static int t; char *s = b[t++ % 6]; int n = 0; size_t k = mxGetNumberOfElements(a);
  for (mwSize i = 0; i < mxGetNumberOfDimensions(a); i++) n += snprintf(s + n, 400 - n, "%s%d", i ? "x" : "", (int)mxGetDimensions(a)[i]);
  if (mxIsStruct(a) || mxIsCell(a) || mxIsSparse(a)) { snprintf(s + n, 400 - n, " (struct, cell or sparse)"); return s; }
  n += snprintf(s + n, 400 - n, "["); for (size_t i = 0; i < k && n < 360; i++) n += snprintf(s + n, 400 - n, "%s%.9g", i ? " " : "", mxv(a, i)); snprintf(s + n, 400 - n, "]"); return s;
}
enum { NZOO = 30 };
static inline mxArray *zoo(int k) {
  static const double v[] = {1, 2, 3, 2, 1, 1}; mxArray *a; const char *nm[] = {"a", "b"};
  switch (k) {
    case 0: return sc(1); case 1: return sc(-1); case 2: return sc(0); case 3: return sc(2.5); case 4: return mx2(mxDOUBLE_CLASS, 0, 0, 0); case 5: return mx2(mxDOUBLE_CLASS, 2, 3, v); case 6: return mx2(mxDOUBLE_CLASS, 3, 1, v);
    case 7: return mx2(mxSINGLE_CLASS, 1, 3, v); case 8: return mx2(mxUINT8_CLASS, 2, 2, v); case 9: return mx2(mxUINT32_CLASS, 1, 3, v); case 10: return mx2(mxUINT32_CLASS, 4, 1, v); case 11: return mx2(mxINT8_CLASS, 1, 1, v);
    case 12: return str("Verbose"); case 13: return str("method"); case 14: return str(""); case 15: return mxCreateLogicalScalar(1); case 16: return mxCreateCellMatrix(1, 2); case 17: return mxCreateStructMatrix(1, 1, 2, nm);
    case 18: a = mxCreateSparse(4, 5, 3, mxREAL); { double *p = mxGetPr(a); mwIndex *ir = mxGetIr(a), *jc = mxGetJc(a); for (int i = 0; i < 3; i++) { p[i] = 1 + i; ir[i] = i; } for (int j = 0; j <= 5; j++) jc[j] = j > 3 ? 3 : j; } return a;
    case 19: a = mxCreateNumericMatrix(2, 2, mxDOUBLE_CLASS, mxCOMPLEX); return a; case 20: a = mxn(mxDOUBLE_CLASS, 3, 3, 3, 3); mxsv(a, 13, 5); return a; case 21: return mxn(mxUINT32_CLASS, 3, 2, 2, 2); case 22: return mxn(mxUINT32_CLASS, 4, 2, 1, 2, 2); case 23: return mx2(mxINT64_CLASS, 2, 2, v); case 24: return mx2(mxUINT32_CLASS, 0, 3, 0);
    case 25: return mx2(mxINT32_CLASS, 2, 3, v); case 26: return mx2(mxSINGLE_CLASS, 2, 3, v); case 27: return mx2(mxUINT8_CLASS, 2, 0, 0); case 28: return mxn(mxSINGLE_CLASS, 3, 3, 4, 3); default: return mxCreateSparse(1, 1, 0, mxREAL);
  }
}
/* not a plain array of numbers or characters */
static inline int odd(const mxArray *a) { return mxIsSparse(a) || mxIsStruct(a) || mxIsCell(a); }
/* Runs fn with every number of arguments and results, and with every one and every pair of the nin arguments replaced.
   ok[] marks the arguments that may be structures or cells. */
static inline void try_all(const char *name, mexfn fn, int lo, int hi, int no, mxArray **in, int n, unsigned structok) {
  mxArray *out[8]; int nin = mc_choose(n + 2), nout = mc_choose(no + 2);
  in[n] = sc(1);
  int r = mex_call(fn, nout, out, nin, in);
  if (nin < lo || (hi >= 0 && nin > hi) || nout > no) MC_CHECK("arguments", r == 1, "%s accepts %d arguments and %d results", name, nin, nout);
  if (nin < lo || nin > n || nout < (no ? 1 : 0) || (nout != no && nout != 1)) return;
  if (nin == n && nout == no) MC_CHECK("arguments", r == 0, "%s rejects valid arguments: %s", name, mex_message);
  for (int a = 0; a < nin; a++) for (int x = 0; x < NZOO; x++) for (int b = a; b < nin; b++) for (int y = 0; y < (b == a ? 1 : mc_asan && !mc_thorough ? 1 : NZOO); y++) {
    mxArray *sa = in[a], *sb = in[b]; in[a] = zoo(x); if (b > a) in[b] = zoo(mc_asan && !mc_thorough ? (x * 7 + 3 * b + a) % NZOO : y);
    mc_note("%s: arguments %d of kind %d and %d of kind %d", name, a + 1, x, b + 1, b > a ? (mc_asan && !mc_thorough ? (x * 7 + 3 * b + a) % NZOO : y) : x);
    r = mex_call(fn, nout, out, nin, in); mc_case(1);
    int sp = 0; for (int i = 0; i < nin; i++) sp |= odd(in[i]) && !(structok >> i & 1);
    if (sp) MC_CHECK("arguments", r == 1, "%s accepts a sparse array, a structure or a cell array (arguments %d and %d: kinds %d and %d)", name, a + 1, b + 1, x, y);
    in[a] = sa; in[b] = sb;
  }
}
#endif
