/* C22: SVM losses, conjugates, derivatives and dual coordinate updates; custom functions. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/svm.h>
typedef double (*f2)(double, double); typedef double (*f4)(double, double, double, double);
static f2 const LF[] = {vl_svm_hinge_loss, vl_svm_hinge2_loss, vl_svm_l1_loss, vl_svm_l2_loss, vl_svm_logistic_loss};
static f2 const DF[] = {vl_svm_hinge_loss_derivative, vl_svm_hinge2_loss_derivative, vl_svm_l1_loss_derivative, vl_svm_l2_loss_derivative, vl_svm_logistic_loss_derivative};
static f2 const CF[] = {vl_svm_hinge_conjugate_loss, vl_svm_hinge2_conjugate_loss, vl_svm_l1_conjugate_loss, vl_svm_l2_conjugate_loss, vl_svm_logistic_conjugate_loss};
static f4 const UF[] = {vl_svm_hinge_dca_update, vl_svm_hinge2_dca_update, vl_svm_l1_dca_update, vl_svm_l2_dca_update, vl_svm_logistic_dca_update};
static VlSvmLossType const LT[] = {VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL1, VlSvmLossL2, VlSvmLossLogistic};
static char const *const name[] = {"hinge", "hinge2", "l1", "l2", "logistic"};
static double rloss(int l, double z, double y) { switch (l) { case 0: return y*z < 1 ? 1 - y*z : 0; case 1: return y*z < 1 ? (1-y*z)*(1-y*z) : 0; case 2: return fabs(y-z); case 3: return (y-z)*(y-z); default: return y*z > 0 ? log1p(exp(-y*z)) : -y*z + log1p(exp(y*z)); } }
/* the largest feasible interval of y*u */
static int feasible(int l, double u, double y) { double z = y*u; switch (l) { case 0: case 4: return -1 <= z && z <= 0; case 1: return z <= 0; case 2: return fabs(u) <= 1; default: return 1; } }
static double xlx(double x) { return x > 0 ? x*log(x) : 0; }
static double rconj(int l, double u, double y) { if (!feasible(l, u, y)) return INFINITY; switch (l) { case 0: case 2: return y*u; case 1: case 3: return y*u + u*u/4; default: return xlx(-y*u) + xlx(1+y*u); } }
static double const reg[] = {-2.5, -1, 0, 0.5, 1, 3};
static double const zs[] = {-1e4, -800, -100, -36.8, -20, -5, -3, -2.25, -2, -1.0000001, -1, -0.75, -0.5, -1e-9, 0, 1e-9, 0.25, 0.5, 0.9999999, 1, 1.0000001, 1.5, 2, 3, 4.5, 7, 20, 36.8, 100, 800, 1e4};
static double const us[] = {-50, -6, -2.5, -1.0000001, -1, -0.9999999, -0.99, -0.75, -0.5, -0.125, -1e-3, -1e-7, 0, 1e-7, 1e-3, 0.0625, 0.3, 0.5, 0.9, 0.9999999, 1, 1.0000001, 1.7, 4, 50};
static int L; static double Y;
static int pick(void) { L = mc_choose(5); Y = (L == 2 || L == 3) ? reg[mc_choose(MC_LEN(reg))] : mc_choose(2) ? 1 : -1; mc_note("%s label %g", name[L], Y); return 0; }
/* the loss and its derivative */
static void losses(void) { int i, k; pick();
  for (i = 0; i < MC_LEN(zs); ++i) for (k = -2; k <= 2; ++k) { double z = zs[i] + k * 0.0625, l, d; int j; l = LF[L](z, Y); d = DF[L](z, Y); mc_ops(2);
    MC_CHECK("loss", mc_close(l, rloss(L, z, Y), 1e-12, 1e-12), "%s loss of %.9g, label %g: %.12g, expected %.12g", name[L], z, Y, l, rloss(L, z, Y));
    /* the derivative is a subgradient */
    for (j = 0; j < MC_LEN(zs); ++j) { double w = zs[j], m = LF[L](w, Y); MC_CHECK("subgradient", m >= l + d*(w-z) - 1e-9*(1+fabs(l)+fabs(m)+fabs(d*(w-z))), "%s label %g: the loss at %g is %g, below the line through %g with slope %g (%g)", name[L], Y, w, m, z, d, l + d*(w-z)); }
    { double h = 1e-5*(1+fabs(z)), lo = (rloss(L,z,Y)-rloss(L,z-h,Y))/h, hi = (rloss(L,z+h,Y)-rloss(L,z,Y))/h; MC_CHECK("derivative", d >= lo - 1e-4*(1+fabs(d)) && d <= hi + 1e-4*(1+fabs(d)), "%s label %g: derivative at %g is %g, not in [%g,%g]", name[L], Y, z, d, lo, hi); }
    mc_case(1); mc_state(mc_hash(i*8+k, &l, 8)); } }
/* conjugates */
static void conjugates(void) { int i, j; pick();
  for (i = 0; i < MC_LEN(us); ++i) { double u = us[i], c = CF[L](u, Y), r = rconj(L, u, Y), z; mc_op(); mc_case(1); mc_state(mc_hash(i, &c, 8));
    MC_CHECK("conjugate", mc_close(c, r, 1e-8, 1e-12), "%s label %g: the conjugate of %.9g is %g, expected %g", name[L], Y, u, c, r);
    for (j = 0; j < MC_LEN(zs); ++j) { double l = LF[L](zs[j], Y); MC_CHECK("fenchel-young", l + c >= zs[j]*u - 1e-8*(1+fabs(l)+fabs(zs[j]*u)), "%s label %g: loss(%g)+conjugate(%g) = %g < %g", name[L], Y, zs[j], u, l+c, zs[j]*u); }
    if (isinf(c)) continue;
    /* attained */
    switch (L) { case 0: z = Y; break; case 1: case 3: z = Y + u/2; break; case 2: z = Y; break; default: z = Y * log((1+Y*u)/(-Y*u)); }
    if (isfinite(z)) { double l = LF[L](z, Y); MC_CHECK("tight", mc_close(l + c, z*u, 1e-7, 1e-9), "%s label %g: loss(%g)+conjugate(%g) = %g, expected %g", name[L], Y, z, u, l + c, z*u); } }
  for (j = 0; j < MC_LEN(zs); ++j) { double z = zs[j], u = DF[L](z, Y), c = CF[L](u, Y), l = LF[L](z, Y); MC_CHECK("equality", mc_close(l + c, z*u, 1e-8, 1e-9) || mc_close(l + c - z*u, 0, 1e-7*(1+fabs(z*u)), 0), "%s label %g: at z %g and slope %g loss+conjugate = %g, expected %g", name[L], Y, z, u, l + c, z*u); } }
/* the dual update */
static double phi(double A, double B, double al, double d) { double c = rconj(L, -al-d, Y); return -A/2*d*d - B*d - c; }
static double const As[] = {1e-4, 0.03, 0.25, 1, 2, 7.5, 100, 1e4};
static double const als[] = {0, 1e-6, 0.02, 0.1, 0.25, 0.5, 0.75, 0.99, 1 - 1e-6, 1, 1.5, 4};
static void dual(void) { int a, b, k; pick(); a = mc_choose(MC_LEN(As) + 1);
  for (k = 0; k < 2 * MC_LEN(als); ++k) { double al = (k % 2 ? -1 : 1) * als[k/2], A = a < MC_LEN(As) ? As[a] : 0; if (!feasible(L, -al, Y)) continue;
    for (b = 0; b < MC_LEN(zs); ++b) { double B = zs[b], d, lo, hi, best, f; int it; if (A == 0) { if (B != 0 || L == 3 || L == 1) continue; } if (fabs(B) > 1000) continue;
      d = UF[L](al, B, A, Y); mc_op(); mc_case(1); mc_state(mc_hash(b, &d, 8));
      MC_CHECK("update-finite", isfinite(d), "%s update(alpha %g, inner %g, norm2 %g, label %g) is %g", name[L], al, B, A, Y, d);
      { double n = al + d, e = 1e-9; MC_CHECK("update-feasible", feasible(L, -n, Y) || feasible(L, -n*(1-e), Y) || feasible(L, -n - e, Y) || feasible(L, -n + e, Y), "%s update(alpha %g, inner %g, norm2 %g, label %g) is %.17g, leaving the feasible range", name[L], al, B, A, Y, d); if (!feasible(L, -n, Y)) d = (fabs(n) < 0.5 ? 0 : n > 0 ? 1 : -1) - al; }
      /* maximise the concave function by ternary search on its feasible interval */
      switch (L) { case 0: case 4: lo = Y > 0 ? 0 : -1; hi = lo + 1; break; case 1: lo = Y > 0 ? 0 : -1e5; hi = Y > 0 ? 1e5 : 0; break; case 2: lo = -1; hi = 1; break; default: lo = -1e5; hi = 1e5; }
      lo -= al; hi -= al; for (it = 0; it < 400; ++it) { double m1 = lo + (hi-lo)/3, m2 = hi - (hi-lo)/3; if (phi(A, B, al, m1) < phi(A, B, al, m2)) lo = m1; else hi = m2; }
      best = phi(A, B, al, (lo+hi)/2); { double e[2] = {lo, hi}; int q; for (q = 0; q < 2; ++q) if (phi(A, B, al, e[q]) > best) best = phi(A, B, al, e[q]); }
      f = phi(A, B, al, d);
      MC_CHECK("update", f >= best - 1e-8*(1 + fabs(best)), "%s update(alpha %g, inner %g, norm2 %g, label %g) is %.9g: dual increment %.12g, the maximum is %.12g (at %.9g)", name[L], al, B, A, Y, d, f, best, (lo+hi)/2);
      MC_CHECK("update-increase", f >= phi(A, B, al, 0) - 1e-9*(1+fabs(f)), "%s update(alpha %g, inner %g, norm2 %g, label %g) decreases the dual", name[L], al, B, A, Y); } } }
/* which functions training uses */
static long calls[4];
static double Cl(double z, double y) { calls[0]++; return 2.5*(y-z)*(y-z) + 1; }
static double Cd(double z, double y) { calls[1]++; return 5*(z-y) + 0.0*z; }
static double Cc(double u, double y) { calls[2]++; return y*u + u*u/10 - 1; }
static double Cu(double al, double z, double n2, double y) { calls[3]++; return 0.125 + 0*(al+z+n2+y); }
static void custom(void) {
  int mask = mc_choose(16), order = mc_choose(2), l = mc_choose(5), solver = mc_choose(3), ep, i; double lam = mc_choose(2) ? 0.5 : 0.125, x[4] = {1, 0.5, -1, 2}, y[2] = {1, -1}, w[2] = {0.25, -0.5}; VlSvm *s; VlSvmStatistics const *st; double loss = 0, dl = 0, al[2] = {0, 0}; long live; (void)ep;
  vl_get_rand(); vl_rand_seed(vl_get_rand(), 1); live = mc_live; memset(calls, 0, sizeof calls);
  s = vl_svm_new((VlSvmSolverType)solver, x, 2, mc_choose(2) + 1, y, lam); i = (int)vl_svm_get_num_data(s);
  mc_note("mask %d order %d loss %s solver %d lambda %g n %d", mask, order, name[l], solver, lam, i);
  if (order == 0) vl_svm_set_loss(s, LT[l]);
  if (mask & 1) vl_svm_set_loss_function(s, Cl); if (mask & 2) vl_svm_set_loss_derivative_function(s, Cd); if (mask & 4) vl_svm_set_conjugate_loss_function(s, Cc); if (mask & 8) vl_svm_set_dca_update_function(s, Cu);
  if (order == 1) { vl_svm_set_loss(s, LT[l]); mask = 0; }
  vl_svm_set_max_num_iterations(s, 1); vl_svm_set_bias_multiplier(s, 0);
  if (solver != 2) { vl_svm_set_model(s, w); }
  vl_svm_train(s); mc_op(); st = vl_svm_get_statistics(s);
  { int n = i, k, j; double const *m = vl_svm_get_model(s); double sc[2];
    if (solver == 2) { /* one dual step from zero on one datum: either */ double d[2], e0 = INFINITY; int hit = -1; for (k = 0; k < n; ++k) { double n2 = (x[2*k]*x[2*k]+x[2*k+1]*x[2*k+1])/(lam*n), e; d[k] = mask & 8 ? 0.125 : UF[l](0, 0, n2, y[k]); e = fabs(m[0] - x[2*k]*d[k]/(lam*n)) + fabs(m[1] - x[2*k+1]*d[k]/(lam*n)); if (e < e0) { e0 = e; hit = k; } } MC_CHECK("dca-used", hit >= 0 && e0 < 1e-12, "the model after a step is not that of the dual update function"); al[hit] = d[hit]; }
    else if (solver == 1) { double t0 = lam == 0.5 ? 2 : 8, rate = 1/(lam*t0), e0 = INFINITY; for (k = 0; k < n; ++k) { double z = w[0]*x[2*k]+w[1]*x[2*k+1], g = mask & 2 ? 5*(z-y[k]) : DF[l](z, y[k]), e = 0; for (j = 0; j < 2; ++j) e += fabs(m[j] - (w[j]*(1-lam*rate) - rate*g*x[2*k+j])); if (e < e0) e0 = e; } MC_CHECK("derivative-used", e0 < 1e-12, "the model after a step is not that of the loss derivative function"); }
    else MC_CHECK("evaluate", m[0] == w[0] && m[1] == w[1], "evaluating changed the model");
    for (k = 0; k < n; ++k) { sc[k] = m[0]*x[2*k]+m[1]*x[2*k+1]; loss += (mask & 1 ? 2.5*(y[k]-sc[k])*(y[k]-sc[k])+1 : rloss(l, sc[k], y[k])) / n; dl -= (mask & 4 ? -y[k]*al[k] + al[k]*al[k]/10 - 1 : rconj(l, -al[k], y[k])) / n; }
    MC_CHECK("loss-used", mc_close(st->loss, loss, 1e-12, 1e-9), "the loss is %g, that of the loss function %g", st->loss, loss);
    if (solver == 2) MC_CHECK("conjugate-used", mc_close(st->dualLoss, dl, 1e-8, 1e-9), "the dual loss is %g, that of the conjugate function %g", st->dualLoss, dl);
    mc_state(mc_hash(1, &st->objective, 8)); }
  vl_svm_delete(s); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
mc_suite mc_suites[] = {
 {"losses", losses, "5 losses x all labels (+-1 or 6 real) x 155 scores from -1e4 to 1e4: value, one-sided derivatives, subgradient inequality against 31 scores"},
 {"conjugates", conjugates, "5 losses x all labels x 25 slopes (inside, outside, at and near the ends of the feasible range) x 31 scores"},
 {"dual", dual, "5 losses x all labels x 9 square norms x up to 24 dual variables x 27 scores: the update against the maximum of the one-coordinate dual found by ternary search"},
 {"custom", custom, "16 subsets of replaced functions x set before/after vl_svm_set_loss x 5 losses x 3 solvers x 2 lambdas x 1..2 data: one step"},
 {0}};
