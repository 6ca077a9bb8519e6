/* C21: SVM training (SDCA, SGD), evaluation, statistics, and the data sets behind it. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/svm.h>
#include <vl/random.h>
static VlSvmLossType const LT[] = {VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL1, VlSvmLossL2, VlSvmLossLogistic};
static char const *const name[] = {"hinge", "hinge2", "l1", "l2", "logistic"};
static double rloss(int l, double z, double y) { switch (l) { case 0: return y*z < 1 ? 1 - y*z : 0; case 1: return y*z < 1 ? (1-y*z)*(1-y*z) : 0; case 2: return fabs(y-z); case 3: return (y-z)*(y-z); default: return y*z > 0 ? log1p(exp(-y*z)) : -y*z + log1p(exp(y*z)); } }
static double xlx(double x) { return x > 0 ? x*log(x) : 0; }
static double rconj(int l, double u, double y) { double z = y*u, e = 1e-9; switch (l) { case 0: return z < -1-e || z > e ? INFINITY : z; case 4: return z < -1-e || z > e ? INFINITY : xlx(-z) + xlx(1+z); case 1: return z > e ? INFINITY : z + u*u/4; case 2: return fabs(u) > 1+e ? INFINITY : z; default: return z + u*u/4; } }
#define MAXN 8
#define MAXD 6
static int n, d, L, S; static double X[MAXN*MAXD], Y[MAXN], Wt[MAXN], lam, B, eps; static int weighted; static VlSvm *svm;
/* the dual variables seen through the data functions: what is accumulated to the model */
static double al[MAXN]; static long inner_calls, acc_calls, bad_index;
static double inner(const void *data, vl_uindex i, double *m) { double s = 0; int j; (void)data; ++inner_calls; if (i >= (vl_uindex)n) { bad_index = 1; return 0; } for (j = 0; j < d; ++j) s += X[i*d+j]*m[j]; return s; }
static void acc(const void *data, vl_uindex i, double *m, double mult) { int j; (void)data; ++acc_calls; if (i >= (vl_uindex)n) { bad_index = 1; return; } if (m == vl_svm_get_model(svm)) al[i] += mult*n*lam; for (j = 0; j < d; ++j) m[j] += mult*X[i*d+j]; }
static double dprev; static long diags; static int diagfreq, maxit, lstatus; static long itprev; static VlSvmStatistics last;
static double wt(int i) { return weighted ? Wt[i] : 1; }
/* the reported numbers are those of the model, the bias and the dual variables */
static void check_stats(VlSvm *s) {
  VlSvmStatistics const *t = vl_svm_get_statistics(s); double const *m = vl_svm_get_model(s), *sc = vl_svm_get_scores(s); double b = vl_svm_get_bias(s), wb = B ? b/B : 0, reg = wb*wb, loss = 0, dl = 0, tol = 1e-9, big = 1; int i, j;
  for (j = 0; j < d; ++j) { MC_CHECK("finite", isfinite(m[j]), "the model has the component %g", m[j]); reg += m[j]*m[j]; } reg *= lam/2;
  for (i = 0; i < n; ++i) { double z = b, mag = 1 + fabs(b); for (j = 0; j < d; ++j) z += m[j]*X[i*d+j], mag += fabs(m[j]*X[i*d+j]); MC_CHECK("score", mc_close(sc[i], z, 1e-9*mag, 1e-9), "the score of datum %d is %.12g, inner product and bias make %.12g", i, sc[i], z); if (mag > big) big = mag; if (wt(i) <= 0) continue; loss += wt(i)*rloss(L, z, Y[i]); if (S == 2) dl -= wt(i)*rconj(L, -al[i]/wt(i), Y[i]); }
  loss /= n; dl /= n; tol *= big*big;
  MC_CHECK("regularizer", mc_close(t->regularizer, reg, tol, tol), "the regularizer is %.12g, expected %.12g", t->regularizer, reg);
  MC_CHECK("loss", mc_close(t->loss, loss, tol, 1e-8), "the loss is %.12g, expected %.12g", t->loss, loss);
  MC_CHECK("objective", mc_close(t->objective, reg + loss, tol, 1e-8), "the objective is %.12g, expected %.12g", t->objective, reg + loss);
  if (S == 2) { double D = -reg + dl;
    for (j = 0; j < d; ++j) { double w = 0; for (i = 0; i < n; ++i) w += X[i*d+j]*al[i]/(lam*n); MC_CHECK("model", mc_close(m[j], w, 1e-9, 1e-9), "component %d of the model is %.12g, the dual variables make %.12g", j, m[j], w); }
    { double w = 0; for (i = 0; i < n; ++i) w += B*al[i]/(lam*n); MC_CHECK("bias", mc_close(b, w*B, 1e-9, 1e-9), "the bias is %.12g, the dual variables make %.12g", b, w*B); }
    MC_CHECK("dual-feasible", isfinite(dl), "the dual variables are not feasible");
    MC_CHECK("dual", mc_close(t->dualLoss, dl, 1e-8, 1e-8) && mc_close(t->dualObjective, D, 1e-8, 1e-8), "dual loss and objective are %.12g %.12g, expected %.12g %.12g", t->dualLoss, t->dualObjective, dl, D);
    MC_CHECK("gap", mc_close(t->dualityGap, reg + loss - D, 1e-8, 1e-8), "the duality gap is %.12g, expected %.12g", t->dualityGap, reg + loss - D);
    MC_CHECK("weak-duality", t->dualityGap >= -1e-8, "the duality gap is %g", t->dualityGap);
    MC_CHECK("ascent", D >= dprev - 1e-8*(1+fabs(dprev)), "the dual objective went from %.12g to %.12g", dprev, D); dprev = D; }
  else MC_CHECK("no-dual", t->dualObjective == 0 && t->dualLoss == 0 && t->dualityGap == 0, "a primal solver reports a dual objective");
  mc_state(mc_hash(i, &t->objective, 8)); }
static void diag(VlSvm *s, void *data) { VlSvmStatistics const *t = vl_svm_get_statistics(s); MC_CHECK("diag-data", data == (void*)&diags && s == svm, "the diagnostic function got other arguments"); ++diags; mc_op(); mc_case(1);
  check_stats(s);
  if (S) { MC_CHECK("diag-iteration", ((long)t->iteration + 1) % diagfreq == 0 || (long)t->iteration + 1 == (maxit ? maxit : 1), "diagnostic at iteration %ld, the frequency is %d", (long)t->iteration, diagfreq); MC_CHECK("diag-iteration", (long)t->iteration > itprev && (long)t->iteration <= itprev + diagfreq, "the diagnostic skipped from iteration %ld to %ld", itprev, (long)t->iteration); MC_CHECK("epoch", t->epoch == t->iteration / n, "iteration %ld is in epoch %ld", (long)t->iteration, (long)t->epoch); }
  MC_CHECK("training", lstatus == VlSvmStatusTraining, "training went on after the status %d", lstatus);
  itprev = t->iteration; lstatus = t->status; last = *t; }
static void check_end(void) { VlSvmStatistics const *t = vl_svm_get_statistics(svm); MC_CHECK("indexes", !bad_index, "a datum out of range was used"); MC_CHECK("diag-last", diags > 0 && !memcmp(&last, t, sizeof last), "the last diagnostic is not the final one");
  check_stats(svm);
  if (S == 2) { if (t->status == VlSvmStatusConverged) MC_CHECK("converged", t->dualityGap < eps, "converged with the gap %g", t->dualityGap); else { MC_CHECK("status", t->status == VlSvmStatusMaxNumIterationsReached && (long)t->iteration + 1 == (maxit ? maxit : 1), "status %d at iteration %ld", t->status, (long)t->iteration); MC_CHECK("status", t->dualityGap >= eps, "not converged with the gap %g", t->dualityGap); } }
  if (S == 1) { if (t->status == VlSvmStatusConverged) MC_CHECK("converged", t->scoresVariation < eps, "converged with the variation %g", t->scoresVariation); else MC_CHECK("status", t->status == VlSvmStatusMaxNumIterationsReached && (long)t->iteration + 1 == (maxit ? maxit : 1) && t->scoresVariation >= eps, "status %d at iteration %ld", t->status, (long)t->iteration); } }
static void reset(void) { memset(al, 0, sizeof al); inner_calls = acc_calls = bad_index = 0; dprev = -INFINITY; diags = 0; itprev = -1; lstatus = VlSvmStatusTraining; }
static double const vals[] = {0, 1, -0.5, 2};
static double const regl[] = {-2, 0, 0.5, 1};
/* data: all small ones */
static void data(void) { int i, j; n = 1 + mc_choose(3); d = n == 1 ? 1 + mc_choose(2) : 1 + (n == 2 && mc_choose(2)); L = mc_choose(5);
  for (i = 0; i < n; ++i) for (j = 0; j < d; ++j) X[i*d+j] = vals[mc_choose(n*d > 2 ? 3 : 4)];
  for (i = 0; i < n; ++i) Y[i] = L == 2 || L == 3 ? regl[mc_choose(n > 2 ? 3 : 4)] : mc_choose(2) ? 1 : -1; }
static void note(void) { int i; if (!mc_verbose) return; mc_note("n %d d %d loss %s lambda %g B %g eps %g weighted %d solver %d", n, d, name[L], lam, B, eps, weighted, S); for (i = 0; i < n*d; ++i) mc_note("x[%d]=%g", i, X[i]); for (i = 0; i < n; ++i) mc_note("y[%d]=%g w %g", i, Y[i], wt(i)); }
static void sdca(void) {
  long live; int mode; data(); S = 2; lam = mc_choose(2) ? 0.5 : 0.02; B = mc_choose(2) ? 0 : mc_choose(MC_TIER(1, 2)) ? 1 : 2.5; weighted = mc_choose(2); eps = weighted ? 1e-5 : 1e-2; Wt[0] = 2; Wt[1] = n > 2 ? 0 : 0.5; Wt[2] = 0.25; mode = mc_choose(3); note();
  diagfreq = mode == 1 ? 1 : n; maxit = mode == 2 ? mc_choose(3) : 300; if (mode == 1) eps = 0;  if (mode == 1) maxit = 3*n + 1; mc_note("frequency %d max %d", diagfreq, maxit);
  vl_rand_seed(vl_get_rand(), 7); live = mc_live; reset();
  svm = vl_svm_new_with_abstract_data(VlSvmSolverSdca, 0, d, n, Y, lam); vl_svm_set_data_functions(svm, inner, acc); vl_svm_set_loss(svm, LT[L]); vl_svm_set_bias_multiplier(svm, B); vl_svm_set_epsilon(svm, eps); vl_svm_set_max_num_iterations(svm, maxit); vl_svm_set_diagnostic_frequency(svm, diagfreq); vl_svm_set_diagnostic_function(svm, diag, &diags); if (weighted) vl_svm_set_weights(svm, Wt);
  vl_svm_train(svm); mc_op(); check_end();
  vl_svm_delete(svm); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* training again goes on from the current solution */
static void resume(void) {
  int r; long live; data(); S = 2; lam = 0.1; B = mc_choose(2); weighted = 0; eps = 1e-9; note(); vl_get_rand(); live = mc_live; reset(); diagfreq = 1;
  svm = vl_svm_new_with_abstract_data(VlSvmSolverSdca, 0, d, n, Y, lam); vl_svm_set_data_functions(svm, inner, acc); vl_svm_set_loss(svm, LT[L]); vl_svm_set_bias_multiplier(svm, B); vl_svm_set_epsilon(svm, eps); vl_svm_set_diagnostic_frequency(svm, 1); vl_svm_set_diagnostic_function(svm, diag, &diags);
  for (r = 0; r < 4; ++r) { vl_rand_seed(vl_get_rand(), r); maxit = r < 3 ? 2 + r : 400; vl_svm_set_max_num_iterations(svm, maxit); itprev = -1; lstatus = VlSvmStatusTraining; diags = 0; vl_svm_train(svm); mc_op(); check_end(); }
  /* every loss is solved to high precision, non smooth ones a bit less */
  MC_CHECK("precision", last.dualityGap < (L == 0 || L == 2 ? 0.15 : 1e-4), "the gap is %g after 400 iterations", last.dualityGap);
  vl_svm_delete(svm); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* SGD against its definition */
static double rder(int l, double z, double y) { switch (l) { case 0: return y*z < 1 ? -y : 0; case 1: return y*z < 1 ? 2*(z-y) : 0; case 2: return y > z ? -1 : 1; case 3: return 2*(z-y); default: return -y/(1+exp(y*z)); } }
static void sgd(void) {
  static double const BLR[] = {0.01, 1, 0.3}; double w[MAXD] = {0}, wb = 0, blr, sc[MAXN], psc[MAXN]; vl_index perm[MAXN]; VlRand *rnd, my; int i, j, t, warm, T, amb = 0, moved = 0; double peak = 1; long live; VlSvmStatistics const *st;
  data(); S = 1; { static double const ls[] = {0.3, 0.05, 0.7}; lam = ls[mc_choose(3)]; } B = mc_choose(2) ? 0 : 1 + 2*mc_choose(MC_TIER(1, 2)); weighted = n > 1 && mc_choose(2); Wt[0] = 2; Wt[1] = 0.5; Wt[2] = 0; blr = BLR[B ? mc_choose(2) : 0]; warm = mc_choose(3); eps = mc_choose(2) ? 1e-12 : 0.3; T = maxit = eps > 0.1 ? 40 : 3*n + 2; diagfreq = n; note(); mc_note("bias learning rate %g warm %d max %d", blr, warm, maxit);
  rnd = vl_get_rand(); vl_rand_seed(rnd, 5); vl_rand_init(&my); vl_rand_seed(&my, 5); live = mc_live; reset();
  svm = vl_svm_new_with_abstract_data(VlSvmSolverSgd, 0, d, n, Y, lam); vl_svm_set_data_functions(svm, inner, acc); vl_svm_set_loss(svm, LT[L]); vl_svm_set_bias_multiplier(svm, B); vl_svm_set_bias_learning_rate(svm, blr); vl_svm_set_epsilon(svm, eps); vl_svm_set_max_num_iterations(svm, maxit); vl_svm_set_diagnostic_function(svm, diag, &diags); if (weighted) vl_svm_set_weights(svm, Wt);
  MC_CHECK("frequency", (int)vl_svm_get_diagnostic_frequency(svm) == n, "the default diagnostic frequency is %d", (int)vl_svm_get_diagnostic_frequency(svm));
  if (warm) { for (j = 0; j < d; ++j) w[j] = 0.3 - 0.7*j; vl_svm_set_model(svm, w); if (B) { wb = 0.4; vl_svm_set_bias(svm, wb*B); } } if (warm == 2) vl_svm_set_iteration_number(svm, 50);
  vl_svm_train(svm); mc_op(); check_end(); st = vl_svm_get_statistics(svm);
  MC_CHECK("first-epochs", st->status != VlSvmStatusConverged || (int)st->iteration + 1 >= 2*n, "convergence was declared at iteration %d, before each of the %d data was visited twice", (int)st->iteration, n);
  for (i = 0; i < n; ++i) { perm[i] = i; sc[i] = psc[i] = 0; }
  T = (int)st->iteration + 1;
  for (t = 0; t < T; ++t) { double t0 = ceil(1/lam), rate, z, g, bz; if (t0 < 2) t0 = 2; if (t % n == 0) vl_rand_permute_indexes(&my, perm, n); i = perm[t % n]; bz = z = B*wb; for (j = 0; j < d; ++j) z += w[j]*X[i*d+j]; (void)bz;
    if (L == 0 || L == 1 || L == 2) { double e; if (wb != 0 || w[0] != 0 || (d > 1 && w[1] != 0)) moved = 1; e = (L == 2 ? z - Y[i] : Y[i]*z - 1); if (fabs(e) < 1e-9*peak && moved) amb = 1; }
    psc[i] = sc[i]; sc[i] = z; if (fabs(z) > peak) peak = fabs(z); g = (weighted ? Wt[i] : 1)*rder(L, z, Y[i]); rate = 1/(lam*((warm == 2 ? 50 : 0) + t + t0));
    for (j = 0; j < d; ++j) w[j] = (1 - lam*rate)*w[j] - rate*g*X[i*d+j]; wb = (1 - lam*rate*blr)*wb - rate*blr*g*B; if (fabs(wb) > peak) peak = fabs(wb); for (j = 0; j < d; ++j) if (fabs(w[j]) > peak) peak = fabs(w[j]); }
  if (!amb) { double v = 0; for (j = 0; j < d; ++j) MC_CHECK("sgd", mc_close(vl_svm_get_model(svm)[j], w[j], 1e-9*peak, 1e-8), "after %d steps component %d of the model is %.12g, expected %.12g", T, j, vl_svm_get_model(svm)[j], w[j]); MC_CHECK("sgd", mc_close(vl_svm_get_bias(svm), wb*B, 1e-9*peak, 1e-8), "after %d steps the bias is %.12g, expected %.12g", T, vl_svm_get_bias(svm), wb*B);
    if (T >= 2*n) { for (i = 0; i < n; ++i) v += (sc[i]-psc[i])*(sc[i]-psc[i]); v = sqrt(v)/n; MC_CHECK("variation", mc_close(st->scoresVariation, v, 1e-9*peak, 1e-8), "the variation of the scores is %.12g, expected %.12g", st->scoresVariation, v); } }
  mc_state(mc_hash(T, w, 8*d)); vl_svm_delete(svm); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* evaluation of a given model */
static void evaluate(void) {
  double m[MAXD], b; int j; long live; data(); S = 0; lam = 0.3; B = mc_choose(2) ? 2 : 1; weighted = mc_choose(2); Wt[0] = 0; Wt[1] = 3; Wt[2] = -1; for (j = 0; j < d; ++j) m[j] = vals[mc_choose(4)]; b = vals[mc_choose(3)]; note(); vl_get_rand(); live = mc_live; reset();
  svm = vl_svm_new(VlSvmSolverNone, X, d, n, Y, lam); vl_svm_set_loss(svm, LT[L]); vl_svm_set_bias_multiplier(svm, B); vl_svm_set_model(svm, m); vl_svm_set_bias(svm, b); if (weighted) vl_svm_set_weights(svm, Wt); vl_svm_set_diagnostic_function(svm, diag, &diags); vl_svm_train(svm); mc_op();
  MC_CHECK("bias-set", vl_svm_get_bias(svm) == b && !memcmp(vl_svm_get_model(svm), m, 8*d), "the model or the bias is not the one set"); check_stats(svm); MC_CHECK("status", vl_svm_get_statistics(svm)->status == VlSvmStatusConverged && diags == 1, "status %d, %ld diagnostics", vl_svm_get_statistics(svm)->status, diags);
  vl_svm_delete(svm); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* data sets */
static double const hv[] = {0, 1, -0.5, 0.25, 3, -2};
static void dataset(void) {
  int fl = mc_choose(2), h = mc_choose(5), i, j, k, hd = 1, D, e; double ex[MAXN*MAXD*8], m[MAXD*8], *gm; void *buf; VlHomogeneousKernelMap *hom = 0; VlSvmDataset *ds; long live = (vl_get_rand(), mc_live); n = 1 + mc_choose(3); d = 1 + mc_choose(3);
  buf = mc_galloc(n*d*(fl ? 4 : 8)); for (i = 0; i < n*d; ++i) { double v = hv[(i*5 + i/2 + mc_choose(i < 2 ? 6 : 1)) % 6]; X[i] = v; if (fl) ((float*)buf)[i] = v; else ((double*)buf)[i] = v; }
  mc_note("float %d map %d n %d d %d x %g %g", fl, h, n, d, X[0], X[1]);
  ds = vl_svmdataset_new(fl ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, buf, d, n);
  MC_CHECK("plain", vl_svmdataset_get_homogeneous_kernel_map(ds) == 0 && (int)vl_svmdataset_get_dimension(ds) == d, "a new data set has a map or a wrong dimension");
  if (h == 4) { /* replace a map, then remove it */ hom = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, 2, -1, VlHomogeneousKernelMapWindowUniform); vl_svmdataset_set_homogeneous_kernel_map(ds, hom); vl_svmdataset_set_homogeneous_kernel_map(ds, hom); vl_svmdataset_set_homogeneous_kernel_map(ds, 0); vl_homogeneouskernelmap_delete(hom); hom = 0; }
  else if (h) { if (h == 3) { hom = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, 0, -1, VlHomogeneousKernelMapWindowUniform); vl_svmdataset_set_homogeneous_kernel_map(ds, hom); vl_homogeneouskernelmap_delete(hom); } hom = vl_homogeneouskernelmap_new(h == 1 ? VlHomogeneousKernelIntersection : VlHomogeneousKernelJS, h == 2 ? 0.5 : 1, h - 1, -1, VlHomogeneousKernelMapWindowRectangular); hd = 2*(h-1)+1; vl_svmdataset_set_homogeneous_kernel_map(ds, hom); }
  D = d*hd; MC_CHECK("getters", (int)vl_svmdataset_get_dimension(ds) == D && (int)vl_svmdataset_get_num_data(ds) == n && vl_svmdataset_get_data(ds) == buf && vl_svmdataset_get_homogeneous_kernel_map(ds) == hom, "the getters of the data set do not return its parameters");
  for (i = 0; i < n*d; ++i) if (hom) vl_homogeneouskernelmap_evaluate_d(hom, ex + i*hd, 1, X[i]); else ex[i] = X[i];
  { VlSvmInnerProductFunction in = vl_svmdataset_get_inner_product_function(ds); VlSvmAccumulateFunction ac = vl_svmdataset_get_accumulate_function(ds); double tol = fl && hom ? 1e-5 : 1e-12;
    gm = mc_galloc(8*D);
    for (e = 0; e < n; ++e) for (k = 0; k < D + 3; ++k) { double mu = k % 3 == 0 ? -2 : k % 3 == 1 ? 0.5 : 1, r = 0; for (j = 0; j < D; ++j) gm[j] = m[j] = k < D ? j == k : k == D ? 0 : k == D+1 ? 1 + j : 3 - 2.5*j;
      for (j = 0; j < D; ++j) r += m[j]*ex[e*D+j]; { double z = in(ds, e, gm); mc_op(); MC_CHECK("inner", mc_close(z, r, tol*D*(1+8*D), 0), "inner product of datum %d: %.9g, expected %.9g", e, z, r); for (j = 0; j < D; ++j) MC_CHECK("inner-model", gm[j] == m[j], "the inner product changed the model"); mc_state(mc_hash(e*100+k, &z, 8)); }
      ac(ds, e, gm, mu); mc_op(); for (j = 0; j < D; ++j) MC_CHECK("accumulate", mc_close(gm[j], m[j] + mu*ex[e*D+j], tol*8*(1+fabs(m[j])), 0), "accumulating %g times datum %d: component %d is %.9g, expected %.9g", mu, e, j, gm[j], m[j] + mu*ex[e*D+j]); mc_case(1); }
    mc_gfree(gm); }
  for (i = 0; i < n*d; ++i) MC_CHECK("data", (fl ? ((float*)buf)[i] : ((double*)buf)[i]) == X[i], "the data were changed");
  /* training on the data set equals training on the explicit features */
  { int s, q; for (i = 0; i < n; ++i) Y[i] = i % 2 ? -1 : 1; for (s = 0; s < 3; ++s) { VlSvm *a[3]; for (q = 0; q < 3; ++q) { vl_rand_seed(vl_get_rand(), 3); if (q == 2) { svm = a[q] = vl_svm_new_with_abstract_data((VlSvmSolverType)s, ds, D, n, Y, 0.2); vl_svm_set_data_functions(a[q], vl_svmdataset_get_inner_product_function(ds), vl_svmdataset_get_accumulate_function(ds)); } else a[q] = q ? vl_svm_new_with_dataset((VlSvmSolverType)s, ds, Y, 0.2) : vl_svm_new((VlSvmSolverType)s, ex, D, n, Y, 0.2); vl_svm_set_loss(a[q], VlSvmLossLogistic); vl_svm_set_epsilon(a[q], 0); vl_svm_set_max_num_iterations(a[q], 4*n); if (s == 0) { vl_svm_set_model(a[q], m); vl_svm_set_bias(a[q], 0.5); }
      MC_CHECK("getters", (int)vl_svm_get_dimension(a[q]) == D && (int)vl_svm_get_num_data(a[q]) == n && vl_svm_get_solver(a[q]) == (VlSvmSolverType)s && vl_svm_get_lambda(a[q]) == 0.2, "the getters of the SVM do not return its parameters");
      vl_svm_train(a[q]); mc_op(); }
    for (q = 1; q < 3; ++q) { for (j = 0; j < D; ++j) MC_CHECK("train-model", mc_close(vl_svm_get_model(a[q])[j], vl_svm_get_model(a[0])[j], 1e-3*fl + 1e-9, 0), "solver %d: component %d of the model is %.9g, with explicit features %.9g", s, j, vl_svm_get_model(a[q])[j], vl_svm_get_model(a[0])[j]); MC_CHECK("train-bias", mc_close(vl_svm_get_bias(a[q]), vl_svm_get_bias(a[0]), 1e-3*fl + 1e-9, 0), "solver %d: the biases differ", s); for (j = 0; j < n; ++j) MC_CHECK("train-score", mc_close(vl_svm_get_scores(a[q])[j], vl_svm_get_scores(a[0])[j], 1e-2*fl + 1e-9, 0), "solver %d: the scores differ", s); }
    for (q = 0; q < 3; ++q) vl_svm_delete(a[q]); } }
  vl_svmdataset_delete(ds); if (hom) vl_homogeneouskernelmap_delete(hom); mc_gfree(buf); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* parameters: set and got, defaults */
static void params(void) {
  VlSvm *s; int mask = mc_choose(128), sv = mc_choose(3); static double x[2] = {1, 2}, y[2] = {1, -1}, w[2] = {1, 2}; s = vl_svm_new((VlSvmSolverType)sv, x, 1, 2, y, 0.01); mc_op();
  MC_CHECK("default", vl_svm_get_max_num_iterations(s) == 1000 && vl_svm_get_bias_multiplier(s) == 1 && vl_svm_get_weights(s) == 0 && vl_svm_get_bias(s) == 0 && vl_svm_get_model(s)[0] == 0 && vl_svm_get_iteration_number(s) == 0, "the defaults are not the documented ones");
  { double e = vl_svm_get_epsilon(s), r = vl_svm_get_bias_learning_rate(s);
  if (mask & 1) vl_svm_set_epsilon(s, 0.25); if (mask & 2) vl_svm_set_max_num_iterations(s, 17); if (mask & 4) vl_svm_set_bias_multiplier(s, 4); if (mask & 8) vl_svm_set_bias_learning_rate(s, 0.75); if (mask & 16) vl_svm_set_diagnostic_frequency(s, 9); if (mask & 32) vl_svm_set_weights(s, w); if (mask & 64) vl_svm_set_iteration_number(s, 21);
  MC_CHECK("set", vl_svm_get_epsilon(s) == (mask & 1 ? 0.25 : e) && vl_svm_get_max_num_iterations(s) == (mask & 2 ? 17 : 1000) && vl_svm_get_bias_multiplier(s) == (mask & 4 ? 4 : 1) && vl_svm_get_bias_learning_rate(s) == (mask & 8 ? 0.75 : r) && vl_svm_get_diagnostic_frequency(s) == (mask & 16 ? 9 : 2) && vl_svm_get_weights(s) == (mask & 32 ? w : 0) && vl_svm_get_iteration_number(s) == (mask & 64 ? 21 : 0), "the parameters set are not the ones got (mask %d)", mask); }
  vl_svm_delete(s); }
/* larger problems reach the requested precision */
static void big(void) {
  uint32_t r = 17 + mc_choose(MC_TIER(6, 30)); int i, j, sv; L = mc_choose(5); n = 8; d = 3; S = 2; B = mc_choose(2); weighted = 0; lam = mc_choose(2) ? 0.1 : 0.01; eps = mc_choose(2) ? 1e-2 : 1e-4; sv = 2;
  for (i = 0; i < n*d; ++i) X[i] = (int)(mc_lcg(&r) % 9) / 4.0 - 1; for (i = 0; i < n; ++i) Y[i] = L == 2 || L == 3 ? (int)(mc_lcg(&r) % 7) / 2.0 - 1.5 : mc_lcg(&r) % 2 ? 1 : -1; note();
  vl_rand_seed(vl_get_rand(), 3); reset(); diagfreq = n; maxit = 400000; svm = vl_svm_new_with_abstract_data((VlSvmSolverType)sv, 0, d, n, Y, lam); vl_svm_set_data_functions(svm, inner, acc); vl_svm_set_loss(svm, LT[L]); vl_svm_set_bias_multiplier(svm, B); vl_svm_set_epsilon(svm, eps); vl_svm_set_max_num_iterations(svm, maxit); vl_svm_set_diagnostic_function(svm, diag, &diags);
  vl_svm_train(svm); mc_op(); check_end(); MC_CHECK("converges", last.status == VlSvmStatusConverged, "no convergence in %d iterations: gap %g", maxit, last.dualityGap);
  { /* SGD with many iterations comes near the same optimum */ double opt = last.objective, dual = last.dualObjective; VlSvm *s = vl_svm_new(VlSvmSolverSgd, X, d, n, Y, lam); VlSvmStatistics const *t; vl_svm_set_loss(s, LT[L]); vl_svm_set_bias_multiplier(s, B); vl_svm_set_bias_learning_rate(s, 1); vl_svm_set_epsilon(s, 0); vl_svm_set_max_num_iterations(s, 20000); vl_svm_train(s); t = vl_svm_get_statistics(s); MC_CHECK("sgd-above-dual", t->objective >= dual - 1e-8, "SGD has the objective %g, below the dual bound %g", t->objective, dual); MC_CHECK("sgd-near", L == 1 || L == 3 || t->objective <= opt + 0.05*(1+opt), "SGD has the objective %g after 20000 steps, the optimum is %g", t->objective, opt); vl_svm_delete(s); }
  vl_svm_delete(svm); }
mc_suite mc_suites[] = {
 {"sdca", sdca, "all data of 1..3 points in 1..2 dimensions over 3-4 values, all labels, 5 losses, 2 lambdas, bias multipliers, weights (0 too), 3 stopping modes: every diagnostic recomputed from model, bias and observed dual variables"},
 {"resume", resume, "same data x bias: four trainings in a row of the same object, every iteration checked"},
 {"sgd", sgd, "same data x 3 lambdas x bias x weights x learning rates x cold/warm start x 2 precisions: replay of every step"},
 {"evaluate", evaluate, "same data x models x biases x weights: evaluation without solver"},
 {"dataset", dataset, "float/double x no map/4 maps x 1..3 points x 1..3 dimensions x values: inner products, accumulation and training against explicit features"},
 {"params", params, "all subsets of 7 parameters x 3 solvers"},
 {"big", big, "problems of 8 points in 3 dimensions x 5 losses x bias x 2 lambdas x 2 precisions: convergence"},
 {0}};
