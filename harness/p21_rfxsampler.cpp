// Gibbs step of the group random effects: conditional posteriors, draws and bookkeeping.
#include "rng_model.h"
#include "src/random_effects.cpp" // compiled with the modelled distributions
using namespace StochTree; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;
static const int N = SXD_N, C = SXD_C, G = SXD_G;
static double dom(const char* n) { return sx_real(n, -3, 3); }
#ifndef SXD_FIX
#define SXD_FIX 0
#endif
static double pos(const char* n, double v) { return SXD_FIX ? v : sx_real(n, 0.25, 4); }
int sx_main() {
  std::mt19937 gen(1); std::vector<int32_t> gl(N); for (int i = 0; i < N; i++) gl[i] = i < G ? (i + 1) % G * 10 : (int)sx_choice("group", G) * 10; // every group occurs, not in label order
  std::vector<double> x(N * C), y(N); for (size_t i = 0; i < x.size(); i++) x[i] = SXD_FIX > 2 ? (i % 2 ? -1.5 : 0.75) + (double)i : dom("basis"); for (auto& v : y) v = dom("residual"); RandomEffectsDataset d; d.AddBasis(x.data(), N, C, true); d.AddGroupLabels(gl); ColumnVector r(y.data(), N); RandomEffectsTracker t(gl);
  MultivariateRegressionRandomEffectsModel m(C, G); V a(C); M xi(C, G), sw(C, C), sx(C, C); std::vector<double> siginv(C), winv(C);
  for (int k = 0; k < C; k++) { a(k) = SXD_FIX == 2 || SXD_FIX == 3 ? 1.5 - k : dom("alpha"); for (int g = 0; g < G; g++) xi(k, g) = dom("xi"); for (int l = 0; l < C; l++) sw(k, l) = sx(k, l) = 0; sw(k, k) = pos("working_var", 2); sx(k, k) = pos("group_var", 0.5); }
  if (C == 2 && SXD_CORR) { sw(0, 1) = sw(1, 0) = 0.125; sx(0, 1) = sx(1, 0) = -0.0625; }
  double pa = sx_real("shape", 0.5, 9), pb = sx_real("scale", 0.1, 9), s2 = pos("sigma2", 0.75); m.SetWorkingParameter(a); m.SetGroupParameters(xi); m.SetWorkingParameterCovariance(sw); m.SetGroupParameterCovariance(sx); m.SetVariancePriorShape(pa); m.SetVariancePriorScale(pb); sx_assert(m.GetVariancePriorShape() == pa && m.GetVariancePriorScale() == pb, "variance prior");
  auto num = [&](int i) { return gl[i] / 10; };
  auto X = [&](int i, int k) { return x[i * C + k]; };
  // precision times det of the prior covariance, to avoid inverting it: entries of S^-1
  auto inv = [&](const M& S, int i, int j) -> double { if (C == 1) return 1 / S(0, 0); double det = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0); return (i == j ? S(1 - i, 1 - i) : -S(i, j)) / det; };
  auto groupPrec = [&](int g, int i, int j, const V& al, const M& S) { double p = inv(S, i, j); for (int q = 0; q < N; q++) if (num(q) == g) p += al(i) * X(q, i) * X(q, j) * al(j) / s2; return p; };
  auto groupNum = [&](int g, int i, const V& al, const std::vector<double>& yy) { double p = 0; for (int q = 0; q < N; q++) if (num(q) == g) p += al(i) * X(q, i) * yy[q] / s2; return p; };
  auto workPrec = [&](int i, int j, const M& z) { double p = inv(sw, i, j); for (int q = 0; q < N; q++) p += z(i, num(q)) * X(q, i) * X(q, j) * z(j, num(q)) / s2; return p; };
  auto workNum = [&](int i, const M& z, const std::vector<double>& yy) { double p = 0; for (int q = 0; q < N; q++) p += z(i, num(q)) * X(q, i) * yy[q] / s2; return p; };
#if SXD_STEP == 0 // formulas
  if (sx_choice("which", 2)) { int g = (int)sx_choice("g", G); V mu = m.GroupParameterMean(d, r, t, s2, g); M v = m.GroupParameterVariance(d, r, t, s2, g); sx_assert((int)mu.size() == C && (int)v.rows() == C && (int)v.cols() == C, "dimensions of the group posterior");
    for (int i = 0; i < C; i++) { double l = 0; for (int j = 0; j < C; j++) l += groupPrec(g, i, j, a, sx) * mu(j); sx_check_eq(l, groupNum(g, i, a, y), "posterior mean of the group parameters"); for (int k = 0; k < C; k++) { double e = 0; for (int j = 0; j < C; j++) e += groupPrec(g, i, j, a, sx) * v(j, k); sx_check_eq(e, i == k, "posterior covariance of the group parameters"); } } sx_observe("mu", mu(0)); }
  else { V mu = m.WorkingParameterMean(d, r, t, s2); M v = m.WorkingParameterVariance(d, r, t, s2); sx_assert((int)mu.size() == C && (int)v.rows() == C && (int)v.cols() == C, "dimensions of the working parameter posterior");
    for (int i = 0; i < C; i++) { double l = 0; for (int j = 0; j < C; j++) l += workPrec(i, j, xi) * mu(j); sx_check_eq(l, workNum(i, xi, y), "posterior mean of the working parameter"); for (int k = 0; k < C; k++) { double e = 0; for (int j = 0; j < C; j++) e += workPrec(i, j, xi) * v(j, k); sx_check_eq(e, i == k, "posterior covariance of the working parameter"); } } sx_observe("mu", mu(0)); }
  for (int k = 0; k < C; k++) { double ss = 0; for (int g = 0; g < G; g++) ss += xi(k, g) * xi(k, g); sx_check_eq(m.VarianceComponentShape(d, r, t, s2, k), pa + G / 2.0, "posterior shape of a variance component"); sx_check_eq(m.VarianceComponentScale(d, r, t, s2, k), pb + ss / 2, "posterior scale of a variance component"); }
  for (int i = 0; i < N; i++) { sx_assert(r.GetElement(i) == y[i], "the residual is not changed"); } rng::clear();
  // variance draws
  m.SampleVarianceComponents(d, r, t, s2, gen); auto l = rng::log(); sx_assert((int)l.size() == C && rng::count(rng::GAMMA) == C, "one gamma draw per component"); for (int k = 0; k < C; k++) { double ss = 0; for (int g = 0; g < G; g++) ss += xi(k, g) * xi(k, g); sx_check_eq(l[k].a, pa + G / 2.0, "shape of a variance draw"); sx_check_eq(m.GetGroupParameterCovariance()(k, k) * l[k].raw, pb + ss / 2, "scale of a variance draw"); for (int j = 0; j < C; j++) if (j != k) sx_check_eq(m.GetGroupParameterCovariance()(k, j), sx(k, j), "off-diagonal covariances unchanged"); }
#elif SXD_STEP == 1 // each block draws from its conditional (one component)
  if (sx_choice("which", 2)) { m.SampleGroupParameters(d, r, t, s2, gen); auto l = rng::log(); sx_assert((int)l.size() == G && rng::count(rng::NORMAL) == G, "one draw per group"); M z = m.GetGroupParameters();
    for (int g = 0; g < G; g++) { double p = groupPrec(g, 0, 0, a, sx), dev = z(0, g) * p - groupNum(g, 0, a, y); sx_check_eq(dev * dev, l[g].raw * l[g].raw * p, "group parameters are drawn from their conditional posterior"); sx_assert(l[g].gen == &gen, "the supplied generator is used"); } sx_check_eq(m.GetWorkingParameter()(0), a(0), "the working parameter is not changed"); sx_observe("z", z(0, 0)); }
  else { m.SampleWorkingParameter(d, r, t, s2, gen); auto l = rng::log(); sx_assert((int)l.size() == 1 && rng::count(rng::NORMAL) == 1, "one draw for the working parameter"); double p = workPrec(0, 0, xi), al = m.GetWorkingParameter()(0), dev = al * p - workNum(0, xi, y); sx_check_eq(dev * dev, l[0].raw * l[0].raw * p, "the working parameter is drawn from its conditional posterior"); sx_assert(l[0].gen == &gen, "the supplied generator is used"); for (int g = 0; g < G; g++) sx_check_eq(m.GetGroupParameters()(0, g), xi(0, g), "the group parameters are not changed"); sx_observe("al", al); }
  for (int i = 0; i < N; i++) sx_assert(r.GetElement(i) == y[i], "the residual is not changed"); sx_check_eq(m.GetWorkingParameterCovariance()(0, 0), sw(0, 0), "the prior variance is not changed"); sx_check_eq(m.GetGroupParameterCovariance()(0, 0), sx(0, 0), "the group variance is not changed");
#else // a whole step, one component; the standard normal draws are fixed at zero, so that every draw is its conditional mean
  std::vector<double> old(N), yy(N); for (int i = 0; i < N; i++) { old[i] = dom("old_prediction"); t.SetPrediction(i, old[i]); yy[i] = y[i] + old[i]; } for (int i = 0; i < G + 1; i++) rng::script().push_back(0);
  m.SampleRandomEffects(d, r, t, s2, gen); auto l = rng::log(); sx_assert((int)l.size() == G + 2 && rng::count(rng::NORMAL) == G + 1 && rng::count(rng::GAMMA) == 1, "draws of a random effects step"); for (auto& q : l) sx_assert(q.gen == &gen, "the supplied generator is used");
  M z = m.GetGroupParameters(); for (int g = 0; g < G; g++) sx_check_eq(z(0, g) * groupPrec(g, 0, 0, a, sx), groupNum(g, 0, a, yy), "group parameters are drawn given the old working parameter and the residual without the old random effect");
  double al = m.GetWorkingParameter()(0); sx_check_eq(al * workPrec(0, 0, z), workNum(0, z, yy), "the working parameter is drawn given the new group parameters");
  double ss = 0; for (int g = 0; g < G; g++) ss += z(0, g) * z(0, g); sx_assert(l[G + 1].k == rng::GAMMA, "the variance is drawn last"); sx_check_eq(l[G + 1].a, pa + G / 2.0, "shape of the variance draw"); sx_check_eq(m.GetGroupParameterCovariance()(0, 0) * l[G + 1].raw, pb + ss / 2, "scale of the variance draw given the new group parameters");
  sx_check_eq(m.GetWorkingParameterCovariance()(0, 0), sw(0, 0), "the prior of the working parameter is unchanged");
  for (int i = 0; i < N; i++) { double f = X(i, 0) * al * z(0, num(i)); sx_check_eq(t.GetPrediction(i), f, "tracked prediction after the step"); sx_check_eq(r.GetElement(i), yy[i] - f, "residual after the step: outcome minus the new random effect"); } sx_observe("alpha", al);
#endif
  sx_reach("end"); sx_sample(); return 0;
}
