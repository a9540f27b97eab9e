// Random effects predictions: basis row times working parameter times group parameter, per sample and observation.
#include "symx.h"
#include <stochtree/random_effects.h>
using namespace StochTree;
static const int N = SXD_N, C = SXD_C, G = SXD_G, S = SXD_S;
int sx_main() {
  // training labels define the numbering; prediction rows use any of them
  std::vector<int32_t> lab(G); for (int i = 0; i < G; i++) { lab[i] = (int32_t)sx_int("label", -100, 100); for (int j = 0; j < i; j++) sx_assume(lab[i] != lab[j]); }
  RandomEffectsTracker tr(lab); LabelMapper lm(tr.GetLabelMap()); std::vector<int> num(G); for (int i = 0; i < G; i++) num[i] = (int)sx_concrete(tr.CategoryNumber(lab[i]));
  std::vector<double> x(N * C); for (auto& v : x) v = sx_real("basis", -5, 5); std::vector<int> who(N); std::vector<int32_t> gl(N); for (int i = 0; i < N; i++) { who[i] = (int)sx_choice("group", G); gl[i] = lab[who[i]]; }
  bool row = sx_choice("row_major", 2); RandomEffectsDataset d; d.AddBasis(x.data(), N, C, row); d.AddGroupLabels(gl); auto X = [&](int i, int k) { return row ? x[i * C + k] : x[k * N + i]; };
  RandomEffectsContainer rc(C, G); MultivariateRegressionRandomEffectsModel m(C, G); std::vector<Eigen::VectorXd> A; std::vector<Eigen::MatrixXd> XI, SG; sx_assert(rc.NumSamples() == 0 && rc.NumComponents() == C && rc.NumGroups() == G && m.NumComponents() == C && m.NumGroups() == G, "dimensions");
  for (int s = 0; s < S; s++) { Eigen::VectorXd a(C); Eigen::MatrixXd xi(C, G), sg(C, C), w(C, C); for (int k = 0; k < C; k++) { a(k) = sx_real("alpha", -5, 5); for (int g = 0; g < G; g++) xi(k, g) = sx_real("xi", -5, 5); for (int l = 0; l < C; l++) { sg(k, l) = k == l ? sx_real("sigma", 0.1, 5) : 0; w(k, l) = sx_real("working", -5, 5); } }
    m.SetWorkingParameter(a); m.SetWorkingParameterCovariance(w); if (sx_choice("by_group", 2)) { Eigen::MatrixXd z = Eigen::MatrixXd::Zero(C, G); m.SetGroupParameters(z); for (int g = 0; g < G; g++) { Eigen::VectorXd c = xi(Eigen::all, g); m.SetGroupParameter(c, g); } } else m.SetGroupParameters(xi);
    if (s == 0) m.SetGroupParameterCovariance(sg); else for (int k = 0; k < C; k++) m.SetGroupParameterVarianceComponent(sg(k, k), k);
    A.push_back(a); XI.push_back(xi); SG.push_back(sg); for (int k = 0; k < C; k++) { sx_check_eq(m.GetWorkingParameter()(k), a(k), "working parameter"); for (int g = 0; g < G; g++) sx_check_eq(m.GetGroupParameters()(k, g), xi(k, g), "group parameter"); for (int l = 0; l < C; l++) { sx_check_eq(m.GetGroupParameterCovariance()(k, l), sg(k, l), "group parameter covariance"); sx_check_eq(m.GetWorkingParameterCovariance()(k, l), w(k, l), "working parameter covariance"); } }
    auto f = m.Predict(d, tr); std::vector<double> f2(N, 9); m.PredictInplace(d, tr, f2); sx_assert((int)f.size() == N, "length of a prediction"); for (int i = 0; i < N; i++) { double want = 0; for (int k = 0; k < C; k++) want += X(i, k) * a(k) * xi(k, num[who[i]]); sx_check_eq(f[i], want, "model prediction"); sx_check_eq(f2[i], want, "model prediction in place"); }
    rc.AddSample(m); sx_assert(rc.NumSamples() == s + 1, "number of samples"); }
  std::vector<double> out(N * S, -3), prev; rc.Predict(d, lm, out); sx_assert((int)out.size() == N * S && (int)rc.GetAlpha().size() == S * C && (int)rc.GetSigma().size() == S * C && (int)rc.GetXi().size() == S * C * G && (int)rc.GetBeta().size() == S * C * G, "sizes of the stored samples");
  for (int s = 0; s < S; s++) { for (int i = 0; i < N; i++) { double want = 0; for (int k = 0; k < C; k++) want += X(i, k) * A[s](k) * XI[s](k, num[who[i]]); sx_check_eq(out[s * N + i], want, "prediction of a stored sample"); }
    for (int k = 0; k < C; k++) { sx_check_eq(rc.GetAlpha()[s * C + k], A[s](k), "stored working parameter"); sx_check_eq(rc.GetSigma()[s * C + k], SG[s](k, k), "stored variance component"); for (int g = 0; g < G; g++) { sx_check_eq(rc.GetXi()[(s * G + g) * C + k], XI[s](k, g), "stored group parameter"); sx_check_eq(rc.GetBeta()[(s * G + g) * C + k], A[s](k) * XI[s](k, g), "stored group coefficient"); } } }
  bool threw = false; std::vector<double> bad(N * S + 1); try { rc.Predict(d, lm, bad); } catch (const std::exception&) { threw = true; } sx_assert(threw, "an output of the wrong length is rejected");
  rc.Reset(); sx_assert(rc.NumSamples() == 0 && rc.GetBeta().empty() && rc.GetAlpha().empty() && rc.GetXi().empty() && rc.GetSigma().empty(), "reset"); sx_observe("p", out[0]); sx_reach("end"); sx_sample(); return 0;
}
