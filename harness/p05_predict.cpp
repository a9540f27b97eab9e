// Forest and container predictions = sum over trees of (leaf value . basis row), laid out sample by sample.
#include "forest_gen.h"
using namespace StochTree; using namespace ref;
static const int N = SXD_N, T = SXD_TREES, D = SXD_DIM, S = SXD_SAMPLES;
static const bool CONSTLEAF = SXD_CONST;
int sx_main() {
  Gen g; g.feats = 2; g.byfeat = true;
  Rows r = rows(N, 2, true); std::vector<double> W(N * D); for (auto& w : W) w = CONSTLEAF && !SXD_WB ? 0 : sx_real("basis", -3, 3);
  ForestDataset ds; ds.AddCovariates(r.colmajor.data(), N, 2, false); bool haveBasis = !CONSTLEAF || SXD_WB; if (haveBasis) ds.AddBasis(W.data(), N, D, true); // row-major basis
  ForestContainer c(T, D, CONSTLEAF); c.AddSamples(S); std::vector<RForest> F(S); for (int s = 0; s < S; s++) { F[s].init(T, D); grow(*c.GetEnsemble(s), F[s], g, 1); }
  if (!CONSTLEAF && sx_choice("update_basis", 2)) { for (auto& w : W) w = sx_real("basis", -3, 3); ds.UpdateBasis(W.data(), N, D, true); }
  sx_assert(c.NumSamples() == S && c.NumTrees() == T && c.OutputDimension() == D, "container dimensions");
  auto pred = c.Predict(ds), raw = c.PredictRaw(ds); sx_assert((int)pred.size() == N * S && (int)raw.size() == N * S * D, "prediction sizes");
  std::vector<std::vector<double>> part(T, std::vector<double>(N));
  for (int s = 0; s < S; s++) { auto one = c.PredictRaw(ds, s); sx_assert((int)one.size() == N * D, "raw size of one sample");
    std::vector<double> tot(N, 0.0);
    for (int i = 0; i < N; i++) { double want = 0; std::vector<double> wr(D, 0.0);
      for (int j = 0; j < T; j++) { auto& q = F[s].t[j]; auto& v = q.n[leafOf(q, r, i)].val; double x = 0; for (int k = 0; k < D; k++) { wr[k] += v[k]; x += CONSTLEAF ? (k == 0 ? v[0] : 0.0) : v[k] * W[i * D + k]; } want += x; if (s == S - 1) part[j][i] = x; }
      sx_check_eq(pred[s * N + i], want, "prediction of an observation under one posterior sample"); tot[i] = want;
      for (int k = 0; k < D; k++) { sx_check_eq(raw[(s * N + i) * D + k], wr[k], "raw (per-dimension) prediction"); sx_check_eq(one[i * D + k], wr[k], "raw prediction of a single sample"); }
      if (i == 0 && s == 0) sx_observe("pred", pred[0]); }
    if (s == S - 1) { // a range of trees, written at an offset, leaves the rest of the output alone
      TreeEnsemble& e = *c.GetEnsemble(s); std::vector<double> out(N + 2, 7.0); int b = sx_choice("tree_begin", T), en = b + 1 + sx_choice("tree_len", T - b); e.PredictInplace(ds, out, b, en, 1); sx_check_eq(out[0], 7.0, "output before the offset is untouched"); sx_check_eq(out[N + 1], 7.0, "output after the block is untouched");
      for (int i = 0; i < N; i++) { double w = 0; for (int j = b; j < en; j++) w += part[j][i]; sx_check_eq(out[1 + i], w, "prediction of a range of trees"); }
      std::vector<double> full(N); e.PredictInplace(ds, full); for (int i = 0; i < N; i++) sx_check_eq(full[i], tot[i], "whole-forest prediction");
      double ss = 0; for (auto& t : F[s].t) for (int l : t.pick(0)) for (double v : t.n[l].val) ss += v * v; sx_check_eq(e.SumLeafSquared(), ss, "sum of squared leaf values");
      // predictions from recorded leaf memberships
      Tree& t0 = *e.GetTree(0); std::vector<std::int32_t> ids(N); for (int i = 0; i < N; i++) ids[i] = EvaluateTree(t0, ds.GetCovariates(), i);
      if (!CONSTLEAF) { auto p = t0.PredictFromNodes(ids, ds.GetBasis()); for (int i = 0; i < N; i++) sx_check_eq(p[i], part[0][i], "prediction from recorded leaves"); } else if (D == 1) { auto p = t0.PredictFromNodes(ids); for (int i = 0; i < N; i++) sx_check_eq(p[i], part[0][i], "prediction from recorded leaves"); } } }
  sx_reach("end"); sx_sample(); return 0;
}
