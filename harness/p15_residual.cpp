// Residual bookkeeping: whatever is subtracted from the residual is what a later "add back" returns.
#include "forest_gen.h"
#include <stochtree/leaf_model.h>
#include <stochtree/partition_tracker.h>
#include <stochtree/tree_sampler.h>
using namespace StochTree; using namespace ref;
// BASIS: 0 constant leaf without a basis in the data, 1 constant leaf although the data has a basis, 2 univariate leaf, 3 two-dimensional leaf
static const int N = SXD_N, T = SXD_TREES, D = SXD_BASIS == 3 ? 2 : 1; static const bool REG = SXD_BASIS >= 2;
static const bool PRED = SXD_CAT; // second, categorical feature
int sx_main() {
  Gen g; g.feats = PRED ? 2 : 1; g.byfeat = true; g.ncat = 2; Rows r = rows(N, PRED ? 2 : 1, PRED); std::vector<double> W(N * D, 0.), y(N), e(N);
  ForestDataset ds; ds.AddCovariates(r.colmajor.data(), N, PRED ? 2 : 1, false); if (SXD_BASIS) { for (auto& w : W) w = sx_real("basis", -3, 3); ds.AddBasis(W.data(), N, D, true); }
  for (auto& v : y) v = sx_real("y", -8, 8); e = y; ColumnVector res(y.data(), N); std::vector<FeatureType> ft(PRED ? 2 : 1, FeatureType::kNumeric); if (PRED) ft[1] = FeatureType::kUnorderedCategorical;
  { double s = 0; for (double v : y) s += v; sx_check_eq(ComputeMeanOutcome(res) * N, s, "mean outcome"); }
  TreeEnsemble f(T, D, !REG); RForest F; F.init(T, D); ForestTracker tr(ds.GetCovariates(), ft, T, N); tr.AssignAllSamplesToRoot();
  std::vector<std::vector<double>> kept(T, std::vector<double>(N)); // predictions the tracker has to remember
  double c0 = sx_real("constant", -4, 4); tr.AssignAllSamplesToConstantPrediction(c0); for (auto& v : kept) v.assign(N, c0);
  if (T > 1) { double c1 = sx_real("constant", -4, 4); tr.AssignAllSamplesToConstantPrediction(T - 1, c1); kept[T - 1].assign(N, c1); }
  std::function<double(double, double)> ops[2] = {std::plus<double>(), std::minus<double>()};
  auto cur = [&](int j, int i) { auto& v = F.t[j].n[leafOf(F.t[j], r, i)].val; if (!REG) return v[0]; double x = 0; for (int k = 0; k < D; k++) x += v[k] * W[i * D + k]; return x; };
  auto check = [&](const char* m) { for (int i = 0; i < N; i++) { sx_check_eq(res.GetElement(i), e[i], m); for (int j = 0; j < T; j++) sx_check_eq(tr.GetTreeSamplePrediction(i, j), kept[j][i], "recorded prediction of a tree"); } };
  check("residual before any update");
  for (int s = 0; s < SXD_STEPS; s++) { int what = sx_choice("what", SXD_BASIS ? 5 : 4), j = what < 3 && T > 1 ? (int)sx_choice("tree", T) : 0; Tree& t = *f.GetTree(j); RTree& R = F.t[j];
    if (what == 0) { bool sub = sx_choice("subtract", 2), fresh = sx_choice("new", 2); UpdateResidualTree(tr, ds, res, &t, j, REG, ops[sub], fresh); for (int i = 0; i < N; i++) { if (fresh) kept[j][i] = cur(j, i); e[i] = sub ? e[i] - kept[j][i] : e[i] + kept[j][i]; } check("residual after one tree's prediction is added or subtracted"); }
    else if (what == 1) { auto lp = R.pick(2); if (!lp.empty() && sx_choice("prune", 2)) { int k = lp[0], id = R.n[k].id, a = t.LeftChild(id), b = t.RightChild(id); g.collapse(t, R, k); tr.RemoveSplit(ds.GetCovariates(), &t, j, id, a, b, false); }
      else { auto lv = R.pick(0); int k = lv[sx_choice("leaf", lv.size())]; g.expand(t, R, k); Node& n = R.n[k]; std::vector<std::uint32_t> c = n.cats; TreeSplit sp = n.cat ? TreeSplit(c) : TreeSplit(n.thr); tr.AddSplit(ds.GetCovariates(), sp, n.feat, j, n.id, t.LeftChild(n.id), t.RightChild(n.id), false); }
      check("a change of the tree alone leaves residual and recorded predictions alone"); }
    else if (what == 2) { auto lv = R.pick(0); g.setleaf(t, R, lv[sx_choice("leaf", lv.size())]); check("a change of a leaf alone leaves residual and recorded predictions alone"); }
    else if (what == 3) { bool sub = sx_choice("subtract", 2); UpdateResidualEntireForest(tr, ds, res, &f, REG, ops[sub]); for (int i = 0; i < N; i++) for (int q = 0; q < T; q++) { kept[q][i] = cur(q, i); e[i] = sub ? e[i] - kept[q][i] : e[i] + kept[q][i]; } check("residual after the whole forest's prediction is added or subtracted"); }
    else { for (auto& w : W) w = sx_real("basis", -3, 3); ds.UpdateBasis(W.data(), N, D, true); check("a new basis alone leaves residual and recorded predictions alone"); } }
  // a replacement step for every tree: add the recorded prediction back, change the tree, subtract the new one
  for (int j = 0; j < T; j++) { UpdateResidualTree(tr, ds, res, f.GetTree(j), j, REG, ops[0], false); auto lv = F.t[j].pick(0); g.setleaf(*f.GetTree(j), F.t[j], lv.back()); UpdateResidualTree(tr, ds, res, f.GetTree(j), j, REG, ops[1], true);
    for (int i = 0; i < N; i++) { e[i] += kept[j][i]; kept[j][i] = cur(j, i); e[i] -= kept[j][i]; } }
  check("residual after every tree was replaced"); checkForest(f, F);
  sx_observe("resid", res.GetElement(N - 1)); sx_reach("end"); sx_sample(); return 0;
}
