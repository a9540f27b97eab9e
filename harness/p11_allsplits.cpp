// Evaluation of every candidate split of a node (grow-from-root).
#include "leaf_spec.h"
#include <stochtree/partition_tracker.h>
#include <stochtree/cutpoint_candidates.h>
using namespace StochTree; using namespace ref; using namespace leafspec;
static const FeatureType FT[3] = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical};
int sx_main() {
  Data D; static const int kind[2] = {SXD_K0, SXD_K1 < 0 ? 0 : SXD_K1}; const int P = SXD_K1 < 0 ? 1 : 2; make(D, SXD_N, P, kind); Model m = model(D); std::vector<FeatureType> ft; for (int j = 0; j < P; j++) ft.push_back(FT[kind[j]]);
  if (SXD_K0 == 0) for (int i = 0; i < D.n; i++) for (int j = 0; j < i; j++) { double d = D.x(i, 0) - D.x(j, 0); sx_assume(d == 0 || d > 1e-6 || d < -1e-6); }
  ForestTracker tr(D.d.GetCovariates(), ft, 2, D.n); tr.AssignAllSamplesToRoot(); Tree t; t.Init(DIM); const int tn = 1; tr.ResetRoot(D.d.GetCovariates(), ft, tn);
  std::vector<int> in(D.n, 1); int node = 0;
  if (SXD_DEEP) { Node pn; pn.cat = false; pn.feat = 0; pn.thr = SXD_K0 ? 3.0 : sx_real("threshold", -4, 4); TreeSplit sp(pn.thr); std::vector<double> z(DIM, 0.); if (DIM == 1) t.ExpandNode(0, 0, sp, 0., 0.); else t.ExpandNode(0, 0, sp, z, z); tr.AddSplit(D.d.GetCovariates(), sp, 0, tn, 0, 1, 2, true); bool left = sx_choice("side", 2) == 0; node = left ? 1 : 2; int c = 0; for (int i = 0; i < D.n; i++) c += in[i] = RTree::goesLeft(pn, D.x(i, 0)) == left; sx_assume(c > 0); }
  int mins = (int)sx_choice("min_samples", SXD_MINS); TreePrior prior(0.95, 2, mins); int grid = SXD_GRID; std::vector<double> vw(P); for (int j = 0; j < P; j++) vw[j] = sx_choice("variable_used", 2) ? 0.5 : 0.; 
  int b = tr.SortedNodeBegin(node, 0), e = tr.SortedNodeEnd(node, 0); CutpointGridContainer g(D.d.GetCovariates(), D.r.GetData(), grid), mine(D.d.GetCovariates(), D.r.GetData(), grid);
  std::vector<double> ev, val; std::vector<int> feats; std::vector<FeatureType> types; data_size_t count = -1;
  m.EvaluateAllPossibleSplits(D.d, tr, D.r, prior, D.s2, tn, node, ev, feats, val, types, count, g, b, e, vw, ft);
  auto leafml = [&](const std::vector<int>& s) { return logml(D, stat(D, [&](int i) { return s[i]; }, D.y.data())); };
  size_t q = 0; for (int j = 0; j < P; j++) { if (vw[j] == 0) continue; mine.CalculateStrides(D.d.GetCovariates(), D.r.GetData(), tr.GetSortedNodeSampleTracker(), node, b, e, j, ft);
    for (int c = 0; c + 1 < mine.NumCutpoints(j); c++) { TreeSplit sp; if (kind[j] == 2) { auto v = mine.CutpointVector(c, j); sp = TreeSplit(v); } else sp = TreeSplit(mine.CutpointValue(c, j)); // the split that would be made
      std::vector<int> L(D.n), R(D.n); int nl = 0, nr = 0; for (int i = 0; i < D.n; i++) if (in[i]) { bool left = sp.SplitTrue(D.x(i, j)); L[i] = left; R[i] = !left; nl += left; nr += !left; }
      if (nl < mins || nr < mins) continue;
      sx_assert(q < ev.size() && q < feats.size() && q < val.size() && q < types.size(), "every admissible split is a candidate"); sx_assert(feats[q] == j && types[q] == ft[j] && val[q] == c, "candidate names its feature and cutpoint");
      sx_check_eq(ev[q], leafml(L) + leafml(R), "log marginal likelihood of a candidate split"); q++; } }
  sx_assert((int)q == count && ev.size() == q + 1 && feats.size() == q + 1 && val.size() == q + 1 && types.size() == q + 1, "only admissible splits are candidates"); sx_assert(feats[q] == -1, "last candidate is not to split"); sx_check_eq(ev[q], leafml(in), "log marginal likelihood of not splitting");
  for (int j = 0; j < P; j++) if (vw[j] != 0) { mine.CalculateStrides(D.d.GetCovariates(), D.r.GetData(), tr.GetSortedNodeSampleTracker(), node, b, e, j, ft); sx_assert(g.NumCutpoints(j) == mine.NumCutpoints(j), "the grid is kept for the split that is drawn"); for (int c = 0; c < g.NumCutpoints(j); c++) sx_assert(g.CutpointValue(c, j) == mine.CutpointValue(c, j), "the grid is kept for the split that is drawn"); }
  sx_observe_i("candidates", q); sx_reach("end"); sx_sample(); return 0;
}
