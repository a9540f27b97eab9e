// Candidate cutpoints of a node (grow-from-root): bins of the node's sorted observations.
#include "ref_tree.h"
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/data.h>
#include <stochtree/partition_tracker.h>
using namespace StochTree; using namespace ref;
static const int N = SXD_N; // KIND 0 numeric, 1 ordered categorical, 2 unordered categorical
static Eigen::MatrixXd* XP; static Eigen::VectorXd* YP;
static void check(CutpointGridContainer& g, ForestTracker& tr, int id, int grid) {
  Eigen::MatrixXd& X = *XP; Eigen::VectorXd& y = *YP; auto* s = tr.GetSortedNodeSampleTracker(); int b = tr.SortedNodeBegin(id, 0), e = tr.SortedNodeEnd(id, 0), n = e - b; std::vector<FeatureType> ft(1, SXD_KIND == 0 ? FeatureType::kNumeric : SXD_KIND == 1 ? FeatureType::kOrderedCategorical : FeatureType::kUnorderedCategorical);
  if (n == 0) return; // grow-from-root never makes an empty node
  g.CalculateStrides(X, y, s, id, b, e, 0, ft); int nb = g.NumCutpoints(0); auto val = [&](int pos) { return X(s->SortIndex(pos, 0), 0); };
  sx_assert(nb >= 1 && nb <= n, "number of bins"); std::vector<int> use(n, 0);
  for (int i = 0; i < nb; i++) { int lo = g.BinStartIndex(i, 0), len = g.BinLength(i, 0), hi = g.BinEndIndex(i, 0); sx_assert(len >= 1 && hi == lo + len && lo >= b && hi <= e, "a bin lies inside its node"); for (int q = lo; q < hi; q++) use[q - b]++; sx_assert(g.CutpointValue(i, 0) == val(hi - 1), "cutpoint value of a bin is its largest value"); }
  for (int q = 0; q < n; q++) sx_assert(use[q] == 1, "the bins cover every observation of the node once");
  for (int i = 0; i < nb; i++) { int lo = g.BinStartIndex(i, 0), hi = g.BinEndIndex(i, 0); if (lo > b) sx_assert(val(lo - 1) < val(lo), "tied values are in one bin"); if (hi < e) sx_assert(val(hi - 1) < val(hi), "tied values are in one bin"); }
  if (SXD_KIND != 2) for (int i = 0; i < nb; i++) { sx_assert(g.BinStartIndex(i, 0) == (i ? g.BinEndIndex(i - 1, 0) : b), "bins ascend"); sx_assert(i == nb - 1 ? g.BinEndIndex(i, 0) == e : true, "bins ascend"); }
  bool every = SXD_KIND != 0 || n <= grid; // every distinct value is a bin of its own
  if (every) { for (int i = 0; i < nb; i++) sx_assert(val(g.BinStartIndex(i, 0)) == val(g.BinEndIndex(i, 0) - 1), "every distinct value is a candidate"); }
  else { sx_assert(nb <= grid, "no more bins than the grid size"); int step = (n + grid - 1) / grid;
    for (int i = 0; i < nb; i++) { int lo = g.BinStartIndex(i, 0), hi = g.BinEndIndex(i, 0); if (i < nb - 1) sx_assert(hi - lo >= step, "a thinned bin holds at least the step size"); int q = hi - 1; while (q > lo && val(q - 1) == val(hi - 1)) q--; sx_assert(q - lo < step, "thinning drops no more candidates than the grid size asks for"); } }
  if (SXD_KIND == 2) { std::vector<std::uint32_t> cats; auto mean = [&](int i) { double t = 0; for (int q = g.BinStartIndex(i, 0); q < g.BinEndIndex(i, 0); q++) t += y(s->SortIndex(q, 0)); return t / g.BinLength(i, 0); };
    for (int i = 0; i < nb; i++) { cats.push_back((std::uint32_t)val(g.BinStartIndex(i, 0))); auto v = g.CutpointVector(i, 0); sx_assert(v.size() == cats.size(), "left categories of a cutpoint"); for (size_t c = 0; c < cats.size(); c++) { int k = 0; for (auto x : v) k += x == cats[c]; sx_assert(k == 1, "left categories of a cutpoint"); } if (i) sx_assert(mean(i - 1) <= mean(i), "categories are ordered by average outcome"); } }
}
int sx_main() {
  Eigen::MatrixXd X(N, 1); XP = &X; Eigen::VectorXd y(N); YP = &y; static const double CAT[3] = {0, 3, 40};
  for (int i = 0; i < N; i++) { X(i, 0) = SXD_KIND ? CAT[sx_choice("category", 3)] : sx_real("x", -4, 4); y(i) = SXD_KIND == 2 ? sx_real("y", -4, 4) : 0; }
  if (!SXD_KIND) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { double d = X(i, 0) - X(j, 0); sx_assume(d == 0 || d > 1e-6 || d < -1e-6); } // values closer than 1e-15 count as equal
  std::vector<FeatureType> ft(1, SXD_KIND == 0 ? FeatureType::kNumeric : SXD_KIND == 1 ? FeatureType::kOrderedCategorical : FeatureType::kUnorderedCategorical);
  ForestTracker tr(X, ft, 1, N); tr.AssignAllSamplesToRoot(); int grid = 1 + (int)sx_choice("grid", SXD_GRID); CutpointGridContainer g(X, y, grid); sx_assert(g.CutpointGridSize() == grid, "grid size");
  check(g, tr, 0, grid);
  if (SXD_SPLIT) { Tree t; t.Init(1); TreeSplit sp; if (SXD_KIND == 2) { std::vector<std::uint32_t> c{(std::uint32_t)CAT[sx_choice("left_category", 3)]}; sp = TreeSplit(c); t.ExpandNode(0, 0, c, 0., 0.); } else { double thr = SXD_KIND ? CAT[sx_choice("threshold", 3)] : sx_real("threshold", -4, 4); sp = TreeSplit(thr); t.ExpandNode(0, 0, thr, 0., 0.); }
    tr.AddSplit(X, sp, 0, 0, 0, t.LeftChild(0), t.RightChild(0), true); check(g, tr, t.RightChild(0), grid); check(g, tr, t.LeftChild(0), grid); }
  sx_observe_i("bins", g.NumCutpoints(0)); sx_reach("end"); sx_sample(); return 0;
}
