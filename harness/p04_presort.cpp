// The pre-sorted per-feature partitions used by grow-from-root.
#include "ref_tree.h"
#include <stochtree/data.h>
#include <stochtree/partition_tracker.h>
using namespace StochTree; using namespace ref;
static const int N = SXD_N, P = SXD_FEATS;
static Eigen::MatrixXd* XP;
static void check(ForestTracker& tr, RTree& R) {
  Eigen::MatrixXd& X = *XP; auto* s = tr.GetSortedNodeSampleTracker();
  for (size_t k = 0; k < R.n.size(); k++) { int id = R.n[k].id; std::vector<int> want; for (int i = 0; i < N; i++) { int a = 0; for (;;) { if (a == (int)k) { want.push_back(i); break; } if (R.n[a].leaf) break; a = RTree::goesLeft(R.n[a], X(i, R.n[a].feat)) ? R.n[a].l : R.n[a].r; } }
    for (int f = 0; f < P; f++) { auto got = s->NodeIndices(id, f); sx_assert(got.size() == want.size() && tr.SortedNodeSize(id, f) == (int)want.size() && tr.SortedNodeEnd(id, f) - tr.SortedNodeBegin(id, f) == (int)want.size(), "node size is the same for every feature");
      for (int w : want) { int c = 0; for (auto x : got) c += x == w; sx_assert(c == 1, "every feature's slice holds exactly the node's observations"); }
      size_t j = 0; for (auto it = tr.SortedNodeBeginIterator(id, f); it != tr.SortedNodeEndIterator(id, f); ++it, ++j) { sx_assert(*it == got[j], "iterating a slice"); sx_assert(s->SortIndex(tr.SortedNodeBegin(id, f) + j, f) == got[j], "indexing a slice"); }
      if (R.n[k].leaf) for (size_t j = 1; j < got.size(); j++) { sx_assert(X(got[j - 1], f) <= X(got[j], f), "a slice is sorted by its feature"); if (X(got[j - 1], f) == X(got[j], f)) sx_assert(got[j - 1] < got[j], "ties keep the row order"); } } }
  for (int i = 0; i < N; i++) { int at = R.route([&](int f) { return X(i, f); }); sx_assert(tr.GetNodeId(i, 0) == R.n[at].id, "recorded leaf"); } }
int sx_main() {
  Eigen::MatrixXd X(N, P); XP = &X; for (int i = 0; i < N; i++) for (int j = 0; j < P; j++) X(i, j) = sx_real("x", -4, 4);
  std::vector<FeatureType> ft(P, FeatureType::kNumeric); ForestTracker tr(X, ft, 1, N); tr.AssignAllSamplesToRoot();
  for (int round = 0; round < SXD_ROUNDS; round++) {
    Tree t; t.Init(1); RTree R; R.init(1); Gen g; g.feats = P; g.cats = SXD_CATS; if (round) tr.ResetRoot(X, ft, 0);
    check(tr, R); // splits are made in the order grow-from-root makes them: node ids are consecutive
    for (int s = 0; s < SXD_K; s++) { auto lv = R.pick(0); int k = lv[sx_choice("leaf", lv.size())]; g.expand(t, R, k); Node& n = R.n[k]; std::vector<std::uint32_t> c = n.cats; TreeSplit sp = n.cat ? TreeSplit(c) : TreeSplit(n.thr); tr.AddSplit(X, sp, n.feat, 0, n.id, t.LeftChild(n.id), t.RightChild(n.id), true); if (s == SXD_K - 1) check(tr, R); } }
  sx_observe_i("first", tr.GetSortedNodeSampleTracker()->SortIndex(0, 0)); sx_reach("end"); sx_sample();
  return 0;
}
