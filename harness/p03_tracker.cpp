// The sampler's record of which observation sits in which leaf, after any history of splits and prunes.
#include "ref_tree.h"
#include <stochtree/data.h>
#include <stochtree/partition_tracker.h>
using namespace StochTree; using namespace ref;
#ifndef SXD_PRE
#define SXD_PRE 0
#endif
static const int N = SXD_N, P = SXD_FEATS, T = 2;
static Eigen::MatrixXd* XP;
// membership by the routing rule, one decision per (split, observation)
struct Memo { std::vector<std::vector<int>> m; };
static std::vector<int> members(RTree& R, Memo& M, int node) { std::vector<int> o; for (int i = 0; i < N; i++) { int a = 0; for (;;) { if (a == node) { o.push_back(i); break; } if (R.n[a].leaf) break; if ((int)M.m.size() <= a) M.m.resize(a + 1, std::vector<int>(N, -1)); if (M.m[a][i] < 0) M.m[a][i] = RTree::goesLeft(R.n[a], (*XP)(i, R.n[a].feat)); a = M.m[a][i] ? R.n[a].l : R.n[a].r; } } return o; }
static void check(ForestTracker& tr, Tree& t, RTree& R, int tree, Memo& M) {
  auto* u = tr.GetUnsortedNodeSampleTracker();
  // every observation is recorded in exactly the leaf the prediction walk sends it to
  for (int i = 0; i < N; i++) sx_assert(tr.GetNodeId(i, tree) == EvaluateTree(t, *XP, i), "recorded leaf of an observation = leaf reached by the prediction walk");
  int covered = 0;
  for (size_t k = 0; k < R.n.size(); k++) { if (!R.n[k].live) continue; int id = R.n[k].id; auto want = members(R, M, k); auto got = u->TreeNodeIndices(tree, id);
    sx_assert(u->IsValidNode(tree, id), "a live node is valid in the partition"); sx_assert(u->IsLeaf(tree, id) == R.n[k].leaf, "leaf status in the partition");
    if (!R.n[k].leaf) { sx_assert(u->LeftNode(tree, id) == R.n[R.n[k].l].id && u->RightNode(tree, id) == R.n[R.n[k].r].id, "partition children"); sx_assert(u->LeftNodeIsLeaf(tree, id) == R.n[R.n[k].l].leaf && u->RightNodeIsLeaf(tree, id) == R.n[R.n[k].r].leaf, "partition children leaf status"); }
    sx_assert(u->Parent(tree, id) == (R.n[k].p < 0 ? -1 : R.n[R.n[k].p].id), "partition parent");
    sx_assert((int)got.size() == (int)want.size() && tr.UnsortedNodeSize(tree, id) == (int)want.size(), "node size"); for (int w : want) { int c = 0; for (auto x : got) c += x == w; sx_assert(c == 1, "a node holds exactly the observations routed through it"); }
    sx_assert(tr.UnsortedNodeEnd(tree, id) - tr.UnsortedNodeBegin(tree, id) == (int)want.size(), "node range"); int cnt = 0; for (auto it = tr.UnsortedNodeBeginIterator(tree, id); it != tr.UnsortedNodeEndIterator(tree, id); ++it) { cnt++; bool in = false; for (int w : want) in = in || *it == w; sx_assert(in, "iterating a node visits only its observations"); } sx_assert(cnt == (int)want.size(), "iterating a node visits all its observations");
    if (R.n[k].leaf) covered += got.size(); }
  sx_assert(covered == N, "the leaves partition the training set"); }
int sx_main() {
  Eigen::MatrixXd X(N, P); XP = &X; for (int i = 0; i < N; i++) for (int j = 0; j < P; j++) X(i, j) = j == 1 ? (double)sx_choice("category", 3) : SXD_NAN && i == 0 && sx_choice("missing", 2) ? std::nan("") : sx_real("x", -4, 4);
  std::vector<FeatureType> ft(P, FeatureType::kNumeric); ForestTracker tr(X, ft, T, N);
  Tree t0, t1; t0.Init(1); t1.Init(1); RTree R0, R1; Memo M0, M1; R0.init(1); R1.init(1); Gen g; g.byfeat = true; g.feats = P;
  tr.AssignAllSamplesToRoot(); tr.AssignAllSamplesToConstantPrediction(0.0);
  auto split = [&](int i) { g.expand(t0, R0, i); Node& n = R0.n[i]; std::vector<std::uint32_t> c = n.cats; TreeSplit sp = n.cat ? TreeSplit(c) : TreeSplit(n.thr); tr.AddSplit(X, sp, n.feat, 0, n.id, t0.LeftChild(n.id), t0.RightChild(n.id), false); };
  check(tr, t0, R0, 0, M0);
  if (SXD_PRE) { split(0); split(R0.n[0].l); split(R0.n[0].r); check(tr, t0, R0, 0, M0); } // start from a full tree of depth two
  for (int s = 0; s < SXD_K; s++) {
    std::vector<std::pair<int,int>> o; auto lv = R0.pick(0), lp = R0.pick(2), in = R0.pick(1); for (int x : lv) o.push_back({0, x}); for (int x : lp) o.push_back({1, x}); for (int x : in) if (!has(lp, x)) o.push_back({1, x}); if (SXD_RESET && s == SXD_K - 1) o.push_back({2, 0});
    auto q = o[sx_choice("op", o.size())];
    if (q.first == 0) split(q.second);
    else if (q.first == 1) { int id = R0.n[q.second].id, l = t0.LeftChild(id), r = t0.RightChild(id); g.collapse(t0, R0, q.second); if ((int)M0.m.size() > q.second) M0.m[q.second].assign(N, -1); tr.RemoveSplit(X, &t0, 0, id, l, r, false); }
    else { t0.Reset(); t0.Init(1); R0.init(1); M0 = Memo(); tr.ResetRoot(X, ft, 0); }
    check(tr, t0, R0, 0, M0); }
  // the other tree of the forest is untouched, and can be split on its own
  check(tr, t1, R1, 1, M1);
  sx_observe_i("n0", tr.GetNodeId(0, 0)); sx_reach("end"); sx_sample();
  return 0;
}
