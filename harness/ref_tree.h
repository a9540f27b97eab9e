// An independent reference model of a decision tree (a plain pointer-free binary tree kept by the harness) and the
// checks that tie a StochTree::Tree to it.  Nothing in here calls the code under test except through its public API.
#ifndef VERIF_REF_TREE_H_
#define VERIF_REF_TREE_H_
#include "symx.h"
#include <stochtree/tree.h>
#include <vector>
namespace ref {
using StochTree::Tree;
struct Node { bool leaf = true; bool cat = false; int feat = 0; double thr = 0; std::vector<std::uint32_t> cats; std::vector<double> val; int l = -1, r = -1, p = -1; int id = 0; bool live = true; };
struct RTree {
  int dim = 1; std::vector<Node> n;
  void init(int d) { dim = d; n.assign(1, Node()); n[0].val.assign(d, 0.0); }
  std::vector<int> pick(int what) const { std::vector<int> o; for (size_t i = 0; i < n.size(); i++) { if (!n[i].live) continue; bool lf = n[i].leaf, lp = !lf && n[n[i].l].leaf && n[n[i].r].leaf; if ((what == 0 && lf) || (what == 1 && !lf) || (what == 2 && lp)) o.push_back(i); } return o; }
  int live() const { int c = 0; for (auto& x : n) c += x.live; return c; }
  int depth(int i) const { int d = 0; while (n[i].p >= 0) { i = n[i].p; d++; } return d; }
  void kill(int i) { if (n[i].l >= 0) { kill(n[i].l); n[n[i].l].live = false; } if (n[i].r >= 0) { kill(n[i].r); n[n[i].r].live = false; } n[i].l = n[i].r = -1; }
  // routing rule of the documentation: missing goes left, numeric <= threshold goes left, category in the set goes left
  static bool goesLeft(const Node& q, double x) {
    if (x != x) return true;
    if (!q.cat) return x <= q.thr;
    for (auto c : q.cats) if (x >= (double)c && x < (double)c + 1.0) return true;
    return false; }
  template <class F> int route(F x) const { int i = 0; while (!n[i].leaf) i = goesLeft(n[i], x(n[i].feat)) ? n[i].l : n[i].r; return i; }
  // the same with one forked decision per split at most (the branch conditions are shared with the code under test)
};
inline bool has(const std::vector<int>& v, int x) { for (int y : v) if (y == x) return true; return false; }
// bring the ids of the reference nodes in step with the real tree by walking both from the root
inline void sync(Tree& t, RTree& R, int i) { if (R.n[i].leaf) return; R.n[R.n[i].l].id = t.LeftChild(R.n[i].id); R.n[R.n[i].r].id = t.RightChild(R.n[i].id); sync(t, R, R.n[i].l); sync(t, R, R.n[i].r); }
inline void sameList(const std::vector<std::int32_t>& got, const std::vector<int>& want, const RTree& R, const char* m) {
  sx_assert(got.size() == want.size(), m);
  for (int w : want) { int c = 0; for (auto g : got) c += (g == R.n[w].id); sx_assert(c == 1, m); } }
inline void checkStructure(Tree& t, RTree& R, bool values = true) {
  R.n[0].id = 0; 
  // the two trees have the same shape, starting from the root
  std::vector<int> stack{0}; std::vector<int> seen;
  sx_assert(t.IsRoot(0), "node 0 is the root"); 
  while (!stack.empty()) {
    int i = stack.back(); stack.pop_back(); const Node q = R.n[i]; int id = q.id;
    sx_assert(id >= 0 && id < t.NumNodes(), "child ids are valid"); sx_assert(!has(seen, id), "no node has two parents"); seen.push_back(id);
    sx_assert(t.IsLeaf(id) == q.leaf, "leaf status"); sx_assert((t.RightChild(id) == Tree::kInvalidNodeId) == q.leaf, "a leaf has no right child");
    sx_assert(t.IsRoot(id) == (i == 0), "only the root is a root"); sx_assert(t.GetDepth(id) == R.depth(i), "depth of a node");
    if (q.leaf) {
      sx_assert(t.NodeType(id) == StochTree::TreeNodeType::kLeafNode, "leaf node type"); sx_assert(!t.IsLeafParent(id), "a leaf is no leaf parent");
      if (values) for (int k = 0; k < R.dim; k++) sx_check_eq(t.LeafValue(id, k), q.val[k], "leaf value");
      if (values && R.dim > 1) { auto v = t.LeafVector(id); sx_assert((int)v.size() == R.dim, "leaf vector length"); for (int k = 0; k < R.dim; k++) sx_check_eq(v[k], q.val[k], "leaf vector entry"); }
    } else {
      sx_assert(t.SplitIndex(id) == q.feat, "split feature");
      if (q.cat) { sx_assert(t.NodeType(id) == StochTree::TreeNodeType::kCategoricalSplitNode, "categorical node type"); auto c = t.CategoryList(id); sx_assert(c == q.cats, "category list"); }
      else { sx_assert(t.NodeType(id) == StochTree::TreeNodeType::kNumericalSplitNode, "numeric node type"); sx_check_eq(t.Threshold(id), q.thr, "threshold"); }
      R.n[q.l].id = t.LeftChild(id); R.n[q.r].id = t.RightChild(id);
      sx_assert(t.Parent(t.LeftChild(id)) == id && t.Parent(t.RightChild(id)) == id, "children point back to their parent");
      bool lp = R.n[q.l].leaf && R.n[q.r].leaf; sx_assert(t.IsLeafParent(id) == lp, "leaf-parent status");
      stack.push_back(q.l); stack.push_back(q.r);
    } }
  auto lv = R.pick(0), in = R.pick(1), lp = R.pick(2);
  sameList(t.GetLeaves(), lv, R, "leaf list = reachable leaves, once each"); sameList(t.GetInternalNodes(), in, R, "internal-node list = reachable split nodes, once each"); sameList(t.GetLeafParents(), lp, R, "leaf-parent list = splits with two leaf children, once each");
  sx_assert(t.NumLeaves() == (int)lv.size() && t.NumLeafParents() == (int)lp.size() && t.NumSplitNodes() == (int)in.size(), "counts");
  sx_assert(t.NumValidNodes() == R.live(), "number of live nodes"); sx_assert(t.NumDeletedNodes() == t.NumNodes() - R.live(), "number of deleted nodes"); sx_assert(t.IsRoot() == (R.n[0].leaf), "single-node test"); }
// one operation, chosen symbolically: 0 expand a leaf, 1 collapse a split node, 2 prune a leaf parent
struct Gen {
  int feats = 1; int ncat = 3; bool cats = true; bool nums = true; bool any = false; bool byfeat = false; // byfeat: feature 0 numeric, feature 1 categorical
   // any: arbitrary double bit patterns
  double num(const char* n) { return any ? sx_any_double(n) : sx_real(n, -8, 8); }
  std::vector<double> leafv(int d) { std::vector<double> v(d); for (auto& x : v) x = num("leaf"); return v; }
  void expand(Tree& t, RTree& R, int i) {
    auto a = leafv(R.dim), b = leafv(R.dim); int f = feats > 1 ? (int)sx_choice("feature", feats) : 0; bool c = byfeat ? f == 1 : cats && nums ? sx_choice("categorical", 2) == 1 : cats;
    int id = R.n[i].id; Node L, Q; L.val = a; Q.val = b; L.p = Q.p = i;
    double thr = 0; std::vector<std::uint32_t> cl; if (c) { static const std::vector<std::uint32_t> C[3] = {{0, 2}, {1}, {3, 0}}; cl = C[ncat > 1 ? sx_choice("categories", ncat) : 0]; } else thr = num("threshold");
    if (R.dim == 1) { if (c) t.ExpandNode(id, f, cl, a[0], b[0]); else t.ExpandNode(id, f, thr, a[0], b[0]); } else { if (c) t.ExpandNode(id, f, cl, a, b); else t.ExpandNode(id, f, thr, a, b); }
    int l = R.n.size(); R.n.push_back(L); R.n.push_back(Q); Node& q = R.n[i]; q.leaf = false; q.cat = c; q.feat = f; q.thr = thr; q.cats = cl; q.l = l; q.r = l + 1; sync(t, R, 0); }
  void collapse(Tree& t, RTree& R, int i) { auto v = leafv(R.dim); int id = R.n[i].id; if (R.dim == 1) t.CollapseToLeaf(id, v[0]); else t.CollapseToLeaf(id, v); R.kill(i); Node& q = R.n[i]; q.leaf = true; q.val = v; q.cats.clear(); sync(t, R, 0); }
  void change(Tree& t, RTree& R, int i) { auto v = leafv(R.dim); int id = R.n[i].id; if (R.dim == 1) t.ChangeToLeaf(id, v[0]); else t.ChangeToLeaf(id, v); R.kill(i); Node& q = R.n[i]; q.leaf = true; q.val = v; q.cats.clear(); sync(t, R, 0); }
  void setleaf(Tree& t, RTree& R, int i) { auto v = leafv(R.dim); int id = R.n[i].id; if (R.dim == 1) t.SetLeaf(id, v[0]); else t.SetLeafVector(id, v); R.n[i].val = v; }
  // a history of at most K operations; op kinds by mask (1 expand, 2 collapse, 4 prune, 8 overwrite a leaf value)
  void step(Tree& t, RTree& R, int mask = 15) {
    std::vector<std::pair<int,int>> o; auto lv = R.pick(0), in = R.pick(1), lp = R.pick(2);
    if (mask & 1) for (int x : lv) o.push_back({0, x}); if (mask & 2) for (int x : in) if (!has(lp, x) || !(mask & 4)) o.push_back({1, x}); if (mask & 4) for (int x : lp) o.push_back({2, x}); if (mask & 8) o.push_back({3, lv.back()});
    auto q = o[sx_choice("op", o.size())]; if (q.first == 0) expand(t, R, q.second); else if (q.first == 1) collapse(t, R, q.second); else if (q.first == 2) change(t, R, q.second); else setleaf(t, R, q.second); }
};
}
#endif
