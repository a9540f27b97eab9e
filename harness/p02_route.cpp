// Routing of a covariate row: documented rule = prediction-time walk = training-time split test, for every bit pattern.
#include "ref_tree.h"
#include <stochtree/data.h>
using namespace StochTree; using namespace ref;
#ifndef SXD_SPLITS
#define SXD_SPLITS 2
#endif
typedef Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>> MapT;
int sx_main() {
  Tree t; RTree R; R.init(1); Gen g; g.any = true; g.feats = SXD_FEATS; t.Init(1);
  for (int s = 0; s < SXD_SPLITS; s++) g.step(t, R, 1);
  if (SXD_PRUNE) { g.step(t, R, 6); if (R.n[0].leaf || sx_choice("regrow", 2)) g.step(t, R, 1); }
  const int P = SXD_FEATS; Eigen::MatrixXd X(1, P); std::vector<double> buf(P); for (int j = 0; j < P; j++) X(0, j) = buf[j] = sx_any_double("x");
  MapT M(buf.data(), 1, P);
  int at = R.route([&](int f) { return buf[f]; });
  int id = EvaluateTree(t, X, 0); sx_assert(id == R.n[at].id, "prediction-time walk follows the documented rule");
  sx_assert(EvaluateTree(t, M, 0) == id, "both matrix layouts route a row to the same leaf");
  sx_check_eq(t.PredictFromNode(id), R.n[at].val[0], "the predicted value is the value of the leaf");
  // training-time splitting, applied along the same path, must end in the same leaf
  int i = 0; while (!R.n[i].leaf) { Node& q = R.n[i]; double x = buf[q.feat]; bool a;
    if (q.cat) { std::vector<std::uint32_t> c = q.cats; TreeSplit sp(c); a = sp.SplitTrue(x); sx_assert(!sp.NumericSplit() && sp.SplitSet(), "split kind"); sx_assert(RowSplitLeft(X, 0, q.feat, c) == a, "row test = split test (categorical)"); }
    else { TreeSplit sp(q.thr); a = sp.SplitTrue(x); sx_assert(sp.NumericSplit() && sp.SplitSet(), "split kind"); sx_assert(RowSplitLeft(X, 0, q.feat, q.thr) == a, "row test = split test (numeric)"); }
    i = a ? q.l : q.r; }
  sx_assert(i == at, "training-time splitting and prediction-time routing agree");
  sx_observe_i("leaf", id); sx_reach("end"); sx_sample();
  return 0;
}
