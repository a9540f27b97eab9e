// Marginal likelihood of a proposed and of an existing split.
#include "leaf_spec.h"
#include <stochtree/partition_tracker.h>
using namespace StochTree; using namespace ref; using namespace leafspec;
int sx_main() {
  Data D; static const int kind[2] = {0, SXD_CAT}; const int P = SXD_CAT ? 2 : 1; make(D, SXD_N, P, kind); Model m = model(D); std::vector<FeatureType> ft{FeatureType::kNumeric, FeatureType::kUnorderedCategorical}; ft.resize(P);
  ForestTracker tr(D.d.GetCovariates(), ft, 2, D.n); tr.AssignAllSamplesToRoot(); Tree t; t.Init(DIM); RTree R; R.init(DIM); const int tn = 1; Gen g; g.feats = P; g.cats = SXD_CAT;
  auto expand = [&](int k) { g.expand(t, R, k); Node& n = R.n[k]; std::vector<std::uint32_t> c = n.cats; TreeSplit sp = n.cat ? TreeSplit(c) : TreeSplit(n.thr); tr.AddSplit(D.d.GetCovariates(), sp, n.feat, tn, n.id, t.LeftChild(n.id), t.RightChild(n.id), false); };
  auto at = [&](int i) { return R.route([&](int f) { return D.x(i, f); }); };
  int k = 0; if (SXD_DEEP) { expand(0); auto lv = R.pick(0); k = lv[sx_choice("leaf", 2)]; }
  // the proposal: where it would send the rows of leaf k
  std::vector<int> in(D.n), left(D.n); RTree Q = R; for (int i = 0; i < D.n; i++) in[i] = at(i) == k;
  int feat = P > 1 ? (int)sx_choice("feature", P) : 0; TreeSplit sp; Node pn; pn.cat = feat == 1; pn.feat = feat; if (pn.cat) { pn.cats = {(std::uint32_t)(sx_choice("left", 2) * 3), 7u}; std::vector<std::uint32_t> c = pn.cats; sp = TreeSplit(c); } else { pn.thr = sx_real("threshold", -4, 4); sp = TreeSplit(pn.thr); }
  for (int i = 0; i < D.n; i++) left[i] = in[i] && RTree::goesLeft(pn, D.x(i, feat));
  Stat all = stat(D, [&](int i) { return in[i]; }, D.y.data()), L = stat(D, [&](int i) { return left[i]; }, D.y.data()), Rr = stat(D, [&](int i) { return in[i] && !left[i]; }, D.y.data());
  auto check = [&](std::tuple<double, double, data_size_t, data_size_t> e, const char* a, const char* b) { sx_assert(std::get<2>(e) == L.n && std::get<3>(e) == Rr.n, "number of observations on each side of the split"); sx_check_eq(std::get<0>(e), logml(D, L) + logml(D, Rr), a); sx_check_eq(std::get<1>(e), logml(D, all), b); };
  check(m.EvaluateProposedSplit(D.d, tr, D.r, sp, tn, R.n[k].id, feat, D.s2), "log marginal likelihood of a proposed split", "log marginal likelihood without the proposed split");
  for (int i = 0; i < D.n; i++) sx_check_eq(D.r.GetElement(i), D.y[i], "evaluation leaves the residuals alone");
  // the same split carried out
  std::vector<double> z(DIM, 0.); int id = R.n[k].id; if (DIM == 1) t.ExpandNode(id, feat, sp, 0., 0.); else t.ExpandNode(id, feat, sp, z, z); tr.AddSplit(D.d.GetCovariates(), sp, feat, tn, id, t.LeftChild(id), t.RightChild(id), false);
  check(m.EvaluateExistingSplit(D.d, tr, D.r, D.s2, tn, id, t.LeftChild(id), t.RightChild(id)), "log marginal likelihood of an existing split", "log marginal likelihood without the existing split");
  sx_observe("y0", D.r.GetElement(0)); sx_reach("end"); sx_sample(); return 0;
}
