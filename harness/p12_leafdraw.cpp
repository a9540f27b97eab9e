// Leaf parameters are drawn from their conjugate posterior.
#include "rng_model.h"
#include "leaf_spec.h"
#include <stochtree/partition_tracker.h>
#include "src/leaf_model.cpp"
using namespace ref; using namespace leafspec;
int sx_main() {
  Data D; static const int kind[2] = {0, SXD_CAT}; const int P = SXD_CAT ? 2 : 1; make(D, SXD_N, P, kind); Model m = model(D); std::vector<FeatureType> ft(P, FeatureType::kNumeric); if (P > 1) ft[1] = FeatureType::kUnorderedCategorical;
  const int tn = 1; TreeEnsemble e(2, DIM, SXD_LEAF == 0); RForest F; F.init(2, DIM); Gen g; g.byfeat = true; g.feats = P;
  // starting values: every tree is a root with the same value
  double root = sx_real("root", SXD_LEAF == 2 ? -0.09375 : -4, SXD_LEAF == 2 ? 0.09375 : 4); m.SetEnsembleRootPredictedValue(D.d, &e, root); for (auto& t : F.t) t.n[0].val.assign(DIM, root); checkForest(e, F);
  ForestTracker tr(D.d.GetCovariates(), ft, 2, D.n); tr.AssignAllSamplesToRoot(); Tree& t = *e.GetTree(tn); RTree& R = F.t[tn];
  auto split = [&](int k) { g.expand(t, R, k); Node& n = R.n[k]; std::vector<std::uint32_t> c = n.cats; TreeSplit sp = n.cat ? TreeSplit(c) : TreeSplit(n.thr); tr.AddSplit(D.d.GetCovariates(), sp, n.feat, tn, n.id, t.LeftChild(n.id), t.RightChild(n.id), false); };
  for (int s = 0; s < SXD_SPLITS; s++) { auto lv = R.pick(0); split(lv[sx_choice("leaf", lv.size())]); }
  if (SXD_PRUNE) { auto lp = R.pick(2); int k = lp[sx_choice("prune", lp.size())], id = R.n[k].id, l = t.LeftChild(id), r = t.RightChild(id); g.collapse(t, R, k); tr.RemoveSplit(D.d.GetCovariates(), &t, tn, id, l, r, false); if (sx_choice("regrow", 2)) split(R.pick(0)[0]); }
  if (SXD_SCALE) { double ns = sx_real("new_tau", 0.0625, 16);
#if SXD_LEAF != 2
    m.SetScale(ns); D.tau = ns;
#endif
  }
  std::mt19937 gen(1); rng::clear(); m.SampleLeafParameters(D.d, tr, D.r, &t, tn, D.s2, gen); auto log = rng::log(); auto leaves = t.GetLeaves();
  std::vector<int> at(D.n); for (int i = 0; i < D.n; i++) at[i] = R.route([&](int f) { return D.x(i, f); });
  sx_assert((int)log.size() == (int)leaves.size() * DIM, "one draw per leaf parameter"); for (auto& d : log) sx_assert(d.k == rng::NORMAL && d.gen == &gen, "normal draws from the supplied generator");
  for (size_t q = 0; q < leaves.size(); q++) { int k = -1; for (int c : R.pick(0)) if (R.n[c].id == leaves[q]) k = c; sx_assert(k >= 0, "leaf list");
    Post p = post(D, stat(D, [&](int i) { return at[i] == k; }, D.y.data())); double z[2], x[2]; for (int c = 0; c < DIM; c++) { z[c] = (log[q * DIM + c].out - log[q * DIM + c].a) / log[q * DIM + c].b; z[c] = log[q * DIM + c].raw; x[c] = t.LeafValue(leaves[q], c); }
    if (DIM == 1) { double d = x[0] * p.P[0][0] - p.h[0]; sx_check_eq(d * d, z[0] * z[0] * p.P[0][0], "leaf value is a draw from N(posterior mean, posterior variance)"); sx_assert(d * z[0] >= 0, "leaf value increases with the draw"); }
    else { double det = p.P[0][0] * p.P[1][1] - p.P[0][1] * p.P[1][0], d[2] = {x[0] - (p.P[1][1] * p.h[0] - p.P[0][1] * p.h[1]) / det, x[1] - (p.P[0][0] * p.h[1] - p.P[0][1] * p.h[0]) / det}; sx_check_eq(p.P[0][0] * d[0] * d[0] + 2 * p.P[0][1] * d[0] * d[1] + p.P[1][1] * d[1] * d[1], z[0] * z[0] + z[1] * z[1], "leaf vector is a draw from N(posterior mean, posterior covariance)"); }
    for (int c = 0; c < DIM; c++) R.n[k].val[c] = x[c]; }
  checkForest(e, F); for (int i = 0; i < D.n; i++) sx_check_eq(D.r.GetElement(i), D.y[i], "residuals unchanged");
  sx_observe("leaf", t.LeafValue(leaves[0], 0)); sx_reach("end"); sx_sample(); return 0;
}
