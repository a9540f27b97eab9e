// One grow-from-root pass over a forest: candidate weights, drawn splits, leaf draws, residual.
#include "rng_model.h"
#include "leaf_spec.h"
#include <stochtree/partition_tracker.h>
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/container.h>
#include "src/leaf_model.cpp"
#include <stochtree/tree_sampler.h>
using namespace ref; using namespace leafspec;
static const FeatureType FT[3] = {FeatureType::kNumeric, FeatureType::kOrderedCategorical, FeatureType::kUnorderedCategorical};
static const int T = SXD_TREES;
// route every observation through a reference tree (node index), one decision per observation and split
static std::vector<int> leavesOf(const Data& D, const RTree& R) { std::vector<int> o(D.n); for (int i = 0; i < D.n; i++) o[i] = R.route([&](int f) { return D.x(i, f); }); return o; }
static double predOf(const Data& D, const RTree& R, int k, int i) { double s = 0; for (int c = 0; c < DIM; c++) s += R.n[k].val[c] * (SXD_LEAF ? D.b(i, c) : 1.); return s; }
int sx_main() {
  Data D; static const int kind[2] = {SXD_K0, SXD_K1 < 0 ? 0 : SXD_K1}; const int P = SXD_K1 < 0 ? 1 : 2; make(D, SXD_N, P, kind); Model m = model(D); std::vector<FeatureType> ft; for (int j = 0; j < P; j++) ft.push_back(FT[kind[j]]);
  for (int j = 0; j < P; j++) if (!kind[j]) for (int i = 0; i < D.n; i++) for (int k = 0; k < i; k++) { double d = D.x(i, j) - D.x(k, j); sx_assume(d == 0 || d > 1e-6 || d < -1e-6); }
  if (SXD_LEAF == 2) { double s = 0; for (int i = 0; i < D.n; i++) s += D.y[i]; sx_assume(s < 0.0625 && s > -0.0625); } // the multivariate model asks for centered outcomes
  double alpha = sx_real("alpha", 0.25, 0.75); const int mins = 1 + (int)sx_choice("min_samples", SXD_MINS); TreePrior prior(alpha, SXD_BETA, mins); std::vector<double> vw(P, 1. / P); if (P > 1) { int z = sx_choice("unused_feature", 3); if (z < 2) vw[z] = 0; }
  ForestTracker tr(D.d.GetCovariates(), ft, T, D.n); ForestContainer fc(T, DIM, SXD_LEAF == 0); GFRForestSampler<Model> gfr(9); std::mt19937 gen(1);
  std::vector<std::vector<double>> pred(T, std::vector<double>(D.n, 0.)); std::vector<RForest> samples;
  for (int it = 0; it < SXD_ITERS; it++) {
    rng::clear(); rng::zeroNormals() = SXD_ZERO; gfr.SampleOneIter(tr, fc, m, D.d, D.r, prior, gen, vw, D.s2, ft, false); auto log = rng::log(); size_t q = 0;
    sx_assert(fc.NumSamples() == it + 1, "one forest is added"); TreeEnsemble* e = fc.GetEnsemble(it); RForest F; F.init(T, DIM);
    for (int j = 0; j < T; j++) {
      std::vector<double> r(D.n); for (int i = 0; i < D.n; i++) { r[i] = D.y[i]; for (int k = 0; k < T; k++) if (k != j) r[i] -= pred[k][i]; } // partial residual
      Tree& t = *e->GetTree(j); RTree& R = F.t[j]; std::vector<std::vector<int>> in(1, std::vector<int>(D.n, 1)); std::vector<int> todo{0};
      while (!todo.empty()) { int k = todo.back(); todo.pop_back(); // nodes are visited depth first, left before right
        auto ml = [&](const std::vector<int>& s) { return logml(D, stat(D, [&](int i) { return s[i]; }, r.data())); };
        struct Cand { int f; std::vector<int> L, R; double ll; }; std::vector<Cand> cand;
        for (int f = 0; f < P; f++) { if (vw[f] == 0) continue; std::vector<double> v; // distinct values of the node, ascending (categories by average outcome)
          for (int i = 0; i < D.n; i++) if (in[k][i]) { double x = D.x(i, f); size_t p = 0; while (p < v.size() && v[p] < x) p++; if (p == v.size() || v[p] != x) v.insert(v.begin() + p, x); }
          if (kind[f] == 2) { std::vector<double> avg; for (double c : v) { double s = 0; int n = 0; for (int i = 0; i < D.n; i++) if (in[k][i] && D.x(i, f) == c) { s += r[i]; n++; } avg.push_back(s / n); } for (size_t a = 1; a < v.size(); a++) for (size_t b = a; b > 0 && avg[b] < avg[b - 1]; b--) { std::swap(avg[b], avg[b - 1]); std::swap(v[b], v[b - 1]); } }
          Cand c; c.f = f; c.L.assign(D.n, 0); c.R = in[k]; for (size_t p = 0; p + 1 < v.size(); p++) { int nl = 0, nr = 0; for (int i = 0; i < D.n; i++) { if (in[k][i] && D.x(i, f) == v[p]) { c.L[i] = 1; c.R[i] = 0; } nl += c.L[i]; nr += c.R[i]; } if (nl >= mins && nr >= mins) { c.ll = ml(c.L) + ml(c.R); cand.push_back(c); } } }
        sx_assert(q < log.size() && log[q].k == rng::DISCRETE && log[q].gen == &gen, "one split decision per node, from the supplied generator"); auto& d = log[q++]; size_t C = cand.size(); sx_assert(d.w.size() == C + 1, "one weight per admissible split and one for stopping");
        double odds = std::pow(1. + R.depth(k), (double)SXD_BETA) / alpha - 1.; // prior odds of stopping
        double stop = ml(in[k]) + std::log(odds) + (C ? std::log((double)C) : 0.); size_t pick = d.idx; double mine = pick < C ? cand[pick].ll : stop;
        for (size_t c = 0; c <= C; c++) if (c != pick) sx_check_eq(std::log(d.w[c]) - std::log(d.w[pick]), (c < C ? cand[c].ll : stop) - mine, c < C && pick < C ? "splits are drawn in proportion to their marginal likelihood" : "stopping is weighted by the prior odds and the number of splits");
        if (pick == C) continue;
        int id = R.n[k].id; sx_assert(!t.IsLeaf(id) && t.SplitIndex(id) == cand[pick].f, "the drawn split is made, on its feature"); Node a, b; a.val.assign(DIM, 0.); b.val = a.val; a.p = b.p = k; int l = R.n.size(); R.n.push_back(a); R.n.push_back(b); Node& n = R.n[k]; n.leaf = false; n.feat = cand[pick].f; n.cat = kind[n.feat] == 2; if (n.cat) n.cats = t.CategoryList(id); else n.thr = t.Threshold(id); n.l = l; n.r = l + 1; R.n[l].id = t.LeftChild(id); R.n[l + 1].id = t.RightChild(id);
        for (int i = 0; i < D.n; i++) if (in[k][i]) sx_assert(RTree::goesLeft(R.n[k], D.x(i, R.n[k].feat)) == (cand[pick].L[i] != 0), "the drawn split is made, at its cutpoint");
        in.push_back(cand[pick].L); in.push_back(cand[pick].R); todo.push_back(l + 1); todo.push_back(l); }
      // leaf draws
      auto leaves = t.GetLeaves(); sx_assert(leaves.size() == R.pick(0).size(), "no other splits are made"); std::vector<int> at = leavesOf(D, R);
      for (size_t x = 0; x < leaves.size(); x++) { int k = -1; for (int c : R.pick(0)) if (R.n[c].id == leaves[x]) k = c; sx_assert(k >= 0, "no other splits are made");
        Post p = post(D, stat(D, [&](int i) { return at[i] == k; }, r.data())); double z[2], v[2]; for (int c = 0; c < DIM; c++) { sx_assert(q < log.size() && log[q].k == rng::NORMAL && log[q].gen == &gen, "one draw per leaf parameter"); z[c] = log[q++].raw; v[c] = t.LeafValue(leaves[x], c); R.n[k].val[c] = v[c]; }
        if (DIM == 1) { double d = v[0] * p.P[0][0] - p.h[0]; sx_check_eq(d * d, z[0] * z[0] * p.P[0][0], "leaves are drawn given the partial residual"); }
        else { double det = p.P[0][0] * p.P[1][1] - p.P[0][1] * p.P[1][0], d[2] = {v[0] - (p.P[1][1] * p.h[0] - p.P[0][1] * p.h[1]) / det, v[1] - (p.P[0][0] * p.h[1] - p.P[0][1] * p.h[0]) / det}; sx_check_eq(p.P[0][0] * d[0] * d[0] + 2 * p.P[0][1] * d[0] * d[1] + p.P[1][1] * d[1] * d[1], z[0] * z[0] + z[1] * z[1], "leaves are drawn given the partial residual"); } }
      for (int i = 0; i < D.n; i++) { pred[j][i] = predOf(D, R, at[i], i); sx_assert(tr.GetNodeId(i, j) == R.n[at[i]].id, "recorded leaf of an observation"); sx_check_eq(tr.GetTreeSamplePrediction(i, j), pred[j][i], "recorded prediction of a tree"); } }
    sx_assert(q == log.size(), "no other random draws"); samples.push_back(F);
    for (int i = 0; i < D.n; i++) { double s = D.y[i]; for (int j = 0; j < T; j++) s -= pred[j][i]; sx_check_eq(D.r.GetElement(i), s, "residual = outcome - forest prediction"); } }
  for (int it = 0; it < SXD_ITERS; it++) checkForest(*fc.GetEnsemble(it), samples[it]);
  sx_observe("residual", D.r.GetElement(0)); sx_observe_i("leaves", fc.GetEnsemble(0)->NumLeaves()); sx_reach("end"); sx_sample(); return 0;
}
