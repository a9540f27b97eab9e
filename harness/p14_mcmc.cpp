// One Metropolis-Hastings step per tree: proposal, acceptance ratio, and what an accepted or rejected proposal leaves behind.
// START 0: first pass of a run; 1: forest initialized with a root value; 2: continue from a forest with splits.
#include "rng_model.h"
#include "leaf_spec.h"
#include <stochtree/partition_tracker.h>
#include <stochtree/cutpoint_candidates.h>
#include <stochtree/container.h>
#include "src/leaf_model.cpp"
#include <stochtree/tree_sampler.h>
using namespace ref; using namespace leafspec;
static const int T = SXD_TREES;
static std::vector<int> leavesOf(const Data& D, const RTree& R) { std::vector<int> o(D.n); for (int i = 0; i < D.n; i++) o[i] = R.route([&](int f) { return D.x(i, f); }); return o; }
static double predOf(const Data& D, const RTree& R, int k, int i) { double s = 0; for (int c = 0; c < DIM; c++) s += R.n[k].val[c] * (SXD_LEAF ? D.b(i, c) : 1.); return s; }
static int sizeOf(const std::vector<int>& at, int k) { int c = 0; for (int a : at) c += a == k; return c; }
// probability of proposing to grow, a function of the tree: both moves are equally likely where both are possible
static double probGrow(const RTree& R, const std::vector<int>& at, int mins, bool& any) { bool g = false, p = !R.n[0].leaf; for (int k : R.pick(0)) g = g || sizeOf(at, k) > 2 * mins; any = g || p; return g && p ? 0.5 : g ? 1. : 0.; }
static double logSplitPrior(double alpha, int d, bool split) { double p = alpha * std::pow(1. + d, -(double)SXD_BETA); return std::log(split ? p : 1 - p); }
static void addSplit(RTree& R, int k, int f, double thr, int lid, int rid) { Node a, b; a.val.assign(DIM, 0.); b.val = a.val; a.p = b.p = k; a.id = lid; b.id = rid; int l = R.n.size(); R.n.push_back(a); R.n.push_back(b); Node& n = R.n[k]; n.leaf = false; n.feat = f; n.thr = thr; n.l = l; n.r = l + 1; }
int sx_main() {
  Data D; static const int kind[2] = {0, 0}; const int P = SXD_P; make(D, SXD_N, P, kind); Model m = model(D); std::vector<FeatureType> ft(P, FeatureType::kNumeric);
  double alpha = sx_real("alpha", 0.25, 0.75); const int mins = 1 + (int)sx_choice("min_samples", SXD_MINS); TreePrior prior(alpha, SXD_BETA, mins); std::vector<double> vw(P, 1. / P); if (P > 1) vw[1] = 0.25;
  if (SXD_LEAF == 2) { double s = 0; for (int i = 0; i < D.n; i++) s += D.y[i]; sx_assume(s < 0.0625 && s > -0.0625); }
  ForestTracker tr(D.d.GetCovariates(), ft, T, D.n); ForestContainer fc(T, DIM, SXD_LEAF == 0); MCMCForestSampler<Model> mc; std::mt19937 gen(1); RForest F; F.init(T, DIM); std::vector<std::vector<double>> pred(T, std::vector<double>(D.n, 0.));
  if (SXD_START) { // outcome y = residual + current predictions
    if (SXD_START == 1) { double v = sx_real("root", -0.03125, 0.03125); if (DIM == 1) fc.InitializeRoot(v); else { std::vector<double> vv(DIM, v); fc.InitializeRoot(vv); } for (auto& t : F.t) t.n[0].val.assign(DIM, v); }
    else { fc.AddSamples(1); for (int j = 0; j < T; j++) { Tree& t = *fc.GetEnsemble(0)->GetTree(j); RTree& R = F.t[j]; int ns = j ? SXD_SPLITS2 : SXD_SPLITS; for (int s = 0; s < ns; s++) { auto lv = R.pick(0); int k = lv[sx_choice("leaf", lv.size())], f = P > 1 ? (int)sx_choice("feature", P) : 0, id = R.n[k].id; double thr = sx_real("threshold", -4, 4); TreeSplit sp(thr); std::vector<double> z(DIM, 0.); if (DIM == 1) t.ExpandNode(id, f, sp, 0., 0.); else t.ExpandNode(id, f, sp, z, z); addSplit(R, k, f, thr, t.LeftChild(id), t.RightChild(id)); tr.AddSplit(D.d.GetCovariates(), sp, f, j, id, t.LeftChild(id), t.RightChild(id), false); }
        auto at = leavesOf(D, R); for (int k : R.pick(0)) { sx_assume(sizeOf(at, k) >= (R.n[0].leaf ? 0 : mins)); for (int c = 0; c < DIM; c++) R.n[k].val[c] = SXD_ZERO ? 0.25 * (1 + j) - 0.5 * (k % 2) : sx_real("leaf", -1, 1); if (DIM == 1) t.SetLeaf(R.n[k].id, R.n[k].val[0]); else t.SetLeafVector(R.n[k].id, R.n[k].val); } } }
    UpdateResidualEntireForest(tr, D.d, D.r, fc.GetEnsemble(0), m.RequiresBasis(), std::minus<double>());
    for (int j = 0; j < T; j++) { auto at = leavesOf(D, F.t[j]); for (int i = 0; i < D.n; i++) pred[j][i] = predOf(D, F.t[j], at[i], i); } }
  RForest before = F; 
  for (int it = 0; it < SXD_ITERS; it++) {
    // sizes of leaves before the pass decide whether a move is possible at all (the sampler reports an error when none is)
    if (it == 0) for (int j = 0; j < T; j++) { bool any; probGrow(F.t[j], leavesOf(D, F.t[j]), mins, any); sx_assume(any); }
    rng::clear(); 
    if (SXD_ZERO) { /* leaf draws are the posterior means */ rng::zeroNormals() = true; }
    mc.SampleOneIter(tr, fc, m, D.d, D.r, prior, gen, vw, D.s2, SXD_START == 1 && it == 0); auto log = rng::log(); size_t q = 0; int ns = it + 1 + (SXD_START == 2); sx_assert(fc.NumSamples() == ns, "number of samples");
    TreeEnsemble* e = fc.GetEnsemble(ns - 1); auto next = [&](rng::Kind k) -> rng::Draw& { sx_assert(q < log.size() && log[q].k == k && log[q].gen == &gen, "the sequence of random draws"); return log[q++]; };
    auto uniform = [&](const rng::Draw& d, size_t n) { sx_assert(d.w.size() == n, "candidates of a draw"); for (size_t i = 1; i < n; i++) sx_check_eq(d.w[i], d.w[0], "candidates are equally likely"); };
    for (int j = 0; j < T; j++) {
      std::vector<double> r(D.n); for (int i = 0; i < D.n; i++) { r[i] = D.y[i]; for (int k = 0; k < T; k++) if (k != j) r[i] -= pred[k][i]; }
      Tree& t = *e->GetTree(j); RTree& R = F.t[j]; auto at = leavesOf(D, R); bool any; double pg = probGrow(R, at, mins, any); int nl = R.pick(0).size(), np = R.pick(2).size();
      auto ml = [&](const std::vector<int>& s) { return logml(D, stat(D, [&](int i) { return s[i]; }, r.data())); };
      auto& step = next(rng::DISCRETE); sx_assert(step.w.size() == 2, "two kinds of moves"); sx_check_eq(step.w[0] * (1 - pg), step.w[1] * pg, "probability of proposing to grow");
      if (step.idx == 0) {
        auto& ld = next(rng::DISCRETE); uniform(ld, nl); auto lv = R.pick(0); int k = -1, id = -1; { // position in the tree's leaf list before the move
          int depthOrder = ld.idx; auto ids = SXD_START == 2 || it ? fc.GetEnsemble(ns - 2)->GetTree(j)->GetLeaves() : std::vector<int>(1, 0); id = ids[depthOrder]; for (int c : lv) if (R.n[c].id == id) k = c; } sx_assert(k >= 0, "the leaf that is split");
        auto& vd = next(rng::DISCRETE); sx_assert((int)vd.w.size() == P, "one weight per feature"); for (int f = 1; f < P; f++) sx_check_eq(vd.w[f] * vw[0], vd.w[0] * vw[f], "features are drawn by their weights"); int f = vd.idx;
        double lo = 0, hi = 0; bool first = true; std::vector<int> in(D.n, 0), L(D.n, 0), Q(D.n, 0); for (int i = 0; i < D.n; i++) if (at[i] == k) { in[i] = 1; double x = D.x(i, f); if (first || x < lo) lo = x; if (first || x > hi) hi = x; first = false; }
        if (first || !(hi > lo)) { /* nothing to split on: no proposal */ }
        else {
          auto& cd = next(rng::UNIFORM); sx_check_eq(cd.a, lo, "cutpoints are drawn from the range of the feature in the leaf"); sx_check_eq(cd.b, hi, "cutpoints are drawn from the range of the feature in the leaf"); double thr = cd.out; int a = 0, b = 0; for (int i = 0; i < D.n; i++) if (in[i]) { L[i] = D.x(i, f) <= thr; Q[i] = !L[i]; a += L[i]; b += Q[i]; }
          bool split = t.NumLeaves() == nl + 1; 
          if (a < mins || b < mins) sx_assert(!split, "no leaf gets smaller than the minimum"); 
          else { RTree N = R; addSplit(N, k, f, thr, -1, -1); bool d; double pgn = probGrow(N, leavesOf(D, N), mins, d); int dep = R.depth(k);
            double A = logSplitPrior(alpha, dep, true) + 2 * logSplitPrior(alpha, dep + 1, false) - logSplitPrior(alpha, dep, false) + ml(L) + ml(Q) - ml(in) + std::log((1 - pgn) / (double)N.pick(2).size()) - std::log(pg / (double)nl);
            auto& u = next(rng::UNIFORM); sx_assert(u.a == 0 && u.b == 1, "acceptance by a standard uniform draw"); if (split) sx_assert(std::log(u.out) <= A, "a split is accepted with the Metropolis-Hastings probability"); else sx_assert(std::log(u.out) > A, "a split is rejected with the Metropolis-Hastings probability"); }
          if (split) { sx_assert(!t.IsLeaf(id) && t.SplitIndex(id) == f, "the proposed split is made"); sx_check_eq(t.Threshold(id), thr, "the proposed split is made"); addSplit(R, k, f, t.Threshold(id), t.LeftChild(id), t.RightChild(id)); } } }
      else {
        auto& pd = next(rng::DISCRETE); uniform(pd, np); auto ids = fc.GetEnsemble(ns - 2)->GetTree(j)->GetLeafParents(); int k = -1, id = ids[pd.idx]; for (int c : R.pick(2)) if (R.n[c].id == id) k = c; sx_assert(k >= 0, "the split that is pruned"); int dep = R.depth(k);
        std::vector<int> in(D.n, 0), L(D.n, 0), Q(D.n, 0); for (int i = 0; i < D.n; i++) { L[i] = at[i] == R.n[k].l; Q[i] = at[i] == R.n[k].r; in[i] = L[i] || Q[i]; }
        RTree N = R; N.kill(k); N.n[k].leaf = true; bool d; double pgn = probGrow(N, leavesOf(D, N), mins, d); bool pruned = t.NumLeaves() == nl - 1;
        auto& u = next(rng::UNIFORM); sx_assert(u.a == 0 && u.b == 1, "acceptance by a standard uniform draw");
        if (pgn == 0) sx_assert(!pruned, "a prune that could not be undone is rejected");
        else { double A = -(logSplitPrior(alpha, dep, true) + 2 * logSplitPrior(alpha, dep + 1, false) - logSplitPrior(alpha, dep, false) + ml(L) + ml(Q) - ml(in)) + std::log(pgn / (double)N.pick(0).size()) - std::log((1 - pg) / (double)np);
          if (pruned) sx_assert(std::log(u.out) <= A, "a prune is accepted with the Metropolis-Hastings probability"); else sx_assert(std::log(u.out) > A, "a prune is rejected with the Metropolis-Hastings probability"); }
        if (pruned) { sx_assert(t.IsLeaf(id), "the proposed prune is made"); int kid = R.n[k].id; R.kill(k); R.n[k].leaf = true; R.n[k].val.assign(DIM, 0.); R.n[k].id = kid; } }
      at = leavesOf(D, R); auto leaves = t.GetLeaves(); sx_assert(leaves.size() == R.pick(0).size(), "no other change to the tree");
      for (size_t x = 0; x < leaves.size(); x++) { int k = -1; for (int c : R.pick(0)) if (R.n[c].id == leaves[x]) k = c; sx_assert(k >= 0, "no other change to the tree");
        Post p = post(D, stat(D, [&](int i) { return at[i] == k; }, r.data())); double z[2], v[2]; for (int c = 0; c < DIM; c++) { z[c] = next(rng::NORMAL).raw; v[c] = t.LeafValue(leaves[x], c); R.n[k].val[c] = v[c]; }
        if (DIM == 1) { double d = v[0] * p.P[0][0] - p.h[0]; sx_check_eq(d * d, z[0] * z[0] * p.P[0][0], "leaves are drawn given the partial residual"); }
        else { double det = p.P[0][0] * p.P[1][1] - p.P[0][1] * p.P[1][0], d[2] = {v[0] - (p.P[1][1] * p.h[0] - p.P[0][1] * p.h[1]) / det, v[1] - (p.P[0][0] * p.h[1] - p.P[0][1] * p.h[0]) / det}; sx_check_eq(p.P[0][0] * d[0] * d[0] + 2 * p.P[0][1] * d[0] * d[1] + p.P[1][1] * d[1] * d[1], z[0] * z[0] + z[1] * z[1], "leaves are drawn given the partial residual"); } }
      for (int i = 0; i < D.n; i++) { pred[j][i] = predOf(D, R, at[i], i); sx_assert(tr.GetNodeId(i, j) == R.n[at[i]].id, "recorded leaf of an observation"); sx_check_eq(tr.GetTreeSamplePrediction(i, j), pred[j][i], "recorded prediction of a tree"); } }
    sx_assert(q == log.size(), "no other random draws"); checkForest(*e, F);
    for (int i = 0; i < D.n; i++) { double s = D.y[i]; for (int j = 0; j < T; j++) s -= pred[j][i]; sx_check_eq(D.r.GetElement(i), s, "residual = outcome - forest prediction"); } }
  if (SXD_START == 2) checkForest(*fc.GetEnsemble(0), before); 
  sx_observe("residual", D.r.GetElement(0)); sx_observe_i("leaves", fc.GetEnsemble(fc.NumSamples() - 1)->NumLeaves()); sx_reach("end"); sx_sample(); return 0;
}
