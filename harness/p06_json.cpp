// A serialized and reloaded tree / forest / container is indistinguishable from the original, now and under later changes.
#include "forest_gen.h"
#include <stochtree/random_effects.h>
using namespace StochTree; using namespace ref;
int sx_main() {
  Gen g; g.any = SXD_ANY; g.feats = 2; g.byfeat = true; g.ncat = 1;
#if SXD_WHAT == 0
  Tree t; RTree R; R.init(SXD_DIM); t.Init(SXD_DIM);
  for (int s = 0; s < SXD_K; s++) g.step(t, R, s ? 7 : 1);
  json j = t.to_json(); Tree u; u.Init(1);
  if (sx_choice("dirty_target", 2)) { u.ExpandNode(0, 1, std::vector<std::uint32_t>{1, 5}, 1., 2.); u.ExpandNode(1, 0, .5, 3., 4.); u.CollapseToLeaf(1, 0.5); }
  u.from_json(j); checkStructure(u, R); sx_assert(u.HasCategoricalSplit() == t.HasCategoricalSplit() && u.OutputDimension() == t.OutputDimension() && u.NumNodes() == t.NumNodes() && u.NumDeletedNodes() == t.NumDeletedNodes(), "scalar fields survive"); 
  json j2 = u.to_json(); Tree w; w.from_json(j2); checkStructure(w, R);
  // the reloaded tree keeps evolving exactly like the original
  for (int k = 0; k < SXD_POST; k++) { g.step(u, R, k ? 15 : 7); checkStructure(u, R); }
  sx_observe_i("nodes", u.NumNodes()); sx_observe_i("leaves", u.NumLeaves());
#elif SXD_WHAT == 2
  // random effects: containers of samples and the map from group labels to internal numbers
  const int C = SXD_DIM, G = 2, S = 2; RandomEffectsContainer c(C, G); std::vector<double> al, xi, sg;
  for (int s = 0; s < S; s++) { MultivariateRegressionRandomEffectsModel m(C, G); Eigen::VectorXd a(C); Eigen::MatrixXd x(C, G), v = Eigen::MatrixXd::Zero(C, C); for (int k = 0; k < C; k++) { al.push_back(a(k) = sx_real("alpha", -9, 9)); sg.push_back(v(k, k) = sx_real("sigma", .1, 9)); } for (int k = 0; k < C; k++) for (int q = 0; q < G; q++) x(k, q) = sx_real("xi", -9, 9); for (int q = 0; q < G; q++) for (int k = 0; k < C; k++) xi.push_back(x(k, q)); m.SetWorkingParameter(a); m.SetGroupParameters(x); m.SetGroupParameterCovariance(v); c.AddSample(m); }
  json j = c.to_json(); RandomEffectsContainer d(1 + sx_choice("other", 2), 3); if (sx_choice("dirty", 2)) { MultivariateRegressionRandomEffectsModel m(1, 3); Eigen::VectorXd a(1); a(0) = 1; Eigen::MatrixXd x(1, 3), v(1, 1); x.setOnes(); v.setOnes(); m.SetWorkingParameter(a); m.SetGroupParameters(x); m.SetGroupParameterCovariance(v); RandomEffectsContainer h(1, 3); h.AddSample(m); d = h; }
  d.from_json(j); sx_assert(d.NumSamples() == S && d.NumComponents() == C && d.NumGroups() == G, "random-effects dimensions survive");
  sx_assert((int)d.GetAlpha().size() == S * C && (int)d.GetSigma().size() == S * C && (int)d.GetXi().size() == S * C * G && (int)d.GetBeta().size() == S * C * G, "random-effects sizes survive");
  for (int i = 0; i < S * C; i++) { sx_check_eq(d.GetAlpha()[i], al[i], "working parameter survives"); sx_check_eq(d.GetSigma()[i], sg[i], "variance component survives"); }
  for (int i = 0; i < S * C * G; i++) { sx_check_eq(d.GetXi()[i], xi[i], "group parameter survives"); sx_check_eq(d.GetBeta()[i], xi[i] * al[(i / (C * G)) * C + i % C], "combined coefficient survives"); }
  // label maps: any distinct labels
  int64_t k0 = sx_int("label", -1000, 1000), k1 = sx_int("label", -1000, 1000), k2 = sx_int("label", -1000, 1000); sx_assume(k0 < k1); sx_assume(k2 != k0); sx_assume(k2 != k1);
  std::map<int32_t, int32_t> mp; mp[k0] = 1; mp[k1] = 0; LabelMapper lm(mp), l2; json jl = lm.to_json(); if (sx_choice("dirty_map", 2)) { std::map<int32_t, int32_t> o; o[(int32_t)k2] = 7; o[(int32_t)k0] = 5; l2 = LabelMapper(o); } l2.from_json(jl);
  sx_assert(l2.ContainsLabel(k0) && l2.ContainsLabel(k1) && !l2.ContainsLabel(k2), "a reloaded label map knows exactly the saved labels"); sx_assert(l2.CategoryNumber(k0) == 1 && l2.CategoryNumber(k1) == 0, "a reloaded label map gives the saved numbers"); sx_assert(l2.Keys() == lm.Keys(), "label order survives");
  sx_observe("b", d.GetBeta()[0]);
#else
  const int T = 2, D = SXD_DIM; ForestContainer c(T, D, D == 1); c.AddSamples(2); std::vector<RForest> F(2); for (int s = 0; s < 2; s++) { F[s].init(T, D); if (s) g.expand(*c.GetEnsemble(s)->GetTree(1), F[s].t[1], 0); else { for (int k = 0; k < SXD_K; k++) g.step(*c.GetEnsemble(s)->GetTree(0), F[s].t[0], k ? 7 : 1); if (sx_choice("second_tree", 2)) g.expand(*c.GetEnsemble(s)->GetTree(1), F[s].t[1], 0); } }
  json j = c.to_json(); int target = sx_choice("target", 4); ForestContainer d(target ? T + 1 : T, 1, true); if (target == 2) d.AddSamples(3); if (target == 3) { d.AddSamples(1); d.Reset(); }
  d.from_json(j);
  sx_assert(d.NumSamples() == 2 && d.NumTrees() == T && d.OutputDimension() == D && d.IsLeafConstant() == (D == 1), "container fields survive");
  for (int s = 0; s < 2; s++) { checkForest(*d.GetEnsemble(s), F[s]); sx_assert(d.IsLeafConstant(s) == (D == 1) && d.NumLeaves(s) == c.NumLeaves(s) && d.NumTrees(s) == T && d.OutputDimension(s) == D, "forest fields survive"); }
  // sampling can continue from the reloaded container
  d.AddSamples(1); sx_assert(d.NumSamples() == 3, "a reloaded container can be extended"); d.CopyFromPreviousSample(2, 0); RForest G = F[0]; checkForest(*d.GetEnsemble(2), G); g.step(*d.GetEnsemble(2)->GetTree(0), G.t[0], 7); checkForest(*d.GetEnsemble(2), G); checkForest(*d.GetEnsemble(0), F[0]);
  // a single forest on its own
  TreeEnsemble e(1, 1, true); e.from_json(c.GetEnsemble(1)->to_json()); checkForest(e, F[1]); sx_assert(e.IsLeafConstant() == (D == 1), "leaf kind of a single forest");
  sx_observe_i("leaves", d.NumLeaves(0));
#endif
  sx_reach("end"); sx_sample(); return 0;
}
