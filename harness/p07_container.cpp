// Posterior samples in a container are independent objects: extending, copying, re-initialising or growing one never changes another.
#include "forest_gen.h"
using namespace StochTree; using namespace ref;
static const int T = 2, D = SXD_DIM;
int sx_main() {
  Gen g; g.any = true; g.feats = 1; g.cats = false;
  bool presized = sx_choice("presized", 2); int S = 2; ForestContainer c = presized ? ForestContainer(S, T, D, D == 1) : ForestContainer(T, D, D == 1);
  std::vector<RForest> F(S); for (auto& f : F) f.init(T, D);
  if (!presized) { if (sx_choice("init_root", 2)) { std::vector<double> v(D); for (auto& x : v) x = sx_any_double("init"); if (D == 1) c.InitializeRoot(v[0]); else c.InitializeRoot(v); sx_assert(c.NumSamples() == 0, "a root forest is not a sample yet"); RForest I; I.init(T, D); for (auto& t : I.t) t.n[0].val = v; checkForest(*c.GetEnsemble(0), I); }
    c.AddSamples(S); }
  sx_assert(c.NumSamples() == S, "number of samples"); for (int s = 0; s < S; s++) checkForest(*c.GetEnsemble(s), F[s]);
  auto all = [&] { for (size_t s = 0; s < F.size(); s++) checkForest(*c.GetEnsemble(s), F[s]); };
  for (int k = 0; k < SXD_K; k++) switch (k == 0 ? 0 : sx_choice("action", 4)) {
    case 0: { int s = k == 0 ? 0 : sx_choice("grow_sample", F.size()), j = sx_choice("tree", T); g.step(*c.GetEnsemble(s)->GetTree(j), F[s].t[j], 7); all(); break; }
    case 1: { int to = sx_choice("to", F.size()), from = sx_choice("from", F.size()); sx_assume(to != from); c.CopyFromPreviousSample(to, from); F[to] = F[from]; all(); break; }
    case 2: { c.AddSamples(1); RForest f; f.init(T, D); F.push_back(f); sx_assert(c.NumSamples() == (int)F.size(), "number of samples"); all(); break; }
    default: { int s = sx_choice("reset_sample", F.size()), j = sx_choice("tree", T); c.GetEnsemble(s)->ResetInitTree(j); F[s].t[j].init(D); all(); break; } }
  // an ensemble copied from another shares nothing with it
  TreeEnsemble e(*c.GetEnsemble(0)); RForest E = F[0]; checkForest(e, E); g.step(*e.GetTree(0), E.t[0], 7); checkForest(e, E); all();
  sx_observe_i("samples", c.NumSamples()); sx_observe_i("leaves", c.NumLeaves(0)); sx_reach("end"); sx_sample(); return 0;
}
