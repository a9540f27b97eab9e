// Group labels: dense numbering, membership lists and lookups agree for any labels.
#include "symx.h"
#include <stochtree/category_tracker.h>
#include <stochtree/random_effects.h>
using namespace StochTree;
static const int N = SXD_N;
int sx_main() {
  int n = (int)sx_choice("n", N) + 1; std::vector<int32_t> g(n); for (auto& x : g) x = (int32_t)sx_int("label", INT32_MIN, INT32_MAX); std::vector<int32_t> g0 = g;
  RandomEffectsTracker t(g); CategorySampleTracker& c = *t.GetCategorySampleTracker(); SampleCategoryMapper& m = *t.GetSampleCategoryMapper();
  std::vector<int> rep(n), first; int G = 0; for (int i = 0; i < n; i++) { rep[i] = i; for (int j = 0; j < i; j++) if (g0[j] == g0[i]) { rep[i] = j; break; } G += rep[i] == i; }
  sx_assert(c.NumCategories() == G && t.NumCategories() == G, "number of groups"); sx_assert((int)c.GetLabelMap().size() == G && (int)t.GetUniqueGroupIds().size() == G && (int)c.GetUniqueGroupIds().size() == G, "one entry per distinct label");
  std::vector<int> usednum(G, 0); int total = 0; sx_assert((int)c.indices_.size() == n, "every observation is listed"); std::vector<int> seen(n, 0);
  for (int i = 0; i < n; i++) { int num = (int)sx_concrete(c.CategoryNumber(g0[i])); sx_assert(num >= 0 && num < G, "group number in range"); sx_assert(t.CategoryNumber(g0[i]) == num && c.GetLabelMap()[g0[i]] == num && c.GetUniqueGroupIds()[num] == g0[i], "label map and list of labels agree"); sx_assert(t.GetCategoryId(i) == g0[i] && m.GetCategoryId(i) == g0[i], "label of an observation");
    if (rep[i] == i) { sx_assert(!usednum[num]++, "distinct labels get distinct numbers"); int size = 0; for (int j = 0; j < n; j++) size += rep[j] == i; total += size; sx_assert(c.CategorySize(g0[i]) == size && t.CategorySize(g0[i]) == size, "size of a group"); int b = c.CategoryBegin(g0[i]), e = c.CategoryEnd(g0[i]); sx_assert(b == t.CategoryBegin(g0[i]) && e == t.CategoryEnd(g0[i]) && e - b == size && b >= 0 && e <= n, "range of a group");
      auto& ni = c.NodeIndices(g0[i]); auto& nn = c.NodeIndicesInternalIndex(num); sx_assert(&t.NodeIndices(g0[i]) == &ni && &t.NodeIndicesInternalIndex(num) == &nn, "tracker and category tracker agree"); sx_assert((int)ni.size() == size && (int)nn.size() == size, "length of the member list");
      for (int k = 0; k < size; k++) { int a = (int)sx_concrete(c.indices_[b + k]), d = (int)sx_concrete(ni[k]); sx_assert(a >= 0 && a < n && rep[a] == i && !seen[a]++, "the range of a group holds its observations, once each"); sx_assert(d >= 0 && d < n && rep[d] == i && nn[k] == d && (k == 0 || d > ni[k - 1]), "the member list holds the group's observations in order"); } } }
  sx_assert(total == n, "groups partition the observations");
  int32_t u = (int32_t)sx_int("other", INT32_MIN, INT32_MAX); bool known = false; for (int i = 0; i < n; i++) known = known || g0[i] == u; LabelMapper lm(c.GetLabelMap()); sx_assert(lm.ContainsLabel(u) == known, "known labels"); sx_assert((int)lm.Keys().size() == G && lm.Map() == c.GetLabelMap(), "label mapper copies the map");
  if (!known) { bool threw = false; switch (sx_choice("lookup", 5)) { case 0: try { lm.CategoryNumber(u); } catch (const std::exception&) { threw = true; } break; case 1: try { c.CategoryNumber(u); } catch (const std::exception&) { threw = true; } break; case 2: try { c.CategorySize(u); } catch (const std::exception&) { threw = true; } break; case 3: try { c.CategoryBegin(u); } catch (const std::exception&) { threw = true; } break; default: try { c.CategoryEnd(u); } catch (const std::exception&) { threw = true; } }
    sx_assert(threw, "a label that was never seen is rejected, not given another group's number"); sx_assert((int)c.GetLabelMap().size() == G && (int)lm.Map().size() == G && !lm.ContainsLabel(u), "looking up an unknown label does not add it"); }
  else for (int i = 0; i < n; i++) sx_assert(lm.CategoryNumber(g0[i]) == c.CategoryNumber(g0[i]), "label mapper lookup");
  SampleCategoryMapper m2(m); int k = (int)sx_choice("which", n); m.SetCategoryId(k, u); for (int i = 0; i < n; i++) { sx_assert(m.GetCategoryId(i) == (i == k ? u : g0[i]), "changing the label of one observation"); sx_assert(m2.GetCategoryId(i) == g0[i], "a copy keeps its labels"); } sx_assert(m2.NumObservations() == n && m.NumObservations() == n, "number of observations");
  bool threw = false; try { m.GetCategoryId(n); } catch (const std::exception&) { threw = true; } sx_assert(threw, "observation number out of range is rejected");
  for (int i = 0; i < n; i++) { t.SetPrediction(i, i + 1.5); sx_assert(g[i] == g0[i], "caller's labels unchanged"); } for (int i = 0; i < n; i++) sx_assert(t.GetPrediction(i) == i + 1.5, "tracked prediction");
  sx_observe_i("groups", G); sx_reach("end"); sx_sample(); return 0;
}
