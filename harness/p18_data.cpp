// Data handed over row by row or column by column is stored, read and updated element by element.
#include "symx.h"
#include <stochtree/data.h>
#include <vector>
using namespace StochTree;
static const int N = SXD_N, P = SXD_P;
typedef std::vector<double> V;
static V buf(int k) { V v(k); for (auto& x : v) x = sx_any_double("value"); return v; }
static double at(const V& b, int n, int p, bool row, int i, int j) { return row ? b[i * p + j] : b[j * n + i]; }
static void same(double a, double b, const char* m) { uint64_t x, y; __builtin_memcpy(&x, &a, 8); __builtin_memcpy(&y, &b, 8); sx_assert(x == y, m); }
int sx_main() {
  int n = (int)sx_choice("rows", N) + 1, p = (int)sx_choice("cols", P) + 1; bool row = sx_choice("row_major", 2); V b = buf(n * p); V b0 = b;
  switch (sx_choice("what", 3)) {
    case 0: { ColumnMatrix m(b.data(), n, p, row); int q = (int)sx_choice("cols2", P) + 1, n2 = (int)sx_choice("rows2", N) + 1; bool again = sx_choice("reload", 2), row2 = sx_choice("row_major2", 2); V b2;
      if (again) { b2 = buf(n2 * q); m.LoadData(b2.data(), n2, q, row2); } else { b2 = b; n2 = n; q = p; row2 = row; }
      sx_assert(m.NumRows() == n2 && m.NumCols() == q, "dimensions of a matrix"); int si = (int)sx_choice("set_row", n2), sj = (int)sx_choice("set_col", q); double nv = sx_any_double("new"); m.SetElement(si, sj, nv);
      for (int i = 0; i < n2; i++) for (int j = 0; j < q; j++) { double w = i == si && j == sj ? nv : at(b2, n2, q, row2, i, j); same(m.GetElement(i, j), w, "matrix element"); same(m.GetData()(i, j), w, "matrix data"); }
      break; }
    case 1: { ColumnVector v(b.data(), n * p); sx_assert(v.NumRows() == n * p, "length of a vector"); int s = (int)sx_choice("set", n * p); double nv = sx_any_double("new"); v.SetElement(s, nv); for (int i = 0; i < n * p; i++) { double w = i == s ? nv : b[i]; same(v.GetElement(i), w, "vector element"); same(v.GetData()(i), w, "vector data"); } V c = buf(2); v.LoadData(c.data(), 2); sx_assert(v.NumRows() == 2, "length of a reloaded vector"); for (int i = 0; i < 2; i++) same(v.GetElement(i), c[i], "reloaded vector element"); break; }
    default: {
      ForestDataset d; sx_assert(!d.HasCovariates() && !d.HasBasis() && !d.HasVarWeights() && d.NumObservations() == 0, "an empty data set"); bool cfirst = sx_choice("order", 2); int k = (int)sx_choice("basis_cols", P) + 1; V z = buf(n * k), w = buf(n); bool zrow = sx_choice("basis_row_major", 2);
      if (cfirst) d.AddCovariates(b.data(), n, p, row); d.AddBasis(z.data(), n, k, zrow); d.AddVarianceWeights(w.data(), n); if (!cfirst) d.AddCovariates(b.data(), n, p, row);
      sx_assert(d.HasCovariates() && d.HasBasis() && d.HasVarWeights(), "components present"); sx_assert(d.NumObservations() == n && d.NumCovariates() == p && d.NumBasis() == k, "dimensions of a data set");
      auto check = [&](const V& zz, bool zr) { for (int i = 0; i < n; i++) { for (int j = 0; j < p; j++) { same(d.CovariateValue(i, j), at(b0, n, p, row, i, j), "covariate value"); same(d.GetCovariates()(i, j), at(b0, n, p, row, i, j), "covariate data"); } for (int j = 0; j < k; j++) { same(d.BasisValue(i, j), at(zz, n, k, zr, i, j), "basis value"); same(d.GetBasis()(i, j), at(zz, n, k, zr, i, j), "basis data"); } same(d.VarWeightValue(i), w[i], "variance weight"); same(d.GetVarWeights()(i), w[i], "variance weight data"); } };
      check(z, zrow); V b1 = b; for (auto& x : b) x = 7; b = b1; // the data set keeps its own copy
      bool ur = sx_choice("update_row_major", 2); int un = (int)sx_choice("update_rows", N + 1) + 1, uk = (int)sx_choice("update_cols", P) + 1; V u = buf(un * uk); bool threw = false; V last = z; bool lr = zrow;
      try { d.UpdateBasis(u.data(), un, uk, ur); } catch (const std::exception&) { threw = true; }
      sx_assert(threw == (un != n || uk != k), "an update of another shape is rejected"); if (!threw) { last = u; lr = ur; } sx_assert(d.NumBasis() == k && d.NumObservations() == n && (int)d.GetBasis().rows() == n && (int)d.GetBasis().cols() == k, "dimensions after an update"); check(last, lr);
      RandomEffectsDataset r; sx_assert(!r.HasBasis() && !r.HasVarWeights() && !r.HasGroupLabels(), "an empty random effects data set"); std::vector<int32_t> g(n), g0; for (auto& x : g) x = (int32_t)sx_int("label", INT32_MIN, INT32_MAX); g0 = g; r.AddBasis(z.data(), n, k, zrow); r.AddVarianceWeights(w.data(), n); r.AddGroupLabels(g); sx_assert(r.HasBasis() && r.HasVarWeights() && r.HasGroupLabels() && r.NumObservations() == n, "random effects data set"); for (auto& x : g) x = 0;
      for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) { same(r.BasisValue(i, j), at(z, n, k, zrow, i, j), "random effects basis value"); same(r.GetBasis()(i, j), at(z, n, k, zrow, i, j), "random effects basis data"); } same(r.VarWeightValue(i), w[i], "random effects weight"); sx_assert(r.GroupId(i) == g0[i] && r.GetGroupLabels()[i] == g0[i], "group label"); } }
  }
  for (int i = 0; i < n * p; i++) same(b[i], b0[i], "caller's buffer unchanged"); sx_observe("first", b[0]); sx_reach("end"); sx_sample(); return 0;
}
