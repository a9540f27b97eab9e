// Forests under test together with their reference trees.
#ifndef VERIF_FOREST_GEN_H_
#define VERIF_FOREST_GEN_H_
#include "ref_tree.h"
#include <stochtree/data.h>
#include <stochtree/ensemble.h>
#include <stochtree/container.h>
namespace ref {
using namespace StochTree;
struct RForest { int dim; std::vector<RTree> t; void init(int T, int d) { dim = d; t.assign(T, RTree()); for (auto& x : t) x.init(d); } };
// random-shape forest: tree j gets up to `splits` expansions
inline void grow(TreeEnsemble& e, RForest& F, Gen& g, int splits, int mask = 1) { for (size_t j = 0; j < F.t.size(); j++) for (int s = 0; s < splits; s++) if (s > 0 || j + 1 < F.t.size() || sx_choice("split_last", 2)) g.step(*e.GetTree(j), F.t[j], s ? mask : 1); else g.setleaf(*e.GetTree(j), F.t[j], F.t[j].pick(0).back()); }
inline void checkForest(TreeEnsemble& e, RForest& F) { sx_assert(e.NumTrees() == (int)F.t.size(), "number of trees"); sx_assert(e.OutputDimension() == F.dim, "output dimension"); int nl = 0; bool roots = true; for (size_t j = 0; j < F.t.size(); j++) { checkStructure(*e.GetTree(j), F.t[j]); nl += F.t[j].pick(0).size(); roots = roots && F.t[j].n[0].leaf; } sx_assert(e.NumLeaves() == nl, "number of leaves of a forest"); sx_assert(e.AllRoots() == roots, "all-roots test"); }
struct Rows { int n, p; std::vector<double> colmajor; double at(int i, int j) const { return colmajor[j * n + i]; } };
inline Rows rows(int n, int p, bool catcol, double lo = -4, double hi = 4) { Rows r{n, p, std::vector<double>(n * p)}; for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) r.colmajor[j * n + i] = catcol && j == 1 ? (double)sx_choice("category", 3) : sx_real("x", lo, hi); return r; }
inline Eigen::MatrixXd toEigen(const Rows& r) { Eigen::MatrixXd X(r.n, r.p); for (int i = 0; i < r.n; i++) for (int j = 0; j < r.p; j++) X(i, j) = r.at(i, j); return X; }
inline int leafOf(const RTree& R, const Rows& r, int i) { return R.route([&](int f) { return r.at(i, f); }); }
}
#endif
