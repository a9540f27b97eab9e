// Data sets for the leaf models and the textbook formulas: y_i | leaf ~ N(x_i' beta, sigma2 * v_i), beta ~ N(0, tau) or N(0, Sigma0).
// SXD_LEAF 0 constant, 1 univariate regression, 2 two-dimensional regression.  SXD_WT: variance weights given.  SXD_FIX: fixed numbers for the basis (1), the weights (2), the parameters (4).
#ifndef VERIF_LEAF_SPEC_H_
#define VERIF_LEAF_SPEC_H_
#include "forest_gen.h"
#include <stochtree/leaf_model.h>
#include <cmath>
namespace leafspec {
using namespace StochTree;
#if SXD_LEAF == 0
typedef GaussianConstantLeafModel Model; enum { DIM = 1 };
#elif SXD_LEAF == 1
typedef GaussianUnivariateRegressionLeafModel Model; enum { DIM = 1 };
#else
typedef GaussianMultivariateRegressionLeafModel Model; enum { DIM = 2 };
#endif
struct Data {
  int n, p; std::vector<double> X, B, W, y; ForestDataset d; ColumnVector r; double s2, tau; Eigen::MatrixXd S0;
  double x(int i, int j) const { return X[j * n + i]; }
  double b(int i, int k) const { return DIM == 1 && SXD_LEAF == 0 ? 1. : B[k * n + i]; }
  double w(int i) const { return SXD_WT ? 1. / W[i] : 1.; }
};
inline double par(int bit, const char* nm, double lo, double hi, double fixed) { return SXD_FIX & bit ? fixed : sx_real(nm, lo, hi); }
// column kinds: 0 numeric, 1 ordered, 2 unordered categorical
inline void make(Data& D, int n, int p, const int* kind) {
  static const double CAT[3] = {0, 3, 40}; D.n = n; D.p = p; D.X.resize(n * p); D.y.resize(n); D.B.resize(n * DIM); D.W.resize(n);
  for (int i = 0; i < n; i++) { for (int j = 0; j < p; j++) D.X[j * n + i] = kind[j] ? CAT[sx_choice("category", 3)] : sx_real("x", -4, 4); D.y[i] = sx_real("y", -4, 4); }
  if (SXD_LEAF) for (int i = 0; i < n; i++) for (int k = 0; k < DIM; k++) D.B[k * n + i] = par(1, "basis", -4, 4, ((5 * i + 3 * k) % 7 - 3) * 0.5);
  if (SXD_WT) for (int i = 0; i < n; i++) D.W[i] = par(2, "var_weight", 0.25, 4, 0.5 * (1 << i));
  D.s2 = par(4, "sigma2", 0.0625, 16, 0.5); D.tau = par(4, "tau", 0.0625, 16, 2.);
  D.d.AddCovariates(D.X.data(), n, p, false); if (SXD_LEAF) D.d.AddBasis(D.B.data(), n, DIM, false); if (SXD_WT) D.d.AddVarianceWeights(D.W.data(), n);
  D.r = ColumnVector(D.y.data(), n); D.S0 = Eigen::MatrixXd(2, 2); D.S0 << 1.5, 0.5, 0.5, 1.5; }
inline Model model(Data& D) {
#if SXD_LEAF == 2
  return Model(D.S0);
#else
  return Model(D.tau);
#endif
}
// precision-weighted sums of a set of observations, residuals yy
struct Stat { int n = 0; double S[2][2] = {{0, 0}, {0, 0}}, T[2] = {0, 0}; };
template <class F> inline Stat stat(const Data& D, F in, const double* yy) { Stat s; for (int i = 0; i < D.n; i++) if (in(i)) { s.n++; for (int k = 0; k < DIM; k++) { s.T[k] += D.b(i, k) * yy[i] * D.w(i); for (int l = 0; l < DIM; l++) s.S[k][l] += D.b(i, k) * D.b(i, l) * D.w(i); } } return s; }
// posterior precision and its product with the posterior mean
struct Post { double P[2][2], h[2]; };
inline Post post(const Data& D, const Stat& s) { Post p; if (DIM == 1) { p.P[0][0] = s.S[0][0] / D.s2 + 1. / D.tau; p.h[0] = s.T[0] / D.s2; return p; } const double I[2][2] = {{0.75, -0.25}, {-0.25, 0.75}}; for (int k = 0; k < 2; k++) { p.h[k] = s.T[k] / D.s2; for (int l = 0; l < 2; l++) p.P[k][l] = s.S[k][l] / D.s2 + I[k][l]; } return p; }
// log marginal likelihood of the residuals of one leaf, less the part that does not depend on how the data are divided into leaves
inline double logml(const Data& D, const Stat& s) { Post p = post(D, s); if (DIM == 1) return -0.5 * std::log(1 + D.tau * s.S[0][0] / D.s2) + 0.5 * p.h[0] * p.h[0] / p.P[0][0];
  double det = p.P[0][0] * p.P[1][1] - p.P[0][1] * p.P[1][0]; return -0.5 * std::log(det * 2) + 0.5 * (p.P[1][1] * p.h[0] * p.h[0] - 2 * p.P[0][1] * p.h[0] * p.h[1] + p.P[0][0] * p.h[1] * p.h[1]) / det; }
}
#endif
