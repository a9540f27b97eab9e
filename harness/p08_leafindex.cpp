// Leaf indices identify (tree, leaf) uniquely across a forest; the leaf kernel counts the trees in which two rows share a leaf.
#include "forest_gen.h"
#include <stochtree/kernel.h>
using namespace StochTree; using namespace ref;
static const int N = SXD_N, M = SXD_M, T = 2;
int sx_main() {
  Gen g; g.feats = 1; g.cats = false; Rows r = rows(N, 1, false), q = rows(M, 1, false); Eigen::MatrixXd X = toEigen(r), Y = toEigen(q);
  TreeEnsemble e(T, 1, true); RForest F; F.init(T, 1); for (int k = 0; k < SXD_SPLITS; k++) g.step(*e.GetTree(SXD_FIRST), F.t[SXD_FIRST], k ? SXD_MASK : 1); if (SXD_SPLIT2) g.step(*e.GetTree(1 - SXD_FIRST), F.t[1 - SXD_FIRST], 1);
  std::vector<std::vector<int>> lr(T), lq(T); for (int j = 0; j < T; j++) { for (int i = 0; i < N; i++) lr[j].push_back(leafOf(F.t[j], r, i)); for (int i = 0; i < M; i++) lq[j].push_back(leafOf(F.t[j], q, i)); }
  ForestKernel k; std::vector<double> b1 = r.colmajor, b2 = q.colmajor; KernelMatrixType MX(b1.data(), N, 1), MY(b2.data(), M, 1);
  bool map = sx_choice("map_input", 2); if (map) k.ComputeLeafIndices(MX, MY, e); else k.ComputeLeafIndices(X, Y, e);
  auto tr = k.GetTrainLeafIndices(), te = k.GetTestLeafIndices(); sx_assert((int)tr.size() == N * T && (int)te.size() == M * T, "one index per observation and tree");
  auto id = [&](int row, int j) { return row < N ? tr[j * N + row] : te[j * M + row - N]; }; auto lf = [&](int row, int j) { return row < N ? lr[j][row] : lq[j][row - N]; };
  for (int a = 0; a < N + M; a++) for (int j = 0; j < T; j++) { sx_assert(id(a, j) >= 0 && id(a, j) < e.NumLeaves(), "leaf indices number the leaves of the forest"); for (int b = 0; b < N + M; b++) for (int l = 0; l < T; l++) sx_assert((id(a, j) == id(b, l)) == (j == l && lf(a, j) == lf(b, l)), "two indices agree iff same tree and same leaf"); }
  ForestDataset ds; ds.AddCovariates(b1.data(), N, 1, false); auto pi = e.PredictLeafIndices(&ds); for (int i = 0; i < N * T; i++) sx_assert(pi[i] == tr[i], "leaf indices of a data set = leaf indices of the kernel");
  ForestKernel k2; std::vector<double> o1(N * N, -1), o2(M * N, -1), o3(M * M, -1); KernelMatrixType K1(o1.data(), N, N), K2(o2.data(), M, N), K3(o3.data(), M, M);
  auto share = [&](int a, int b) { int c = 0; for (int j = 0; j < T; j++) c += lf(a, j) == lf(b, j); return (double)c; };
  Eigen::MatrixXd A, B, C;
  if (SXD_EXT) { if (map) k2.ComputeKernelExternal(MX, MY, e, K1, K2, K3); else k2.ComputeKernelExternal(X, Y, e, K1, K2, K3); A = K1; B = K2; C = K3; }
  else { if (map) k2.ComputeKernel(MX, MY, e); else k2.ComputeKernel(X, Y, e); A = k2.GetTrainKernel(); B = k2.GetTestTrainKernel(); C = k2.GetTestKernel(); }
  sx_assert(A.rows() == N && A.cols() == N && B.rows() == M && B.cols() == N && C.rows() == M && C.cols() == M, "kernel shapes");
  for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) sx_check_eq(A(a, b), share(a, b), "train kernel counts shared leaves");
  for (int a = 0; a < M; a++) for (int b = 0; b < N; b++) sx_check_eq(B(a, b), share(N + a, b), "test-train kernel counts shared leaves");
  for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) sx_check_eq(C(a, b), share(N + a, N + b), "test kernel counts shared leaves");
  ForestKernel k3; Eigen::MatrixXd A3; if (SXD_EXT) { std::vector<double> o4(N * N, -1); KernelMatrixType K4(o4.data(), N, N); if (map) k3.ComputeKernelExternal(MX, e, K4); else k3.ComputeKernelExternal(X, e, K4); A3 = K4; } else { if (map) k3.ComputeKernel(MX, e); else k3.ComputeKernel(X, e); A3 = k3.GetTrainKernel(); }
  for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) sx_check_eq(A3(a, b), share(a, b), "train-only kernel counts shared leaves");
  sx_observe_i("idx", tr[0]); sx_observe("k", A(0, N - 1)); sx_reach("end"); sx_sample(); return 0;
}
