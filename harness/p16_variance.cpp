// Conjugate inverse-gamma updates of the error variance and of the leaf scale.
#include "rng_model.h"
#include "forest_gen.h"
#include <stochtree/variance_model.h>
using namespace StochTree; using namespace ref;
int sx_main() {
  std::mt19937 gen(1); double a = sx_real("prior_a", 0.5, 20), b = sx_real("prior_b", 0.01, 20);
  if (SXD_WHAT == 0) { // sigma^2 ~ IG(nu, nu*lambda), residuals | sigma^2 normal
    const int n = (int)sx_choice("n", SXD_N + 1); Eigen::VectorXd r(n); double ss = 0; for (int i = 0; i < n; i++) { r(i) = sx_real("residual", -20, 20); ss += r(i) * r(i); }
    GlobalHomoskedasticVarianceModel m; double shape = a + n / 2.0, scale = a * b + ss / 2.0;
    sx_check_eq(m.PosteriorShape(r, a, b), shape, "posterior shape of the error variance"); sx_check_eq(m.PosteriorScale(r, a, b), scale, "posterior scale of the error variance");
    double s = m.SampleVarianceParameter(r, a, b, gen); auto l = rng::log(); sx_assert(l.size() == 1 && l[0].k == rng::GAMMA && l[0].gen == &gen, "one draw from the supplied generator");
    sx_check_eq(l[0].a, shape, "shape of the error variance draw"); sx_check_eq(s * l[0].raw, scale, "scale of the error variance draw"); sx_observe("s", s);
  } else { // tau ~ IG(a, b), leaf values | tau normal
    Gen g; g.feats = 1; TreeEnsemble e(2, 1, SXD_WHAT == 1); RForest F; F.init(2, 1); grow(e, F, g, SXD_SPLITS, 7); double ss = 0; int L = 0; for (auto& t : F.t) for (int i : t.pick(0)) { L++; ss += t.n[i].val[0] * t.n[i].val[0]; }
    LeafNodeHomoskedasticVarianceModel m; double shape = a + L / 2.0, scale = b + ss / 2.0;
    sx_check_eq(m.PosteriorShape(&e, a, b), shape, "posterior shape of the leaf scale"); sx_check_eq(m.PosteriorScale(&e, a, b), scale, "posterior scale of the leaf scale");
    double s = m.SampleVarianceParameter(&e, a, b, gen); auto l = rng::log(); sx_assert(l.size() == 1 && l[0].k == rng::GAMMA && l[0].gen == &gen, "one draw from the supplied generator");
    sx_check_eq(l[0].a, shape, "shape of the leaf scale draw"); sx_check_eq(s * l[0].raw, scale, "scale of the leaf scale draw"); checkForest(e, F); sx_observe("s", s); }
  sx_reach("end"); sx_sample(); return 0;
}
