// The normal and inverse-gamma samplers transform standard draws into the requested distribution.
#include "rng_model.h"
#include <stochtree/ig_sampler.h>
#include <stochtree/normal_sampler.h>
using namespace StochTree;
static const int D = SXD_DIM;
int sx_main() {
  std::mt19937 gen(1);
  if (D == 1) {
    UnivariateNormalSampler s; for (int k = 0; k < 2; k++) { double m = sx_real("mean", -5, 5), v = sx_real("variance", 0.01, 9); rng::clear(); double x = s.Sample(m, v, gen); auto l = rng::log(); sx_assert(l.size() == 1 && l[0].k == rng::NORMAL && l[0].gen == &gen, "one standard normal draw from the supplied generator"); sx_check_eq((x - m) * (x - m), v * l[0].raw * l[0].raw, "normal draw: mean plus standard deviation times a standard normal"); sx_observe("x", x); }
    InverseGammaSampler g; for (int k = 0; k < 2; k++) { double a = sx_real("shape", 0.5, 20), b = sx_real("scale", 0.01, 20); rng::clear(); double x = g.Sample(a, b, gen); auto l = rng::log(); sx_assert(l.size() == 1 && l[0].k == rng::GAMMA && l[0].gen == &gen, "one gamma draw from the supplied generator"); sx_check_eq(l[0].a, a, "inverse gamma: shape of the gamma draw"); sx_check_eq(x * l[0].raw, b, "inverse gamma: the scale divided by a unit-scale gamma"); sx_observe("g", x); }
  } else {
    Eigen::MatrixXd C(D, D), C0; for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) C(i, j) = C(j, i) = i == j ? sx_real("variance", 0.25, 9) : sx_real("covariance", -3, 3);
    // positive definite: all leading minors positive
    sx_assume(C(0, 0) * C(1, 1) - C(0, 1) * C(1, 0) > 0.01); if (D == 3) sx_assume(C(0, 0) * (C(1, 1) * C(2, 2) - C(1, 2) * C(1, 2)) - C(0, 1) * (C(0, 1) * C(2, 2) - C(1, 2) * C(0, 2)) + C(0, 2) * (C(0, 1) * C(1, 2) - C(1, 1) * C(0, 2)) > 0.01);
    Eigen::VectorXd m(D); for (int i = 0; i < D; i++) m(i) = sx_real("mean", -5, 5); C0 = C;
    bool eig = sx_choice("entry", 2); MultivariateNormalSampler s; auto draw = [&]() { Eigen::VectorXd o(D); if (eig) o = s.SampleEigen(m, C, gen); else { auto v = s.Sample(m, C, gen); sx_assert((int)v.size() == D, "length of a draw"); for (int i = 0; i < D; i++) o(i) = v[i]; } return o; };
    // columns of the factor: feed unit vectors as the standard draws
    Eigen::MatrixXd F(D, D); for (int k = 0; k < D; k++) { rng::clear(); for (int i = 0; i < D; i++) rng::script().push_back(i == k); Eigen::VectorXd o = draw(); sx_assert(rng::count(rng::NORMAL) == D && (int)rng::log().size() == D, "one standard normal per dimension"); for (auto& d : rng::log()) sx_assert(d.gen == &gen, "the supplied generator is used"); for (int i = 0; i < D; i++) F(i, k) = o(i) - m(i); }
    for (int i = 0; i < D; i++) for (int j = 0; j <= i; j++) { double c = 0; for (int k = 0; k < D; k++) c += F(i, k) * F(j, k); sx_check_eq(c, C0(i, j), "covariance of the draw"); sx_check_eq(C(i, j), C0(i, j), "covariance argument unchanged"); }
    rng::clear(); Eigen::VectorXd o = draw(); for (int i = 0; i < D; i++) { double w = m(i); for (int k = 0; k < D; k++) w += F(i, k) * rng::log()[k].raw; sx_check_eq(o(i), w, "the draw is the mean plus the factor times the standard draws"); } sx_observe("o", o(0)); }
  sx_reach("end"); sx_sample(); return 0;
}
