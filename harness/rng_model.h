// Model of the C++ library's random distributions: each draw is a symbolic value of the distribution's support, and its
// parameters and generator are recorded.  Include before any repository header.  The same model is used in the native replay.
#ifndef VERIF_RNG_MODEL_H_
#define VERIF_RNG_MODEL_H_
#include "symx.h"
#include <random>
#include <vector>
#include <cmath>
namespace rng {
enum Kind { NORMAL, UNIFORM, GAMMA, DISCRETE };
struct Draw { Kind k; double a, b, out, raw; int idx; std::vector<double> w; const void* gen; }; // a,b: mean,sd | lo,hi | shape,scale; raw: standardised draw
inline std::vector<Draw>& log() { static std::vector<Draw> l; return l; }
inline std::vector<double>& script() { static std::vector<double> s; return s; } // values for the next raw draws, used before symbolic ones
inline size_t& scriptPos() { static size_t p = 0; return p; }
inline bool scripted(double& v) { if (scriptPos() < script().size()) { v = script()[scriptPos()++]; return true; } return false; }
inline bool& zeroNormals() { static bool b = false; return b; } // normal draws are all 0
inline void clear() { log().clear(); script().clear(); scriptPos() = 0; }
inline int count(Kind k) { int c = 0; for (auto& d : log()) c += d.k == k; return c; }
inline std::vector<Draw> of(Kind k) { std::vector<Draw> o; for (auto& d : log()) if (d.k == k) o.push_back(d); return o; }
}
namespace std {
template <> template <> inline double normal_distribution<double>::operator()(mt19937& g, const param_type& p) { double z = 0; if (!rng::zeroNormals() && !rng::scripted(z)) z = sx_real("z", -4, 4); double o = p.mean() + p.stddev() * z; rng::log().push_back({rng::NORMAL, p.mean(), p.stddev(), o, z, 0, {}, &g}); return o; }
template <> template <> inline double normal_distribution<double>::operator()(mt19937& g) { return (*this)(g, param()); }
template <> template <> inline double uniform_real_distribution<double>::operator()(mt19937& g, const param_type& p) { double u; if (!rng::scripted(u)) u = sx_real("u", 0.0009765625, 0.9990234375); double o = p.a() + (p.b() - p.a()) * u; rng::log().push_back({rng::UNIFORM, p.a(), p.b(), o, u, 0, {}, &g}); return o; }
template <> template <> inline double uniform_real_distribution<double>::operator()(mt19937& g) { return (*this)(g, param()); }
template <> template <> inline double gamma_distribution<double>::operator()(mt19937& g, const param_type& p) { double x; if (!rng::scripted(x)) x = sx_real("g", 0.015625, 64); double o = p.beta() * x; rng::log().push_back({rng::GAMMA, p.alpha(), p.beta(), o, x, 0, {}, &g}); return o; }
template <> template <> inline double gamma_distribution<double>::operator()(mt19937& g) { return (*this)(g, param()); }
// the weights are kept as given (the library would normalise them); an index of positive weight is chosen
template <> inline void discrete_distribution<int>::param_type::_M_initialize() {}
template <> template <> inline int discrete_distribution<int>::operator()(mt19937& g, const param_type& p) { std::vector<double> w = p.probabilities(); int i = (int)sx_choice("index", (int64_t)w.size()); rng::log().push_back({rng::DISCRETE, 0, 0, 0, 0, i, w, &g}); sx_assume(w[i] > 0); return i; }
template <> template <> inline int discrete_distribution<int>::operator()(mt19937& g) { return (*this)(g, param()); }
}
#endif
