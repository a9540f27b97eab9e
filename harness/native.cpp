// Native side of symx.h: feeds recorded (or pseudo-random) inputs to the harness compiled against the real code.
// usage: replay INPUTS        replays a file of "name value" lines; exit 42 if an assertion fails, 77 if the inputs violate an assumption
//        replay --random SEED LOG   draws inputs itself, logs them to LOG and the observations to stdout
#include "symx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <unistd.h>
static std::vector<std::pair<std::string,std::string>> IN; static size_t POS = 0; static bool RANDOM = false; static uint64_t RS = 1; static FILE* LOGF = nullptr; static bool MISSING = false;
static uint64_t rnd() { RS ^= RS << 13; RS ^= RS >> 7; RS ^= RS << 17; return RS * 0x2545F4914F6CDD1Dull; }
static bool next(const char* n, std::string& v) { if (POS < IN.size() && IN[POS].first == n) { v = IN[POS++].second; return true; } MISSING = true; return false; }
static void logv(const char* n, const char* v) { if (LOGF) { fprintf(LOGF, "%s %s\n", n, v); fflush(LOGF); } }
extern "C" {
int sx_native() { return 1; }
int64_t sx_int(const char* n, int64_t lo, int64_t hi) { if (RANDOM) { int64_t v = lo + (int64_t)(rnd() % (uint64_t)(hi - lo + 1)); logv(n, std::to_string(v).c_str()); return v; } std::string v; if (!next(n, v)) return lo; return strtoll(v.c_str(), nullptr, 10); }
int64_t sx_choice(const char* n, int64_t k) { if (k <= 0) { fprintf(stderr, "SX_ASSUME\n"); _exit(77); } return sx_int(n, 0, k - 1); }
double sx_real(const char* n, double lo, double hi) { if (RANDOM) { double a = lo < -1000 ? -1000 : lo, b = hi > 1000 ? 1000 : hi; double v = a + (b - a) * ((rnd() >> 11) * 0x1p-53); if (rnd() % 3 == 0) v = std::round(v * 4) / 4; if (v < lo) v = lo; if (v > hi) v = hi; char s[64]; snprintf(s, 64, "%.17g", v); logv(n, s); return v; }
  std::string v; if (!next(n, v)) return lo; if (v.compare(0, 5, "bits:") == 0) { uint64_t b = strtoull(v.c_str() + 5, nullptr, 10); double d; memcpy(&d, &b, 8); return d; } return strtod(v.c_str(), nullptr); }
double sx_any_double(const char* n) { if (RANDOM) { uint64_t b; double d; switch (rnd() % 6) { case 0: d = NAN; break; case 1: d = (rnd() & 1) ? INFINITY : -INFINITY; break; case 2: b = rnd(); memcpy(&d, &b, 8); break; case 3: d = 0; break; default: d = (double)(int64_t)(rnd() % 9) - 4 + 0.5 * (rnd() & 1); } memcpy(&b, &d, 8); char s[64]; snprintf(s, 64, "bits:%llu", (unsigned long long)b); logv(n, s); return d; } return sx_real(n, 0, 0); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX_ASSUME\n"); fflush(stdout); _exit(77); } }
void sx_assert(int c, const char* m) { if (!c) { fprintf(stderr, "SX_FAIL %s\n", m); fflush(stdout); _exit(42); } }
void sx_check_eq(double a, double b, const char* m) { bool ok = a == b || (std::isnan(a) && std::isnan(b)) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-6 * (1e-3 + std::fabs(a) + std::fabs(b))); if (!ok) { fprintf(stderr, "SX_FAIL %s: %.17g vs %.17g\n", m, a, b); fflush(stdout); _exit(42); } }
void sx_reach(const char*) {}
void sx_observe(const char* n, double v) { printf("OBS %s %.12g\n", n, v); }
void sx_observe_i(const char* n, int64_t v) { printf("OBS %s %lld\n", n, (long long)v); }
void sx_sample() {}
int64_t sx_concrete(int64_t v) { return v; }
int sx_symbolic_d(double) { return 0; }
void sx_done() { fflush(stdout); _exit(0); }
void sx_log(const char*) {}
}
int main(int argc, char** argv) {
  if (argc > 3 && !strcmp(argv[1], "--random")) { RANDOM = true; RS = 88172645463325252ull ^ (strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ull); for (int i = 0; i < 8; i++) rnd(); LOGF = fopen(argv[3], "w"); }
  else if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) return 3; char n[512], v[512]; while (fscanf(f, "%500s %500s", n, v) == 2) IN.push_back({n, v}); fclose(f); }
  int r = 0;
  try { r = sx_main(); } catch (const std::exception& e) { fprintf(stderr, "SX_EXC %s\n", e.what()); fflush(stdout); _exit(43); } catch (...) { fprintf(stderr, "SX_EXC unknown\n"); _exit(43); }
  fflush(stdout); (void)r; return 0;
}
