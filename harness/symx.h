// Interface between the harnesses and the symbolic executor; the native build (SX_NATIVE) replays one concrete input vector.
#ifndef VERIF_SYMX_H_
#define VERIF_SYMX_H_
#include <cstdint>
#include <cstddef>
extern "C" {
int sx_native();                                             // 1 in the native replay build, 0 in the engine
int64_t sx_int(const char* name, int64_t lo, int64_t hi);    // symbolic integer in [lo,hi]
int64_t sx_choice(const char* name, int64_t n);              // 0..n-1, one path each
double sx_real(const char* name, double lo, double hi);      // symbolic finite number in [lo,hi]
double sx_any_double(const char* name);                      // any bit pattern (fp mode only)
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_check_eq(double a, double b, const char* msg);       // exact-real equality (native: relative tolerance)
void sx_reach(const char* label);                            // vacuity witness: a satisfiable path got here
void sx_observe(const char* name, double v);                 // trace for engine-vs-native validation
void sx_observe_i(const char* name, int64_t v);
void sx_sample();
int64_t sx_concrete(int64_t v);                              // enumerate the feasible values of v
int sx_symbolic_d(double v);
void sx_done();
void sx_log(const char* s);
int sx_main();
}
#endif
