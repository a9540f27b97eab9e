// Stand-in for the (empty) deps/fast_double_parser submodule: only what common.h names.
#ifndef VERIF_STUB_FDP_H_
#define VERIF_STUB_FDP_H_
#include <cstdlib>
namespace fast_double_parser {
inline const char* parse_number(const char* p, double* out) { char* e = nullptr; *out = std::strtod(p, &e); return e == p ? nullptr : e; }
}
#endif
