// Stand-in for the (empty) deps/fmt submodule: only what common.h names.
#ifndef VERIF_STUB_FMT_H_
#define VERIF_STUB_FMT_H_
#include <cstddef>
#include <cstdio>
namespace fmt {
struct format_to_n_result_stub { std::size_t size; };
template <typename... A>
inline format_to_n_result_stub format_to_n(char* b, std::size_t n, const char*, A...) { if (n) b[0] = 0; return {0}; }
}
#endif
