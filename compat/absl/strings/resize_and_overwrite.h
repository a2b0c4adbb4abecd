#ifndef VERIF_COMPAT_ABSL_RAO_H_
#define VERIF_COMPAT_ABSL_RAO_H_
#include <string>
#include <utility>
namespace absl {
template <typename S, typename Op>
void StringResizeAndOverwrite(S& s, typename S::size_type n, Op op) { s.resize(n); s.resize(std::move(op)(s.data(), n)); }
}
#endif
