#ifndef VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#define VERIF_COMPAT_ABSL_STATUS_MACROS_H_
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#define VERIF_SM_CAT2(a, b) a##b
#define VERIF_SM_CAT(a, b) VERIF_SM_CAT2(a, b)
#define ABSL_ASSIGN_OR_RETURN(lhs, rexpr) VERIF_SM_IMPL(VERIF_SM_CAT(verif_so_, __LINE__), lhs, rexpr)
#define VERIF_SM_IMPL(v, lhs, rexpr) auto v = (rexpr); if (!v.ok()) return std::move(v).status(); lhs = std::move(v).value()
#define ABSL_RETURN_IF_ERROR(e) do { auto verif_s = (e); if (!verif_s.ok()) return verif_s; } while (0)
#endif
