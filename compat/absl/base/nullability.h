// Stand-in for abseil's nullability annotations (absent from abseil 20220623).
#ifndef VERIF_COMPAT_ABSL_NULLABILITY_H_
#define VERIF_COMPAT_ABSL_NULLABILITY_H_
#include "absl/base/config.h"
#ifndef absl_nonnull
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#endif
#ifndef ABSL_NULLABILITY_COMPATIBLE
#define ABSL_NULLABILITY_COMPATIBLE
#endif
#ifndef ABSL_POINTERS_DEFAULT_NONNULL
#define ABSL_POINTERS_DEFAULT_NONNULL
#endif
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#endif
