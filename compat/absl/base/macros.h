#ifndef VERIF_COMPAT_ABSL_MACROS_H_
#define VERIF_COMPAT_ABSL_MACROS_H_
#include_next "absl/base/macros.h"
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
#endif
