// abseil 20220623 attributes plus the newer macros the sources use.
#ifndef VERIF_COMPAT_ABSL_ATTRIBUTES_H_
#define VERIF_COMPAT_ABSL_ATTRIBUTES_H_
#include_next "absl/base/attributes.h"
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS
#define ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS [[no_unique_address]]
#endif
#ifndef ABSL_INTERNAL_ATTRIBUTE_CAPTURED_BY
#define ABSL_INTERNAL_ATTRIBUTE_CAPTURED_BY(Owner)
#endif
#endif
