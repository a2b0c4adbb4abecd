#ifndef VERIF_COMPAT_ABSL_LOG_ABSLCHECK_H_
#define VERIF_COMPAT_ABSL_LOG_ABSLCHECK_H_
#include "absl/log/log.h"
#endif
