#ifndef VERIF_COMPAT_ABSL_MUTEX_H_
#define VERIF_COMPAT_ABSL_MUTEX_H_
#define MutexLock MutexLockOld
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
namespace absl { ABSL_NAMESPACE_BEGIN
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(*m) { m_.Lock(); }
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_.Lock(); }
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;
 private:
  Mutex& m_;
};
ABSL_NAMESPACE_END }
#endif
