// A stand-in for the current abseil SpinLock (the installed abseil 20220623
// has an older interface).  With VERIF_SCHED defined every acquire/release is
// also a scheduling point of the controlled scheduler in harness/sched.h.
#ifndef VERIF_COMPAT_ABSL_SPINLOCK_H_
#define VERIF_COMPAT_ABSL_SPINLOCK_H_
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>

#include "absl/base/attributes.h"
#include "absl/base/config.h"
#include "absl/base/const_init.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/macros.h"
#include "absl/base/thread_annotations.h"

extern "C" {
// Controlled-scheduling hooks; null unless a harness installs them.
// lock: must return only once the caller may take the lock word.
// unlock: called after the lock word was cleared.
// trylock: a scheduling point before the attempt.
inline void (*verif_spin_lock_hook)(const void* word) = nullptr;
inline void (*verif_spin_unlock_hook)(const void* word) = nullptr;
inline void (*verif_spin_trylock_hook)(const void* word) = nullptr;
}

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {

// Same lock-word bits as abseil (1 held, 2 cooperative) plus 8 = has waiters.
#ifdef VERIF_SCHED
// Out of line and never instrumented: the hooks are the only scheduling points.
#define VERIF_AI __attribute__((noinline, no_sanitize("thread")))
#else
#define VERIF_AI __attribute__((always_inline)) inline
#endif
class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : w_(2) {}
  constexpr explicit SpinLock(SchedulingMode mode)
      : w_(mode == SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  constexpr SpinLock(absl::ConstInitType, SchedulingMode mode)
      : w_(mode == SCHEDULE_COOPERATIVE_AND_KERNEL ? 2 : 0) {}
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;

  VERIF_AI void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
#ifdef VERIF_SCHED
    if (verif_spin_lock_hook) verif_spin_lock_hook(&w_);
#endif
    uint32_t v = __atomic_load_n(&w_, __ATOMIC_RELAXED);
    if ((v & 1) || !__atomic_compare_exchange_n(&w_, &v, v | 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) VerifSlow();
  }
  [[nodiscard]] VERIF_AI bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
#ifdef VERIF_SCHED
    if (verif_spin_trylock_hook) verif_spin_trylock_hook(&w_);
#endif
    uint32_t v = __atomic_load_n(&w_, __ATOMIC_RELAXED);
    return (v & 1) == 0 && __atomic_compare_exchange_n(&w_, &v, v | 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
  }
  VERIF_AI void unlock() ABSL_UNLOCK_FUNCTION() {
    uint32_t prev = __atomic_fetch_and(&w_, 2, __ATOMIC_RELEASE);
    if ((prev & 1) == 0) abort();  // unlocking a lock that is not held
    if (prev & 8) VerifWake();
#ifdef VERIF_SCHED
    if (verif_spin_unlock_hook) verif_spin_unlock_hook(&w_);
#endif
  }
  VERIF_AI void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { lock(); }
  [[nodiscard]] VERIF_AI bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return try_lock(); }
  VERIF_AI void Unlock() ABSL_UNLOCK_FUNCTION() { unlock(); }
  VERIF_AI bool IsHeld() const { return (__atomic_load_n(&w_, __ATOMIC_RELAXED) & 1) != 0; }
  VERIF_AI bool IsCooperative() const { return (__atomic_load_n(&w_, __ATOMIC_RELAXED) & 2) != 0; }
  VERIF_AI void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {
    if (!IsHeld()) abort();
  }

 private:
  __attribute__((noinline, no_sanitize("thread"))) void VerifSlow() {
    int e = errno;
    for (int i = 0;; ++i) {
      uint32_t v = __atomic_load_n(&w_, __ATOMIC_RELAXED);
      if ((v & 1) == 0) {
        uint32_t n = i < 100 ? (v | 1) : (v | 9);
        if (__atomic_compare_exchange_n(&w_, &v, n, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) break;
        continue;
      }
      if (i < 100) {
        __builtin_ia32_pause();
        continue;
      }
      if ((v & 8) == 0 && !__atomic_compare_exchange_n(&w_, &v, v | 8, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) continue;
      syscall(SYS_futex, &w_, FUTEX_WAIT_PRIVATE, v | 8, nullptr, nullptr, 0);
    }
    errno = e;
  }
  __attribute__((noinline, no_sanitize("thread"))) void VerifWake() {
    int e = errno;
    syscall(SYS_futex, &w_, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    errno = e;
  }
  uint32_t w_;
};
#undef VERIF_AI
#define VERIF_AI __attribute__((always_inline)) inline

class ABSL_SCOPED_LOCKABLE SpinLockHolder {
 public:
  VERIF_AI explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : l_(l) { l_.lock(); }
  VERIF_AI ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { l_.unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;

 private:
  SpinLock& l_;
};
#undef VERIF_AI

}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
#endif
