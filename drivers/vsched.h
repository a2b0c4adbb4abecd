// Controlled scheduler: logical threads are fibers of one kernel thread.  The code under test is
// compiled with -fsanitize=thread but linked against the runtime below, so that every atomic
// access (and, optionally, every plain access) and every SpinLock operation is a point at which
// the scheduler may switch.  Include in exactly one translation unit (the driver), which is itself
// compiled without -fsanitize=thread only for this header's functions (they are no_sanitize).
#ifndef VERIF_DRIVERS_VSCHED_H_
#define VERIF_DRIVERS_VSCHED_H_
#include <ucontext.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <vector>
#include "absl/base/internal/spinlock.h"
#include "trace.h"

#define NOSAN __attribute__((no_sanitize("thread"), noinline))

namespace sched {

// Decides which fiber runs next.
struct Strategy {
  virtual ~Strategy() = default;
  // cur: running fiber (-1 if it finished or is blocked); en: runnable fibers.
  virtual int pick(int cur, const int* en, int n) = 0;
};

struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> fn;
  bool done = false;
  const void* wait = nullptr;  // lock word it waits for
};

struct World {
  std::vector<Fiber*> fibers;
  ucontext_t main;
  int cur = -1;
  bool plain = false;      // plain accesses are scheduling points too
  long points = 0, limit = 200000;
  long burst = 0;          // points since the last switch
  Strategy* st = nullptr;
  bool overrun = false;
  long yields = 0;
};
inline World* W = nullptr;
inline int g_quiet = 0;  // >0: no scheduling points (driver bookkeeping)

NOSAN inline bool Held(const void* w) { return w && (__atomic_load_n((const uint32_t*)w, __ATOMIC_RELAXED) & 1); }

NOSAN inline void SwitchTo(int to) {
  World* w = W;
  int from = w->cur;
  if (to == from) return;
  w->cur = to;
  w->burst = 0;
  int q = g_quiet;   // per fiber
  swapcontext(from < 0 ? &w->main : &w->fibers[from]->ctx, to < 0 ? &w->main : &w->fibers[to]->ctx);
  g_quiet = q;
}

NOSAN inline int Pick(bool cur_runnable, bool force_other = false) {
  World* w = W;
  int en[16], n = 0;
  for (size_t i = 0; i < w->fibers.size(); ++i) {
    Fiber* f = w->fibers[i];
    if (f->done || (f->wait && Held(f->wait))) continue;
    if ((int)i == w->cur && (!cur_runnable || force_other)) continue;
    en[n++] = i;
  }
  if (n == 0) {
    if (force_other) return w->cur;
    bool all = true;
    for (auto* f : w->fibers) all &= f->done;
    if (all) return -1;
    fprintf(stderr, "DEADLOCK: no fiber can run\n");
    abort();
  }
  return w->st->pick(cur_runnable && !force_other ? w->cur : -1, en, n);
}

NOSAN inline void Point() {
  World* w = W;
  if (!w || w->cur < 0 || g_quiet) return;
  if (++w->points > w->limit) { fprintf(stderr, "LIVELOCK: too many steps\n"); abort(); }
  ++g_quiet;   // the scheduler's own accesses are not points
  bool force = ++w->burst > 3000;  // a spinning fiber must let the others run
  int to = Pick(true, force);
  SwitchTo(to);
  --g_quiet;
}

NOSAN inline void LockHook(const void* word) {
  World* w = W;
  if (!w || w->cur < 0) return;
  if (!g_quiet) Point();
  ++g_quiet;
  while (Held(word)) {
    w->fibers[w->cur]->wait = word;
    int me = w->cur;
    int to = Pick(false);
    SwitchTo(to);
    w->fibers[me]->wait = nullptr;
  }
  --g_quiet;
}
NOSAN inline void UnlockHook(const void*) { Point(); }
NOSAN inline void TryHook(const void*) { Point(); }

NOSAN inline void FiberMain(unsigned lo, unsigned hi) {
  Fiber* f = (Fiber*)(((uint64_t)hi << 32) | lo);
  g_quiet = 0;
  f->fn();
  g_quiet = 1;
  f->done = true;
  int to = Pick(false);
  SwitchTo(to);
  abort();
}

NOSAN inline void Run(std::vector<std::function<void()>> fns, Strategy* st, bool plain = false) {
  static std::vector<char*> stacks;
  World w;
  w.st = st;
  w.plain = plain;
  for (size_t i = 0; i < fns.size(); ++i) {
    Fiber* f = new Fiber;
    if (stacks.size() <= i) stacks.push_back((char*)malloc(256 << 10));
    f->stack = stacks[i];
    f->fn = std::move(fns[i]);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = 256 << 10;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)())FiberMain, 2, (unsigned)(uint64_t)f, (unsigned)((uint64_t)f >> 32));
    w.fibers.push_back(f);
  }
  verif_spin_lock_hook = LockHook;
  verif_spin_unlock_hook = UnlockHook;
  verif_spin_trylock_hook = TryHook;
  W = &w;
  int q = g_quiet;
  g_quiet = 1;
  int first = Pick(false);
  SwitchTo(first);
  W = nullptr;
  g_quiet = q;
  verif_spin_lock_hook = nullptr;
  verif_spin_unlock_hook = nullptr;
  verif_spin_trylock_hook = nullptr;
  for (auto* f : w.fibers) delete f;
}

// Which fiber is running (for driver logs).
NOSAN inline int Me() { return W ? W->cur : -1; }

// --- strategies -----------------------------------------------------------
struct RandomStrategy : Strategy {
  vt::Rng& g;
  int pct;
  RandomStrategy(vt::Rng& r, int p) : g(r), pct(p) {}
  NOSAN int pick(int cur, const int* en, int n) override {
    if (cur >= 0 && !g.chance(pct)) return cur;
    return en[g(n)];
  }
};

// Probabilistic concurrency testing: random priorities, d random change points.
struct PctStrategy : Strategy {
  int prio[16];
  std::vector<long> change;
  long step = 0;
  int low = -1;
  PctStrategy(vt::Rng& g, int n, int d, long len) {
    for (int i = 0; i < n; ++i) prio[i] = 100 + i;
    for (int i = n - 1; i > 0; --i) { int j = g(i + 1); int t = prio[i]; prio[i] = prio[j]; prio[j] = t; }
    for (int i = 0; i < d; ++i) change.push_back(g(len));
  }
  NOSAN int pick(int cur, const int* en, int n) override {
    ++step;
    for (long c : change) if (c == step && cur >= 0) prio[cur] = low--;
    int b = en[0];
    for (int i = 1; i < n; ++i) if (prio[en[i]] > prio[b]) b = en[i];
    return b;
  }
};

// Depth-first enumeration of all schedules with at most `bound` preemptions.
struct DfsStrategy : Strategy {
  struct C { int idx, n; };
  std::vector<C> stack;
  size_t pos = 0;
  int bound, used = 0;
  explicit DfsStrategy(int b) : bound(b) {}
  NOSAN void begin() { pos = 0; used = 0; }
  NOSAN int pick(int cur, const int* en, int n) override {
    int opts[16], m = 0;
    if (cur >= 0) {
      opts[m++] = cur;
      if (used < bound) for (int i = 0; i < n; ++i) if (en[i] != cur) opts[m++] = en[i];
    } else {
      for (int i = 0; i < n; ++i) opts[m++] = en[i];
    }
    if (m == 1) return opts[0];
    if (pos == stack.size()) stack.push_back({0, m});
    int k = stack[pos].idx;
    if (k >= m) k = m - 1;
    stack[pos].n = m;
    ++pos;
    if (cur >= 0 && k > 0) ++used;
    return opts[k];
  }
  // next schedule; false when all were visited
  NOSAN bool next() {
    stack.resize(pos);
    while (!stack.empty() && stack.back().idx + 1 >= stack.back().n) stack.pop_back();
    if (stack.empty()) return false;
    ++stack.back().idx;
    return true;
  }
};

}  // namespace sched

// --- stand-in runtime for -fsanitize=thread -------------------------------
extern "C" {
#define P() sched::Point()
NOSAN inline void verif_plain() { if (sched::W && sched::W->plain) sched::Point(); }
#define T1(n) \
  __attribute__((no_sanitize("thread"))) void __tsan_read##n(void*) { verif_plain(); } \
  __attribute__((no_sanitize("thread"))) void __tsan_write##n(void*) { verif_plain(); } \
  __attribute__((no_sanitize("thread"))) void __tsan_unaligned_read##n(void*) { verif_plain(); } \
  __attribute__((no_sanitize("thread"))) void __tsan_unaligned_write##n(void*) { verif_plain(); } \
  __attribute__((no_sanitize("thread"))) void __tsan_volatile_read##n(void*) { P(); } \
  __attribute__((no_sanitize("thread"))) void __tsan_volatile_write##n(void*) { P(); }
T1(1) T1(2) T1(4) T1(8) T1(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) { verif_plain(); }
void __tsan_write_range(void*, unsigned long) { verif_plain(); }
#define AT(bits, T) \
  NOSAN T __tsan_atomic##bits##_load(const volatile T* a, int) { P(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  NOSAN void __tsan_atomic##bits##_store(volatile T* a, T v, int) { P(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { P(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { P(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { P(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { P(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { P(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { P(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { P(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  NOSAN int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { P(); \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  NOSAN int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { P(); \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  NOSAN T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { P(); \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#undef AT
#undef T1
#undef P
}
#endif
