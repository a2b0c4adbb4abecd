// Conformance driver for CpuCache (cpu_cache.h) over backing caches of its own.
//
//   cpucache seq SEED STEPS TRACE           one operation at a time, on several CPUs
//   cpucache step SEED STEPS BPFILE TRACE   an operation is stopped at a chosen instruction (listed in BPFILE) while
//                                           other threads run complete operations
//   cpucache free SEED MILLIS TRACE         threads run freely; the state when all have stopped is recorded
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <mutex>
#include <random>
#include <thread>

#include "tcmalloc/cpu_cache.h"
#include "tcmalloc/internal/percpu.h"
#include "tcmalloc/internal/sysinfo.h"
#include "trace.h"

using namespace tcmalloc::tcmalloc_internal;
using vt::J;

namespace tcmalloc::tcmalloc_internal {
class CpuCachePeer {
 public:
  template <typename C> static int Shift(const C& c) { return c.freelist_.GetShift(); }
  template <typename C> static int Raw(const C& c, int k) { return c.max_capacity_[k].load(); }
  template <typename C> static int Len(const C& c, int cpu, int k) { return c.freelist_.Length(cpu, k); }
};
}  // namespace tcmalloc::tcmalloc_internal

// The size classes in use.
constexpr int kK = 6;
static const int kCls[kK] = {1, 2, 3, 11, 12, 13};
static const int kSz[kK] = {16, 512, 8192, 64, 4096, 32768};
static const int kBatch[kK] = {32, 8, 2, 10, 4, 2};
static int KOf(int cls) { for (int i = 0; i < kK; ++i) if (kCls[i] == cls) return i; return -1; }
constexpr int kPer = 400;                       // objects of each class
struct alignas(64) Obj { std::atomic<int> owner; char pad[60]; };
static Obj objs[kK * kPer];
static int IdOf(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(objs);
  if (a < b || (a - b) % sizeof(Obj) || (a - b) / sizeof(Obj) >= static_cast<size_t>(kK * kPer)) return -1;
  return (a - b) / sizeof(Obj);
}

static std::mutex mu;                           // for store and the trace
static std::vector<int> store[kK];
static FILE* tr;
static bool quiet;                              // do not record flows
static std::mt19937 frng;
static int fault;                               // percent of short fetches
static std::atomic<int> dups{0};
static void W(const J& j) { fprintf(tr, "%s\n", j.str().c_str()); }
static thread_local const char* self = "r";
static thread_local int self_cpu = -1;

// Objects move between the CPU caches and what is behind them.
static __attribute__((noinline)) int BackFetch(size_t cls, void** b, int n) {
  std::lock_guard<std::mutex> l(mu);
  int k = KOf(cls);
  if (k < 0) { ++dups; return 0; }
  if (static_cast<int>(frng() % 100) < fault) n = frng() % (n + 1);
  std::vector<int> x;
  while (n > 0 && !store[k].empty()) { int id = store[k].back(); store[k].pop_back(); b[x.size()] = &objs[id]; x.push_back(id); --n; }
  if (!quiet && !x.empty()) W(J().kv("e", "fetch").kv("t", self).kv("k", k + 1).arr("x", x));
  return x.size();
}
static __attribute__((noinline)) void BackPut(size_t cls, void** b, int n) {
  std::lock_guard<std::mutex> l(mu);
  int k = KOf(cls);
  std::vector<int> x;
  for (int i = 0; i < n; ++i) {
    int id = IdOf(b[i]);
    x.push_back(id);
    if (id >= 0 && k >= 0 && id / kPer == k) store[k].push_back(id); else ++dups;
  }
  if (!quiet) W(J().kv("e", "rel").kv("t", self).kv("k", k + 1).arr("x", x));
}

struct Fwd;
using Cache = cpu_cache_internal::CpuCache<Fwd>;
static bool g_dyn, g_wide, g_reuse, g_generic, g_release, g_hooks;
static double g_growt, g_shrinkt;
static long long arena_alloc, arena_nonres, slab_total;
static bool counting;
struct Fwd {
  static __attribute__((noinline)) void* Map(size_t size, size_t align) {
    char* p = static_cast<char*>(mmap(nullptr, size + align, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) _exit(99);
    uintptr_t a = (reinterpret_cast<uintptr_t>(p) + align - 1) & ~(align - 1);
    return reinterpret_cast<void*>(a);
  }
  __attribute__((noinline)) void* Alloc(size_t size, std::align_val_t al) {
    arena_alloc += size;
    return Map(size, static_cast<size_t>(al) < 4096 ? 4096 : static_cast<size_t>(al));
  }
  __attribute__((noinline)) void* AllocReportedImpending(size_t size, std::align_val_t al) {
    slab_total += size;
    arena_alloc -= size;
    return Alloc(size, al);
  }
  static __attribute__((noinline)) void Dealloc(void*, size_t, std::align_val_t) {}
  __attribute__((noinline)) void SetAnonVmaName(void*, size_t, std::optional<absl::string_view>) {}
  __attribute__((noinline)) void ArenaUpdateAllocatedAndNonresident(int64_t a, int64_t n) { arena_alloc += a; arena_nonres += n; }
  static __attribute__((noinline)) bool per_cpu_caches_dynamic_slab_enabled() { return g_dyn; }
  static __attribute__((noinline)) double per_cpu_caches_dynamic_slab_grow_threshold() { return g_growt; }
  static __attribute__((noinline)) double per_cpu_caches_dynamic_slab_shrink_threshold() { return g_shrinkt; }
  static __attribute__((noinline)) bool release_drained_slab_metadata() { return g_release; }
  bool reuse_size_classes() const { return g_reuse; }
  __attribute__((noinline)) size_t class_to_size(int cls) const { int k = KOf(cls); return k < 0 ? 0 : kSz[k]; }
  absl::Span<const size_t> cold_size_classes() const { return {}; }
  __attribute__((noinline)) size_t num_objects_to_move(int cls) const { int k = KOf(cls); return k < 0 ? 0 : kBatch[k]; }
  const NumaTopology<kNumaPartitions, kNumBaseClasses>& numa_topology() const { return numa; }
  struct Sharded {
    bool should_use(int) const { return g_generic; }
    void* Pop(size_t) { return nullptr; }
    void Push(size_t, void*) {}
    int RemoveRange(size_t cls, absl::Span<void*> b) { return BackFetch(cls, b.data(), b.size()); }
    void InsertRange(size_t cls, absl::Span<void*> b) { BackPut(cls, b.data(), b.size()); }
  };
  struct Plain {
    int RemoveRange(size_t cls, absl::Span<void*> b) { return BackFetch(cls, b.data(), b.size()); }
    void InsertRange(size_t cls, absl::Span<void*> b) { BackPut(cls, b.data(), b.size()); }
  };
  Sharded& sharded_transfer_cache() { return sharded; }
  const Sharded& sharded_transfer_cache() const { return sharded; }
  Plain& transfer_cache() { return plain; }
  bool UseGenericShardedCache() const { return g_generic; }
  bool UseShardedCacheForLargeClassesOnly() const { return false; }
  bool UseWiderSlabs() const { return g_wide; }
  __attribute__((noinline)) bool HaveHooks() const { return g_hooks; }
  unsigned active_partitions() const { return 1u; }
  bool multiple_non_numa_partitions() const { return false; }
  Sharded sharded;
  Plain plain;
  NumaTopology<kNumaPartitions, kNumBaseClasses> numa;
};
alignas(Cache) static char cache_mem[sizeof(Cache)];
static Cache& cache = *reinterpret_cast<Cache*>(cache_mem);
static int ncpu;
static std::vector<int> use;           // the CPUs in use
static long long limit0, slab0;

static std::string State() {
  std::vector<std::string> cs;
  long long rest_cap = 0, rest_avail = 0; bool rest_pop = false;
  for (int c = 0; c < ncpu; ++c) {
    bool used = false; for (int u : use) used = used || u == c;
    if (!used) { rest_cap += cache.Capacity(c); rest_avail += cache.Unallocated(c); rest_pop = rest_pop || cache.HasPopulated(c); continue; }
    std::vector<int> caps, lens;
    bool pop = cache.HasPopulated(c);
    bool odd = false;
    for (int cls = 1; cls < static_cast<int>(kNumClasses) && pop; ++cls)
      if (KOf(cls) < 0 && cache.GetCapacityOfSizeClass(c, cls)) odd = true;
    for (int k = 0; k < kK; ++k) {
      caps.push_back(pop ? cache.GetCapacityOfSizeClass(c, kCls[k]) : 0);
      lens.push_back(pop ? CpuCachePeer::Len(cache, c, kCls[k]) : 0);
    }
    auto ms = cache.GetTotalCacheMissStats(c);
    cs.push_back(J().kv("avail", cache.Unallocated(c)).kv("capac", cache.Capacity(c)).kv("pop", pop).kv("used", cache.UsedBytes(c))
                 .kv("alloc", cache.Allocated(c)).kv("drains", cache.GetNumDrains(c)).kv("miss", ms.underflows + ms.overflows)
                 .kv("odd", odd).arr("caps", caps).arr("lens", lens).str());
  }
  std::vector<int> mx, raw; std::vector<long> objs_of;
  int sh = CpuCachePeer::Shift(cache);
  for (int k = 0; k < kK; ++k) {
    mx.push_back(cache.GetMaxCapacity(kCls[k], sh)); raw.push_back(CpuCachePeer::Raw(cache, kCls[k]));
    objs_of.push_back(cache.TotalObjectsOfClass(kCls[k]));
  }
  long long cur = subtle::percpu::GetSlabsAllocSize(subtle::percpu::ToShiftType(sh), ncpu);
  return J().raw("cpu", vt::Arr(cs)).kv("restcap", rest_cap).kv("restavail", rest_avail).kv("restpop", rest_pop).arr("mx", mx).arr("raw", raw)
      .arr("tot", objs_of).kv("totused", cache.TotalUsedBytes()).kv("shift", sh)
      .kv("metaok", arena_alloc == cur - slab0 && arena_nonres == slab_total + slab0 - cur).kv("climit", cache.CacheLimit()).str();
}

static void Pin(pid_t tid, int cpu) {
  cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s);
  if (sched_setaffinity(tid, sizeof(s), &s)) { perror("sched_setaffinity"); exit(97); }
}
static std::vector<int> CpuIds() {
  cpu_set_t s; CPU_ZERO(&s); std::vector<int> v;
  sched_getaffinity(0, sizeof(s), &s);
  for (int i = 0; i < ncpu && i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) v.push_back(i);
  return v;
}

enum Op { ALLOC, FREE, DRAIN, RESIZE, SHUFFLE, TRYDRAIN, MAXCAPS, SLABS, LIMIT };
static const char* kOp[] = {"alloc", "free", "drain", "resize", "shuffle", "trydrain", "maxcaps", "slabs", "limit"};
#define OP extern "C" __attribute__((noinline))
OP void* op_alloc(int cls) { return cache.Allocate(cls); }
OP void op_free(void* p, int cls) { cache.Deallocate(p, cls); }
OP long op_drain(int cpu) { return cache.Drain(cpu); }
OP void op_resize() { cache.ResizeSizeClasses(); }
OP void op_shuffle() { cache.ShuffleCpuCaches(); }
OP void op_trydrain() { cache.TryDrainingCaches(); }
OP void op_maxcaps() { cache.ResizeSizeClassMaxCapacities(); }
OP void op_slabs() { cache.ResizeSlabIfNeeded(); }

struct Actor {
  const char* name; std::thread th; std::atomic<int> tid{0};
  sem_t go, resume; std::atomic<int> state{0};  // 0 idle, 1 running, 2 paused
  int op = 0, k = 0, cpu = 0; long ret = 0; void* p = nullptr; std::atomic<bool> done{false};
};
constexpr int kA = 4;                  // two mutators, the background thread and one that drains
static Actor act[kA];
static sem_t evt;
static thread_local Actor* me;
static uintptr_t bp_at; static unsigned char bp_byte; static int bp_skip; static bool stepping;
static std::atomic<bool> armed{false};
static void PutByte(uintptr_t a, unsigned char v) { *reinterpret_cast<volatile unsigned char*>(a) = v; }
static void OnTrap(int, siginfo_t* si, void* ucv) {
  auto* uc = static_cast<ucontext_t*>(ucv);
  auto& rip = uc->uc_mcontext.gregs[REG_RIP];
  auto& fl = uc->uc_mcontext.gregs[REG_EFL];
  if (stepping) { stepping = false; fl &= ~0x100ll; PutByte(bp_at, 0xcc); return; }
  if (!armed.load()) _exit(98);
  PutByte(bp_at, bp_byte);
  bool in_place = static_cast<uintptr_t>(rip) == bp_at + 1;   // otherwise the kernel restarted the section
  if (in_place) {
    rip = bp_at;
    if (bp_skip > 0) { --bp_skip; stepping = true; fl |= 0x100; return; }
  }
  armed.store(false);
  Actor* a = me;
  a->state = 2;
  sem_post(&evt);
  while (sem_wait(&a->resume)) {}
}

static void Do(Actor* a) {
  switch (a->op) {
    case ALLOC: a->p = op_alloc(kCls[a->k]); break;
    case FREE: op_free(a->p, kCls[a->k]); break;
    case DRAIN: a->ret = op_drain(a->cpu); break;
    case RESIZE: op_resize(); break;
    case SHUFFLE: op_shuffle(); break;
    case TRYDRAIN: op_trydrain(); break;
    case MAXCAPS: op_maxcaps(); break;
    case SLABS: op_slabs(); break;
    case LIMIT: cache.SetCacheLimit(a->cpu); break;
  }
}
static void Body(Actor* a) {
  self = a->name;
  me = a;
  a->tid = syscall(SYS_gettid);
  subtle::percpu::IsFast();
  for (;;) {
    while (sem_wait(&a->go)) {}
    if (a->op < 0) return;
    Do(a);
    a->done = true; a->state = 0;
    sem_post(&evt);
  }
}

static void Init(std::mt19937& rng, int nuse, bool small) {
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  frng.seed(rng());
  auto ids = CpuIds();
  for (int i = 0; i < nuse && i < static_cast<int>(ids.size()); ++i) use.push_back(ids[i]);
  g_dyn = small || R(4) != 0; g_wide = R(2); g_reuse = R(2); g_generic = R(4) == 0; g_growt = 1e18; g_shrinkt = -1.0;
  fault = R(3) == 0 ? 15 : 0;
  for (int k = 0; k < kK; ++k) for (int i = 0; i < kPer; ++i) store[k].push_back(k * kPer + kPer - 1 - i);
  new (cache_mem) Cache();
  const int kLimits[] = {3000, 20000, 66000, 150000, 500000, static_cast<int>(kMaxCpuCacheSize)};
  limit0 = kLimits[R(6)];
  cache.SetCacheLimit(limit0);
  arena_alloc = arena_nonres = slab_total = 0;
  cache.Activate();
  slab0 = subtle::percpu::GetSlabsAllocSize(subtle::percpu::ToShiftType(CpuCachePeer::Shift(cache)), ncpu);
  arena_alloc = 0;
  auto b = cache.GetPerCpuSlabShiftBounds();
  std::vector<int> sz(kSz, kSz + kK), ba(kBatch, kBatch + kK);
  W(J().kv("e", "cfg").kv("n", use.size()).kv("limit", limit0).kv("per", kPer).arr("sz", sz).arr("batch", ba).kv("lo", static_cast<int>(b.initial_shift))
    .kv("hi", static_cast<int>(b.max_shift)).raw("st", State()));
}
static std::string Loc(int cpu) { for (size_t i = 0; i < use.size(); ++i) if (use[i] == cpu) return std::to_string(i + 1); return "0"; }

static int Run(bool step, unsigned seed, int steps, const char* bpfile, const char* out) {
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  tr = fopen(out, "w");
  std::vector<std::pair<std::string, std::vector<uintptr_t>>> fn;
  if (step) {
    extern char __executable_start, etext;
    uintptr_t base = reinterpret_cast<uintptr_t>(&__executable_start);
    std::ifstream in(bpfile); std::string sym; unsigned long long a;
    while (in >> sym >> std::hex >> a) {
      if (fn.empty() || fn.back().first != sym) fn.push_back({sym, {}});
      fn.back().second.push_back(base + a);
    }
    uintptr_t lo = base & ~4095ul, hi = (reinterpret_cast<uintptr_t>(&etext) + 4096 * 4) & ~4095ul;
    for (auto& p : fn) for (auto x : p.second) { if (x < lo) lo = x & ~4095ul; if (x >= hi) hi = (x & ~4095ul) + 4096; }
    for (uintptr_t x = lo; x < hi; x += 4096) mprotect(reinterpret_cast<void*>(x), 4096, PROT_READ | PROT_WRITE | PROT_EXEC);
    struct sigaction sa = {};
    sa.sa_sigaction = OnTrap; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
  }
  sem_init(&evt, 0, 0);
  Init(rng, step ? 2 : 3, step);
  const char* names[] = {"a", "b", "r", "d"};
  int at[kA];
  for (int i = 0; i < kA; ++i) {
    act[i].name = names[i];
    sem_init(&act[i].go, 0, 0); sem_init(&act[i].resume, 0, 0);
    act[i].th = std::thread(Body, &act[i]);
    while (act[i].tid == 0) usleep(50);
    at[i] = use[i % use.size()];
    Pin(act[i].tid, at[i]);
  }
  std::vector<int> mine[kK];
  auto Quiescent = [&] { for (auto& a : act) if (a.state || a.done) return false; return true; };
  auto Finish = [&](int i) {
    Actor& a = act[i];
    a.done = false;
    J j = J().kv("e", "ret").kv("t", a.name).kv("op", kOp[a.op]);
    if (a.op == ALLOC) {
      int id = a.p ? IdOf(a.p) : -2;
      if (id >= 0) mine[a.k].push_back(id);
      j.kv("id", id);
    }
    j.kv("res", a.ret).kv("q", Quiescent());
    if (Quiescent()) j.raw("st", State());
    W(j);
  };
  auto RunOn = [&](int i) {
    for (;;) {
      bool running = false;
      for (auto& b : act) running = running || b.state == 1;
      if (!running) break;
      timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
      ts.tv_nsec += 100000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ++ts.tv_sec; }
      if (sem_timedwait(&evt, &ts) == 0) continue;
      // It waits for a lock that a stopped operation holds.
      if (armed.exchange(false)) PutByte(bp_at, bp_byte);
      for (auto& b : act) if (b.state == 2) { b.state = 1; sem_post(&b.resume); break; }
    }
    if (armed.exchange(false)) PutByte(bp_at, bp_byte);
    while (sem_trywait(&evt) == 0) {}
    for (int k = 0; k < kA; ++k) if (act[k].done) Finish(k);
  };
  auto Arm = [&](int i, int percent) {
    if (!step || R(100) >= percent || fn.empty()) return;
    std::vector<int> own, mut, rem;
    std::string o = std::string("op_") + kOp[act[i].op];
    for (size_t k = 0; k < fn.size(); ++k) {
      const std::string& s = fn[k].first;
      if (s == o) own.push_back(k);
      else if (s.compare(0, 3, "op_") == 0) continue;
      else if (s.find("Slow") != std::string::npos || s.find("Refill") != std::string::npos || s.find("UpdateCapacity") != std::string::npos ||
               s.find("4Grow") != std::string::npos) mut.push_back(k);
      else rem.push_back(k);
    }
    auto& v = i < 2 ? (R(6) && !mut.empty() ? mut : R(2) ? rem : own) : (R(2) && !rem.empty() ? rem : own);
    if (v.empty()) return;
    auto& ad = fn[v[R(v.size())]].second;
    bp_at = ad[R(ad.size())];
    bp_byte = *reinterpret_cast<unsigned char*>(bp_at);
    bp_skip = i >= 2 && R(2) ? R(12) : 0;
    stepping = false;
    armed.store(true);
    PutByte(bp_at, 0xcc);
  };
  auto Start = [&](int i, int percent) {
    Actor& a = act[i];
    int id = -1;
    if (a.op == FREE) { int q = R(mine[a.k].size()); id = mine[a.k][q]; mine[a.k].erase(mine[a.k].begin() + q); a.p = &objs[id]; }
    int arg = a.op == DRAIN ? std::stoi(Loc(a.cpu)) : a.op == LIMIT ? a.cpu : i < 2 ? std::stoi(Loc(at[i])) : 0;
    W(J().kv("e", "call").kv("t", a.name).kv("op", kOp[a.op]).kv("k", a.k + 1).kv("id", id).kv("cpu", arg)
      .kv("rel", g_release));
    a.ret = 0;
    a.state = 1;
    Arm(i, percent);
    sem_post(&a.go);
    RunOn(i);
  };
  int hot = 0, dir = 0, hotk = 0;
  for (int s = 0; s < steps; ++s) {
    if (R(60) == 0) { hot = R(use.size()); hotk = R(kK); }
    if (R(40) == 0) dir = R(3);
    if (R(100) == 0) g_hooks = R(4) == 0;
    int v = R(100);
    int busy = -1;
    for (int i = 0; i < kA; ++i) if (act[i].state == 2 && (busy < 0 || R(2))) busy = i;
    if (busy >= 0 && v < 35) {
      act[busy].state = 1; Arm(busy, 30); sem_post(&act[busy].resume); RunOn(busy);
      continue;
    }
    if (v < (step ? 70 : 86)) {
      int i = R(2);
      if (act[i].state) continue;
      int want = use[R(4) ? hot : R(use.size())];
      if (want != at[i]) { at[i] = want; Pin(act[i].tid, want); }
      Actor& a = act[i];
      a.k = R(3) ? hotk : R(kK);
      // Several in a row.
      int n = step ? 1 : 1 + R(dir == 0 ? 3 : 30);
      bool al = dir == 1 ? R(8) != 0 : dir == 2 ? R(8) == 0 : R(2);
      for (int q = 0; q < n && act[i].state == 0; ++q) {
        a.op = al ? ALLOC : FREE;
        if (a.op == FREE && mine[a.k].empty()) { a.op = ALLOC; if (dir == 2) break; }
        if (a.op == ALLOC && mine[a.k].size() > 300) break;
        Start(i, 45);
      }
    } else if (v < 94 || R(3)) {
      if (act[2].state) continue;
      Actor& a = act[2];
      int w = R(100);
      a.op = w < 25 ? RESIZE : w < 55 ? SHUFFLE : w < 70 ? TRYDRAIN : w < 80 ? MAXCAPS : w < 94 ? SLABS : LIMIT;
      g_release = R(2);
      g_growt = R(2) ? -1.0 : 1e18; g_shrinkt = R(2) ? 1e18 : -1.0;
      if (a.op == LIMIT) { if (step) continue; a.cpu = 1000 + R(300000); }
      int n = a.op == TRYDRAIN || a.op == MAXCAPS ? 1 + R(3) : 1;
      for (int q = 0; q < n && act[2].state == 0; ++q) Start(2, 60);
    } else {
      if (act[3].state) continue;
      act[3].op = DRAIN;
      act[3].cpu = use[R(use.size())];
      Start(3, 40);
    }
  }
  for (;;) {
    bool any = false;
    for (int i = 0; i < kA; ++i) if (act[i].state == 2) { any = true; act[i].state = 1; sem_post(&act[i].resume); RunOn(i); }
    if (!any) break;
  }
  for (int c : use) { act[3].op = DRAIN; act[3].cpu = c; Start(3, 0); }
  fclose(tr);
  for (auto& a : act) { a.op = -1; sem_post(&a.go); a.th.join(); }
  return 0;
}

// Free running: conservation when everything has stopped, and no object in two places.
static int Free(unsigned seed, int millis, const char* out) {
  std::mt19937 rng(seed);
  tr = fopen(out, "w");
  Init(rng, 8, true);
  for (auto& o : objs) o.owner = -1;
  quiet = true;
  std::atomic<bool> stop{false};
  std::atomic<int> bad{0};
  std::mutex hm; std::vector<int> held;
  constexpr int kT = 6;
  auto Work = [&](int me) {
    std::mt19937 r(seed * 77 + me);
    subtle::percpu::IsFast();
    if (me < 4) Pin(0, use[me % use.size() % 2]);
    std::vector<int> have[kK];
    int k = r() % kK, dir = 0;
    while (!stop.load(std::memory_order_relaxed)) {
      if (r() % 64 == 0) { k = r() % kK; dir = r() % 3; }
      bool al = dir == 0 ? r() % 2 : dir == 1 ? r() % 8 != 0 : r() % 8 == 0;
      if (al && have[k].size() < 40) {
        void* p = op_alloc(kCls[k]);
        if (!p) continue;
        int id = IdOf(p), e = -1;
        if (id < 0 || id / kPer != k || !objs[id].owner.compare_exchange_strong(e, me)) { ++bad; continue; }
        have[k].push_back(id);
      } else if (!have[k].empty()) {
        int id = have[k].back(); have[k].pop_back();
        objs[id].owner = -1;
        op_free(&objs[id], kCls[k]);
      }
    }
    std::lock_guard<std::mutex> l(hm);
    for (auto& h : have) held.insert(held.end(), h.begin(), h.end());
  };
  std::vector<std::thread> th;
  for (int i = 0; i < kT; ++i) th.emplace_back(Work, i);
  auto t0 = std::chrono::steady_clock::now();
  subtle::percpu::IsFast();
  std::thread dr([&] {
    std::mt19937 r(seed * 99);
    subtle::percpu::IsFast();
    while (!stop) { op_drain(use[r() % 2 % use.size()]); for (unsigned i = 0, n = r() % 30000; i < n; ++i) __asm__ __volatile__("pause"); }
  });
  while (std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(millis)) {
    g_release = rng() % 2;
    g_growt = rng() % 2 ? -1.0 : 1e18; g_shrinkt = rng() % 2 ? 1e18 : -1.0;
    switch (rng() % 8) {
      case 0: case 1: op_resize(); break;
      case 2: case 3: case 4: op_shuffle(); break;
      case 5: op_trydrain(); break;
      case 6: op_maxcaps(); break;
      case 7: op_slabs(); break;
    }
    for (unsigned i = 0, n = rng() % 20000; i < n; ++i) __asm__ __volatile__("pause");
  }
  stop = true;
  for (auto& t : th) t.join();
  dr.join();
  std::vector<int> heldk(kK, 0), backk(kK, 0);
  for (int id : held) ++heldk[id / kPer];
  for (int k = 0; k < kK; ++k) backk[k] = store[k].size();
  W(J().kv("e", "free").kv("bad", bad.load() + dups.load()).arr("held", heldk).arr("back", backk).raw("st", State()));
  for (int c = 0; c < ncpu; ++c) op_drain(c);
  for (int k = 0; k < kK; ++k) backk[k] = store[k].size();
  W(J().kv("e", "free").kv("bad", bad.load() + dups.load()).arr("held", heldk).arr("back", backk).raw("st", State()));
  fclose(tr);
  return 0;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  ncpu = NumCPUs();
  if (!subtle::percpu::IsFast()) { fprintf(stderr, "no rseq\n"); return 96; }
  if (mode == "seq") return Run(false, atoi(argv[2]), atoi(argv[3]), nullptr, argv[4]);
  if (mode == "step") return Run(true, atoi(argv[2]), atoi(argv[3]), argv[4], argv[5]);
  if (mode == "free") return Free(atoi(argv[2]), atoi(argv[3]), argv[4]);
  return 2;
}
