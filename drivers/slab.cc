// Conformance driver for the per-CPU cache of internal/percpu_tcmalloc.h.
//
//   slab step SEED STEPS BPFILE TRACE    one thread runs at a time; a thread is stopped at a chosen instruction (listed
//                                        in BPFILE) of an operation while others run complete operations, or is moved to
//                                        another CPU there
//   slab stress SEED MILLIS TRACE        threads run freely against drains and resizes; ownership of each object is
//                                        monitored and the result is one line
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

#include <atomic>
#include <random>
#include <thread>

#include "tcmalloc/internal/percpu.h"
#ifdef VERIF_STRESS
namespace tcmalloc::tcmalloc_internal::subtle::percpu {
static std::atomic<int> g_spin{0};
// Stretches the points that the slow path orders explicitly, without entering the kernel.
static inline void VerifBarrier() {
  __asm__ __volatile__("" : : : "memory");
  static thread_local unsigned x = 88172645u;
  x ^= x << 13; x ^= x >> 17; x ^= x << 5;
  if (g_spin.load(std::memory_order_relaxed) && (x & 15) == 0) {
    for (unsigned i = 0; i < (x >> 4) % 4000; ++i) __asm__ __volatile__("pause");
  }
  __asm__ __volatile__("" : : : "memory");
}
}
#define CompilerBarrier VerifBarrier
#endif
#include "tcmalloc/internal/percpu_tcmalloc.h"
#ifdef VERIF_STRESS
#undef CompilerBarrier
#endif
#include "tcmalloc/internal/sysinfo.h"
#include "trace.h"

using namespace tcmalloc::tcmalloc_internal;
using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
using vt::J;
using tcmalloc::tcmalloc_internal::PerSizeClassMaxCapacity;

constexpr size_t kClasses = 6;     // classes 1..5
using Slab = TcmallocSlab<kClasses>;
using Stop = ScopedSlabCpuStop<kClasses>;
constexpr int kItems = 64;
struct alignas(64) Item { std::atomic<int> owner; int id; char pad[56]; };
static Item items[kItems + 1];
static Slab slab;
// The capacities to use with slabs of each size.
static size_t caps[32][kClasses];
static int cur_shift = 12;
#define cap_of caps[cur_shift]
static int ncpu;
static bool populated[1024];

static int IdOf(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(items);
  if (a < b || (a - b) % sizeof(Item) || (a - b) / sizeof(Item) >= kItems) return -1;
  return (a - b) / sizeof(Item);
}

struct Chunk { int cpu, cls, cap; std::vector<int> x; };
// Written by remote operations; storage that never allocates.
static struct { int cpu, cls, n, cap, x[kItems]; } rbuf[1024 * kClasses];
static int rn;
static void Took(int cpu, size_t c, void** batch, size_t n, size_t cap) {
  auto& r = rbuf[rn++];
  r.cpu = cpu; r.cls = c; r.cap = cap; r.n = n > kItems ? kItems : n;
  for (int i = 0; i < r.n; ++i) r.x[i] = IdOf(batch[i]);
}

// ---- operations; not inlined, so that their instructions can be listed ----
#define OP extern "C" __attribute__((noinline))
constexpr int kEnd = 0, kStop = -1, kLoop = -2;

static inline int Again(int& n) {
  auto [cpu, cached] = slab.CacheCpuSlab();
  if (cpu < 0) return kStop;
  if (!cached) return kEnd;
  return ++n > 2000 ? kLoop : 1;
}
OP int op_push(size_t c, void* x) {
  int n = 0;
  for (;;) {
    if (slab.Push(c, x)) return 1;
    int r = Again(n);
    if (r <= 0) return r;
  }
}
OP int op_pop(size_t c, void** x) {
  int n = 0;
  for (;;) {
    if ((*x = slab.Pop(c)) != nullptr) return 1;
    int r = Again(n);
    if (r <= 0) return r;
  }
}
OP int op_pushb(size_t c, void** b, size_t len) {
  int n = 0;
  for (;;) {
    if (size_t k = slab.PushBatch(c, b, len)) return k;
    int r = Again(n);
    if (r <= 0) return r;
  }
}
OP int op_popb(size_t c, void** b, size_t len) {
  int n = 0;
  for (;;) {
    if (size_t k = slab.PopBatch(c, b, len)) return k;
    int r = Again(n);
    if (r <= 0) return r;
  }
}
OP int op_grow(size_t c, size_t len, int* on) {
  int n = 0;
  auto [cpu, cached] = slab.CacheCpuSlab();
  for (;;) {
    if (cpu < 0) return kStop;
    *on = cpu;
    if (size_t k = slab.Grow(cpu, c, len, [c](uint8_t sh) { return caps[sh][c]; })) return k;
    auto [cpu2, cached2] = slab.CacheCpuSlab();
    if (cpu2 < 0) return kStop;
    if (!cached2) return kEnd;
    cpu = cpu2;
    if (++n > 2000) return kLoop;
  }
}
OP int op_drain(int cpu) { slab.Drain(cpu, Took); return 0; }
OP int op_growo(int cpu, size_t c, size_t len) {
  Stop s(slab, cpu);
  return slab.GrowOtherCache(cpu, c, len, [c](uint8_t sh) { return caps[sh][c]; });
}
OP int op_shrink(int cpu, size_t c, size_t len) {
  Stop s(slab, cpu);
  return slab.ShrinkOtherCache(cpu, c, len, [cpu](size_t c, void** b, size_t n) { Took(cpu, c, b, n, 0); });
}
OP int op_init(int cpu) { slab.InitCpu(cpu, [](size_t c) { return cap_of[c]; }); return 0; }
static ResizeSlabsInfo rsi;
OP int op_resize(int shift, void* mem, const size_t* mx) {
  rsi = slab.ResizeSlabs(ToShiftType(shift), mem, [mx](size_t c) { return mx[c]; }, [](size_t cpu) { return populated[cpu]; }, Took);
  return 0;
}
OP int op_updmax(void* mem, PerSizeClassMaxCapacity* ch, int n) {
  rsi = slab.UpdateMaxCapacities(mem, [](size_t c) { return cap_of[c]; }, [](int c, uint16_t cap) { cap_of[c] = cap; },
                                 [](size_t cpu) { return populated[cpu]; }, Took, ch, n);
  return 0;
}
static std::vector<std::pair<uintptr_t, size_t>> advised;
static std::vector<int> unpop;
OP int op_release() {
  static std::pair<uintptr_t, size_t> a[64]; static int u[1024]; int an = 0, un = 0;
  slab.ReleaseSlabMetadataForDrainedCpus([](size_t cpu) { return populated[cpu]; },
    [&un](size_t cpu) { if (un < 1024) u[un++] = cpu; },
    [&an](void* p, size_t n) { if (an < 64) a[an++] = {reinterpret_cast<uintptr_t>(p), n}; });
  advised.assign(a, a + an);
  unpop.assign(u, u + un);
  return 0;
}

// ---- slab memory ----
constexpr size_t kHP = 2 << 20;
static char* pool[3];
static size_t pool_size;
static int pool_next;
static void* SlabMemory(int shift, bool off) {
  char* p = pool[pool_next]; pool_next = (pool_next + 1) % 3;
  memset(p, 0, pool_size);
  return p + (off ? (size_t{1} << shift) : 0);
}
// A slab that is no longer used looks full of something else.
static void Poison(void* mem, int shift) {
  for (int cpu = 0; cpu < ncpu; ++cpu) {
    char* base = static_cast<char*>(mem) + (size_t(cpu) << shift);
    for (size_t c = 0; c < kClasses; ++c) {
      uint16_t h[2] = {static_cast<uint16_t>(100 + 20 * c), static_cast<uint16_t>(110 + 20 * c)};
      memcpy(base + 4 * c, h, 4);
    }
    for (int i = 80; i < 300; ++i) reinterpret_cast<void**>(base)[i] = &items[kItems];
  }
}

static void Pin(pid_t tid, int cpu) {
  cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s);
  if (sched_setaffinity(tid, sizeof(s), &s)) { perror("sched_setaffinity"); exit(97); }
}

// ------------------------------------------------------------------ step mode
struct Actor {
  const char* name; std::thread th; std::atomic<int> tid{0};
  sem_t go, resume; int state = 0;  // 0 idle, 1 running, 2 paused
  int op = 0; size_t cls = 0; int n = 0, cpu = 0, ret = 0, on = 0; void* b[kItems]; const size_t* mx = nullptr; void* mem = nullptr; int shift = 0;
  PerSizeClassMaxCapacity ch[kClasses];
  bool done = false;
};
static Actor act[3];
static sem_t evt;
static uintptr_t bp_at; static unsigned char bp_byte; static int bp_skip; static bool stepping; static Actor* bp_actor;
static std::atomic<bool> armed{false};
static void PutByte(uintptr_t a, unsigned char v) { *reinterpret_cast<volatile unsigned char*>(a) = v; }
static void OnTrap(int, siginfo_t* si, void* ucv) {
  auto* uc = static_cast<ucontext_t*>(ucv);
  auto& rip = uc->uc_mcontext.gregs[REG_RIP];
  auto& fl = uc->uc_mcontext.gregs[REG_EFL];
  if (stepping) {       // past the instruction: put the breakpoint back
    stepping = false; fl &= ~0x100ll;
    PutByte(bp_at, 0xcc);
    return;
  }
  if (!armed.load()) _exit(98);
  PutByte(bp_at, bp_byte);
  bool in_place = static_cast<uintptr_t>(rip) == bp_at + 1;   // otherwise the kernel restarted the section
  if (in_place) {
    rip = bp_at;
    if (bp_skip > 0) { --bp_skip; stepping = true; fl |= 0x100; return; }
  }
  armed.store(false);
  Actor* a = bp_actor;
  a->state = 2;
  sem_post(&evt);
  while (sem_wait(&a->resume)) {}
}

enum { PUSH, POP, PUSHB, POPB, GROW, DRAIN, GROWO, SHRINK, INIT, RESIZE, UPDMAX, RELEASE };
static const char* kOp[] = {"push", "pop", "pushb", "popb", "grow", "drain", "growo", "shrink", "init", "resize", "updmax", "release"};
static void Body(Actor* a) {
  a->tid = syscall(SYS_gettid);
  IsFast();
  for (;;) {
    while (sem_wait(&a->go)) {}
    if (a->op < 0) return;
    switch (a->op) {
      case PUSH: a->ret = op_push(a->cls, a->b[0]); break;
      case POP: a->ret = op_pop(a->cls, &a->b[0]); break;
      case PUSHB: a->ret = op_pushb(a->cls, a->b, a->n); break;
      case POPB: a->ret = op_popb(a->cls, a->b, a->n); break;
      case GROW: a->ret = op_grow(a->cls, a->n, &a->on); break;
      case DRAIN: a->ret = op_drain(a->cpu); break;
      case GROWO: a->ret = op_growo(a->cpu, a->cls, a->n); break;
      case SHRINK: a->ret = op_shrink(a->cpu, a->cls, a->n); break;
      case INIT: a->ret = op_init(a->cpu); break;
      case RESIZE: a->ret = op_resize(a->shift, a->mem, a->mx); break;
      case UPDMAX: a->ret = op_updmax(a->mem, a->ch, a->n); break;
      case RELEASE: a->ret = op_release(); break;
    }
    a->state = 0; a->done = true;
    sem_post(&evt);
  }
}

static std::vector<int> CpuIds() {
  cpu_set_t s; CPU_ZERO(&s); std::vector<int> v;
  sched_getaffinity(0, sizeof(s), &s);
  for (int i = 0; i < ncpu && i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) v.push_back(i);
  return v;
}

static void* Meta(size_t n, std::align_val_t al) { return aligned_alloc(static_cast<size_t>(al), (n + static_cast<size_t>(al) - 1) & ~(static_cast<size_t>(al) - 1)); }

static void Setup(int shift, bool off) {
  memcpy(caps[shift], cap_of, sizeof(cap_of));
  cur_shift = shift;
  pool_size = ((static_cast<size_t>(ncpu + 1) << 18) + kHP - 1) & ~(kHP - 1);
  for (auto& p : pool) p = static_cast<char*>(aligned_alloc(kHP, pool_size));
  slab.Init(Meta, SlabMemory(shift, off), [](size_t c) { return cap_of[c]; }, ToShiftType(shift));
  for (int i = 0; i <= kItems; ++i) items[i].id = i;
}

// The CPUs of each hugepage that slabs cover entirely.
static std::string HugePages(void* mem, int shift) {
  uintptr_t b = reinterpret_cast<uintptr_t>(mem), e = b + (static_cast<uintptr_t>(ncpu) << shift);
  std::vector<std::string> hp;
  for (uintptr_t h = (b + kHP - 1) / kHP * kHP; h + kHP <= e; h += kHP) {
    std::vector<int> v;
    for (uintptr_t a = h; a < h + kHP; a += uintptr_t{1} << shift) v.push_back((a - b) >> shift);
    hp.push_back(vt::Nums(v));
  }
  return vt::Arr(hp);
}

static int Step(unsigned seed, int steps, const char* bpfile, const char* out) {
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  FILE* f = fopen(out, "w");
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); };
  auto ids = CpuIds();
  int ca = ids[0], cb = ids[ids.size() > 1 ? 1 : 0], cc = ids[ids.size() > 2 ? 2 : 0];
  // Instructions by function.
  std::vector<std::pair<std::string, std::vector<uintptr_t>>> fn;
  {
    extern char __executable_start;
    uintptr_t base = reinterpret_cast<uintptr_t>(&__executable_start);
    std::ifstream in(bpfile); std::string sym; unsigned long long a;
    while (in >> sym >> std::hex >> a) {
      if (fn.empty() || fn.back().first != sym) fn.push_back({sym, {}});
      fn.back().second.push_back(base + a);
    }
    extern char etext;
    uintptr_t lo = base & ~4095ul, hi = (reinterpret_cast<uintptr_t>(&etext) + 4096 * 4) & ~4095ul;
    for (auto& p : fn) for (auto x : p.second) { if (x < lo) lo = x & ~4095ul; if (x >= hi) hi = (x & ~4095ul) + 4096; }
    for (uintptr_t x = lo; x < hi; x += 4096) mprotect(reinterpret_cast<void*>(x), 4096, PROT_READ | PROT_WRITE | PROT_EXEC);
  }
  struct sigaction sa = {};
  sa.sa_sigaction = OnTrap; sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, nullptr);
  sem_init(&evt, 0, 0);

  for (size_t c = 1; c < kClasses; ++c) cap_of[c] = R(4) == 0 ? 0 : 1 + R(5);
  static const int kShifts[] = {12, 13, 16, 18};
  bool off = R(3) == 0;
  int shift = R(2) ? 18 : kShifts[R(3)];
  Setup(shift, off);
  Pin(0, cc);
  void* mem = pool[0] + (off ? size_t{1} << shift : 0);
  auto Caps = [&] { std::vector<int> v; for (size_t c = 1; c < kClasses; ++c) v.push_back(cap_of[c]); return vt::Nums(v); };
  const char* names[] = {"a", "b", "r"};
  for (int i = 0; i < 3; ++i) {
    act[i].name = names[i];
    sem_init(&act[i].go, 0, 0); sem_init(&act[i].resume, 0, 0);
    act[i].th = std::thread(Body, &act[i]);
    while (act[i].tid == 0) usleep(50);
  }
  int at[3] = {ca, R(2) ? ca : cb, R(3) == 0 ? ca : cc};
  for (int i = 0; i < 3; ++i) Pin(act[i].tid, at[i]);
  W(J().kv("e", "cfg").kv("n", ncpu).raw("mx", Caps()).raw("hp", HugePages(mem, shift)));
  for (int i = 0; i < 2; ++i) W(J().kv("e", "mv").kv("t", names[i]).kv("cpu", at[i]));

  std::vector<int> mine; for (int i = 0; i < kItems; ++i) mine.push_back(i);
  static size_t new_caps[kClasses];

  auto Arm = [&](int i, int percent) {
    bp_actor = &act[i];
    if (R(100) >= percent || fn.empty()) return;
    std::string own = std::string("op_") + kOp[act[i].op];
    std::vector<int> cand, mineidx;
    for (size_t k = 0; k < fn.size(); ++k) {
      if (fn[k].first == own) mineidx.push_back(k);
      else if (fn[k].first.compare(0, 3, "op_") != 0) cand.push_back(k);
    }
    // The batch operations are functions of their own.
    const char* sec = act[i].op == PUSHB ? "PushBatch" : act[i].op == POPB ? "PopBatch" : nullptr;
    int k = -1, w = R(10);
    if (sec && w < 6) for (int q : cand) if (fn[q].first.find(sec) != std::string::npos) k = q;
    if (k < 0 && i < 2 && w < 8) for (int q : cand) if (w >= 6 && fn[q].first.find("CacheCpuSlabSlow") != std::string::npos) k = q;
    if (k < 0) { auto& v = (w < 6 || cand.empty()) && !mineidx.empty() ? mineidx : cand; if (v.empty()) return; k = v[R(v.size())]; }
    auto& ad = fn[k].second;
    bp_at = ad[R(ad.size())];
    bp_byte = *reinterpret_cast<unsigned char*>(bp_at);
    bp_skip = i == 2 && R(2) ? R(12) : 0;
    stepping = false;
    armed.store(true);
    PutByte(bp_at, 0xcc);
  };
  auto Finish = [&](int i) {
    Actor& a = act[i];
    a.done = false;
    std::string st = a.ret > 0 ? "ok" : a.ret == kEnd ? "end" : a.ret == kStop ? "stop" : "loop";
    J j = J().kv("e", "ret").kv("t", a.name);
    std::vector<int> x;
    switch (a.op) {
      case PUSH: case PUSHB: {
        // What was not added is at the start of the batch.
        int k = a.ret > 0 ? a.ret : 0, n = a.op == PUSH ? 1 : a.n;
        for (int q = 0; q < n - k; ++q) { int id = IdOf(a.b[q]); x.push_back(id); mine.push_back(id); }
        W(j.kv("st", st).kv("k", k).arr("x", x));
        break;
      }
      case POP: case POPB: {
        int k = a.ret > 0 ? a.ret : 0;
        for (int q = 0; q < k; ++q) { int id = IdOf(a.b[q]); x.push_back(id); if (id >= 0) mine.push_back(id); }
        W(j.kv("st", st).kv("k", k).arr("x", x));
        break;
      }
      case GROW: W(j.kv("st", st).kv("k", a.ret > 0 ? a.ret : 0).kv("cpu", a.on)); break;
      default: {
        std::vector<std::string> cb;
        for (int q = 0; q < rn; ++q) {
          std::vector<int> v(rbuf[q].x, rbuf[q].x + rbuf[q].n);
          if (rbuf[q].n || rbuf[q].cap) cb.push_back(J().kv("cpu", rbuf[q].cpu).kv("c", rbuf[q].cls).kv("cap", rbuf[q].cap).arr("x", v).str());
          for (int id : v) if (id >= 0) mine.push_back(id);
        }
        rn = 0;
        if (a.op == RESIZE || a.op == UPDMAX) {
          int was = shift;
          shift = cur_shift = a.shift;
          bool okold = rsi.old_slabs == mem && rsi.old_slabs_size >= (static_cast<size_t>(ncpu) << 12);
          Poison(mem, was);
          mem = a.mem;
          j.kv("old", okold).raw("hp", HugePages(mem, shift));
        }
        if (a.op == RELEASE) {
          size_t bytes = 0; bool inside = true;
          for (auto& p : advised) {
            bytes += p.second;
            inside = inside && p.first >= reinterpret_cast<uintptr_t>(mem) && p.first + p.second <= reinterpret_cast<uintptr_t>(mem) + (static_cast<uintptr_t>(ncpu) << shift);
            if (inside) memset(reinterpret_cast<void*>(p.first), 0, p.second);
          }
          for (int cpu : unpop) if (cpu >= 0 && cpu < 1024) populated[cpu] = false;
          j.kv("hps", bytes / kHP).kv("inside", inside && bytes % kHP == 0).arr("un", unpop);
        }
        if (a.op == INIT) populated[a.cpu] = true;
        W(j.kv("k", a.ret).raw("cb", vt::Arr(cb)));
      }
    }
  };
  auto RunOn = [&](int i) {       // until it is done or stopped
    while (sem_wait(&evt)) {}
    if (armed.load()) { armed.store(false); PutByte(bp_at, bp_byte); }
    if (act[i].done) Finish(i);
  };
  auto Start = [&](int i, int percent) {
    Actor& a = act[i];
    std::vector<int> x;
    J j = J().kv("e", "call").kv("t", a.name).kv("op", kOp[a.op]).kv("c", a.cls).kv("n", a.n).kv("cpu", a.cpu);
    if (a.op == PUSH || a.op == PUSHB) {
      for (int q = 0; q < (a.op == PUSH ? 1 : a.n); ++q) {
        int k = R(mine.size()); int id = mine[k]; mine.erase(mine.begin() + k);
        x.push_back(id); a.b[q] = &items[id];
      }
    }
    j.arr("x", x);
    if (a.op == RESIZE || a.op == UPDMAX) {
      std::vector<int> v; for (size_t c = 1; c < kClasses; ++c) v.push_back(new_caps[c]);
      j.arr("mx", v);
    }
    W(j);
    a.state = 1;
    Arm(i, percent);
    sem_post(&a.go);
    RunOn(i);
  };
  auto Remote = [&](int op, int percent) {
    Actor& a = act[2];
    a.op = op; a.cls = 1 + R(kClasses - 1); a.n = 1 + R(4);
    a.cpu = R(4) ? (R(2) ? ca : cb) : R(ncpu);
    if (op == INIT) { while (populated[a.cpu] && R(40)) a.cpu = R(ncpu); if (populated[a.cpu]) return; }
    else if (!populated[a.cpu]) a.cpu = ca;
    if (op == RESIZE || op == UPDMAX) {
      int n = 0;
      for (size_t c = 1; c < kClasses; ++c) {
        new_caps[c] = R(3) ? cap_of[c] : R(4) == 0 ? 0 : 1 + R(5);
        if (op == UPDMAX && new_caps[c] != cap_of[c]) { a.ch[n].size_class = c; a.ch[n].max_capacity = new_caps[c]; ++n; }
      }
      int sh = shift;
      if (op == RESIZE) { while (sh == shift) sh = R(2) ? 18 : kShifts[R(4)]; memcpy(caps[sh], new_caps, sizeof(new_caps)); }
      bool o = R(3) == 0;
      a.shift = sh; a.mem = SlabMemory(sh, o); a.mx = new_caps;
      if (op == UPDMAX) a.n = n;
    }
    Start(2, percent);
  };
  auto Quiet = [&] { return act[2].state == 0; };
  auto InitAll = [&] {
    for (int cpu : {ca, cb}) if (!populated[cpu]) { act[2].op = INIT; act[2].cls = 1; act[2].n = 0; act[2].cpu = cpu; Start(2, 0); }
  };
  InitAll();
  for (int s = 0; s < steps; ++s) {
    int w = R(100);
    if (w < 6) {                                      // the kernel moves a thread
      int i = R(2); at[i] = at[i] == ca ? cb : ca;
      Pin(act[i].tid, at[i]);
      W(J().kv("e", "mv").kv("t", names[i]).kv("cpu", at[i]));
    } else if (w < 14 && Quiet()) {
      int cpu = R(2) ? ca : cb; size_t c = 1 + R(kClasses - 1);
      W(J().kv("e", "stat").kv("cpu", cpu).kv("c", c).kv("len", slab.Length(cpu, c)).kv("cap", slab.Capacity(cpu, c)));
    } else if (w < 30 || act[2].state == 2) {
      if (act[2].state == 2 && R(4) && w >= 30) goto local;
      if (act[2].state == 2) { act[2].state = 1; Arm(2, 40); sem_post(&act[2].resume); RunOn(2); }
      else {
        int v = R(100);
        if (v < 8) {
          bool busy = false; for (int i = 0; i < 2; ++i) busy = busy || (act[i].state == 2 && act[i].op == GROW);
          if (!busy) {
            if (R(2)) for (int cpu = 0; cpu < ncpu; ++cpu) if (populated[cpu]) { act[2].op = DRAIN; act[2].cls = 1; act[2].n = 1; act[2].cpu = cpu; Start(2, 0); }
            Remote(RELEASE, 0); InitAll();
          }
        }
        else if (v < 30) Remote(DRAIN, 60);
        else if (v < 50) Remote(GROWO, 60);
        else if (v < 70) Remote(SHRINK, 60);
        else if (v < 76) Remote(INIT, 60);
        else if (v < 88) Remote(RESIZE, 70);
        else Remote(UPDMAX, 70);
      }
    } else {
     local:
      int i = R(2); Actor& a = act[i];
      if (a.state == 2) { a.state = 1; Arm(i, 30); sem_post(&a.resume); RunOn(i); continue; }
      int v = R(100);
      a.op = v < 30 ? PUSH : v < 55 ? POP : v < 70 ? PUSHB : v < 82 ? POPB : GROW;
      a.cls = 1 + R(kClasses - 1); a.n = 1 + R(5); a.cpu = 0;
      if ((a.op == PUSH || a.op == PUSHB) && mine.size() < 6) a.op = POP;
      Start(i, 60);
    }
  }
  for (int i : {2, 0, 1}) while (act[i].state == 2) { act[i].state = 1; sem_post(&act[i].resume); RunOn(i); }
  for (int cpu = 0; cpu < ncpu; ++cpu) if (populated[cpu]) { act[2].op = DRAIN; act[2].cls = 1; act[2].n = 1; act[2].cpu = cpu; Start(2, 0); }
  W(J().kv("e", "end").kv("out", mine.size()).kv("all", kItems));
  fclose(f);
  for (auto& a : act) { a.op = -1; sem_post(&a.go); a.th.join(); }
  return 0;
}

// ---------------------------------------------------------------- stress mode
#ifdef VERIF_STRESS
static int Stress(unsigned seed, int millis, const char* out) {
  auto ids = CpuIds();
  for (size_t c = 1; c < kClasses; ++c) cap_of[c] = 4;
  Setup(12, false);
  for (int cpu = 0; cpu < ncpu; ++cpu) { slab.InitCpu(cpu, [](size_t c) { return cap_of[c]; }); populated[cpu] = true; }
  std::atomic<bool> stop{false};
  std::atomic<long> dup{0}, bad{0}, ops{0}, rem{0};
  std::atomic<int> sink_lock{0};
  std::vector<int> sink;
  // owner: -1 in the cache, otherwise the thread
  auto Take = [&](void* p, int who) {
    int id = IdOf(p);
    if (id < 0) { ++bad; return -1; }
    int e = -1;
    if (!items[id].owner.compare_exchange_strong(e, who)) { ++dup; return -1; }
    return id;
  };
  constexpr int kT = 6;
  g_spin = 1;
  auto Work = [&](int me) {
    std::mt19937 rng(seed * 100 + me);
    IsFast();
    if (ids.size() > 1 && me < 4) Pin(0, ids[me % 2]);
    std::vector<int> have;
    for (int i = me; i < kItems; i += kT + 1) { have.push_back(i); items[i].owner = me; }
    long n = 0;
    while (!stop.load(std::memory_order_relaxed)) {
      ++n;
      size_t c = 1 + rng() % 2;
      void* b[8];
      int w = rng() % 16;
      if (w < 7 && !have.empty()) {
        int id = have.back(); have.pop_back();
        items[id].owner = -1;
        if (op_push(c, &items[id]) != 1) { items[id].owner = me; have.push_back(id); }
      } else if (w < 9 && have.size() >= 3) {
        for (int k = 0; k < 3; ++k) { int id = have.back(); have.pop_back(); items[id].owner = -1; b[k] = &items[id]; }
        int k = op_pushb(c, b, 3);
        for (int q = 0; q < 3 - (k > 0 ? k : 0); ++q) { int id = IdOf(b[q]); if (id < 0) { ++bad; continue; } items[id].owner = me; have.push_back(id); }
      } else if (w < 13) {
        if (op_pop(c, b) == 1) { int id = Take(b[0], me); if (id >= 0) have.push_back(id); }
      } else if (w < 15) {
        int k = op_popb(c, b, 3);
        for (int q = 0; q < k; ++q) { int id = Take(b[q], me); if (id >= 0) have.push_back(id); }
      } else {
        int on; op_grow(c, 1 + rng() % 2, &on);
      }
      if (have.empty() && (n & 63) == 0 && sink_lock.exchange(1) == 0) {
        for (int k = 0; k < 4 && !sink.empty(); ++k) { int id = sink.back(); sink.pop_back(); items[id].owner = me; have.push_back(id); }
        sink_lock = 0;
      }
    }
    ops += n;
    while (sink_lock.exchange(1)) {}
    for (int id : have) { items[id].owner = kT; sink.push_back(id); }
    sink_lock = 0;
  };
  auto Recv = [&] {
    while (sink_lock.exchange(1)) {}
    for (int q = 0; q < rn; ++q) for (int k = 0; k < rbuf[q].n; ++k) {
      int id = rbuf[q].x[k], e = -1;
      if (id < 0) { ++bad; continue; }
      if (!items[id].owner.compare_exchange_strong(e, kT)) { ++dup; continue; }
      sink.push_back(id);
    }
    rn = 0;
    sink_lock = 0;
  };
  std::vector<std::thread> th;
  for (int i = kT; i < kItems; i += kT + 1) { items[i].owner = kT; sink.push_back(i); }
  for (int i = 0; i < kT; ++i) th.emplace_back(Work, i);
  {
    std::mt19937 rng(seed);
    IsFast();
    int shift = 12; void* mem = pool[0];
    auto t0 = std::chrono::steady_clock::now();
    while (std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(millis)) {
      ++rem;
      int cpu = ids[rng() % ids.size()];
      if (rng() % 3 && ids.size() > 1) cpu = ids[rng() % 2];
      switch (rng() % 6) {
        case 0: case 1: op_drain(cpu); break;
        case 2: op_shrink(cpu, 1 + rng() % 2, 1 + rng() % 3); break;
        case 3: op_growo(cpu, 1 + rng() % 2, 1 + rng() % 3); break;
        case 4: {
          int sh = shift == 12 ? 13 : 12; void* m = SlabMemory(sh, false);
          memcpy(caps[sh], cap_of, sizeof(cap_of));
          op_resize(sh, m, caps[sh]);
          cur_shift = sh;
          Poison(mem, shift); mem = m; shift = sh;
          break;
        }
        case 5: {
          PerSizeClassMaxCapacity ch[2]; size_t c = 1 + rng() % 2;
          ch[0].size_class = c; ch[0].max_capacity = 2 + rng() % 4;
          void* m = SlabMemory(shift, false);
          op_updmax(m, ch, 1);
          Poison(mem, shift); mem = m;
          break;
        }
      }
      Recv();
      for (unsigned i = 0, n = rng() % 3000; i < n; ++i) __asm__ __volatile__("pause");
    }
    stop = true;
    for (auto& t : th) t.join();
    for (int cpu = 0; cpu < ncpu; ++cpu) { op_drain(cpu); Recv(); }
  }
  FILE* f = fopen(out, "w");
  fprintf(f, "%s\n", J().kv("e", "stress").kv("ops", ops.load() > 1000000 ? 1000000 : ops.load()).kv("rem", rem.load()).kv("dup", dup.load())
          .kv("bad", bad.load()).kv("out", sink.size()).kv("all", kItems).str().c_str());
  fclose(f);
  return 0;
}
#endif

int main(int argc, char** argv) {
  std::string mode = argv[1];
  ncpu = NumCPUs();
  if (!IsFast()) { fprintf(stderr, "no rseq\n"); return 96; }
#ifdef VERIF_STRESS
  if (mode == "stress") return Stress(atoi(argv[2]), atoi(argv[3]), argv[4]);
#endif
  if (mode == "step") return Step(atoi(argv[2]), atoi(argv[3]), argv[4], argv[5]);
  return 2;
}
