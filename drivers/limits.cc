// Conformance driver for memory limits and releases, on the whole allocator.
//   limits <seed> <events> <profile> <failpct> <trace>
// A child process runs the history and may be stopped by the hard limit; it records into shared memory, the parent
// writes the trace.  profile: 0 limits and allocation, 1 releases and allocation, 2 both, 3 both with huge regions allowed.
#include <errno.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <limits>
#include "tcmalloc/common.h"
#include "tcmalloc/internal/logging.h"
#include "tcmalloc/internal/parameter_accessors.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/page_allocator.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
using vt::J;

struct Ev { char op[8]; int kind; uint64_t a, before[4]; bool ok; uint64_t heap, meta, free, unm, soft, hard, hits[2], succ[2], rel[3], drop, dropf, ret, slack; bool live, bad; int largest; };
struct Shared { int n; bool in_op; Ev e[20000]; char msg[4096]; };
static Shared* S; static bool g_nosub;
// (also kept in shared memory: the operation may never return)
static void Failed(size_t n);
struct Blk { char* p; size_t n, cap; bool don; };
static Blk B[3000]; static int nb;
static uint64_t g_ok, g_fail; static bool g_hit_live, g_track; static int g_failpct; static uint64_t g_opno, g_seed;

static uint64_t Mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
// Ways a drop can fail: for good, once with "try again", or until the range has been unlocked (old kernels).
static bool g_old; static char* g_unlocked; static uintptr_t g_again;
extern "C" int munlock(const void* p, size_t n) noexcept { g_unlocked = (char*)p; return 0; }
extern "C" int madvise(void* p, size_t n, int advice) noexcept {
  bool drops = advice == MADV_DONTNEED || advice == MADV_FREE || advice == MADV_REMOVE || advice == 24 /* DONTNEED_LOCKED */;
  if (advice == 24 && g_old) { errno = EINVAL; return -1; }
  static bool probed = false;    // the allocator once asks on a page of its own which kind of drop the kernel knows
  if (drops && g_track && n < kPageSize && !probed) { probed = true; return syscall(SYS_madvise, p, n, advice); }
  if (drops && g_track) {
    for (int i = 0; i < nb; ++i) if (B[i].p < (char*)p + n && (char*)p < B[i].p + B[i].cap) g_hit_live = true;
    uint64_t h = Mix(reinterpret_cast<uintptr_t>(p) ^ (g_opno << 48) ^ g_seed); int way = (h >> 32) % 3;
    if (advice == MADV_REMOVE) { errno = EINVAL; return -1; }
    if (way == 1 && g_failpct && g_again != (uintptr_t)p) { g_again = (uintptr_t)p; errno = EAGAIN; return -1; }
    g_again = 0;
    if ((int)(h % 100) < g_failpct && !(way == 2 && g_old && g_unlocked == (char*)p)) { if (!(way == 2 && g_old)) Failed(n); errno = ENOMEM; return -1; }
    g_unlocked = nullptr;
  }
  long r = syscall(SYS_madvise, p, n, advice);
  if (drops && g_track) { if (r == 0) g_ok += n; else Failed(n); }
  return r;
}
static void Failed(size_t n) { g_fail += n; if (S->in_op) S->e[S->n].dropf = g_fail; }
static void Writer(const char* m, int len) {
  if (S == nullptr || len <= 0) return;
  size_t k = strlen(S->msg); len = std::min<size_t>(len, sizeof(S->msg) - k - 1);
  memcpy(S->msg + k, m, len); S->msg[k + len] = 0;
}
static uint64_t rs; static uint64_t Rnd(uint64_t n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return n ? Mix(rs) % n : 0; }

struct Stat { uint64_t heap, meta, free, unm; PageReleaseStats rel; };
static Stat Read() {
  PageHeapSpinLockHolder l;
  BackingStats s = tc_globals.page_allocator().stats();
  return {s.system_bytes - s.unmapped_bytes, tc_globals.metadata_bytes(), s.free_bytes, s.unmapped_bytes, tc_globals.page_allocator().GetReleaseStats()};
}
static Ev* Begin(const char* op, uint64_t a, int kind = 0) {
  Ev* e = &S->e[S->n]; strcpy(e->op, op); e->a = a; e->kind = kind; e->ok = true; e->ret = 0;
  Stat b = Read(); e->before[0] = b.heap; e->before[1] = b.meta; e->before[2] = b.free; e->before[3] = b.unm;
  g_ok = g_fail = 0; e->dropf = 0; g_hit_live = false; ++g_opno; g_track = true; S->msg[0] = 0; S->in_op = true;
  return e;
}
static void End(Ev* e) {
  g_track = false;
  Stat s = Read(); e->heap = s.heap; e->meta = s.meta; e->free = s.free; e->unm = s.unm;
  e->rel[0] = s.rel.release_memory_to_system.in_bytes(); e->rel[1] = s.rel.soft_limit_exceeded.in_bytes(); e->rel[2] = s.rel.hard_limit_exceeded.in_bytes();
  e->soft = MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kSoft); e->hard = MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kHard);
  auto& pa = tc_globals.page_allocator();
  e->hits[0] = pa.limit_hits(PageAllocator::kSoft); e->hits[1] = pa.limit_hits(PageAllocator::kHard);
  e->succ[0] = pa.successful_shrinks_after_limit_hit(PageAllocator::kSoft); e->succ[1] = pa.successful_shrinks_after_limit_hit(PageAllocator::kHard);
  e->drop = g_ok; e->dropf = g_fail; e->live = g_hit_live;
  e->slack = 0;
  for (int i = 0; i < nb; ++i) if (B[i].don) e->slack += (kHugePageSize - B[i].cap % kHugePageSize) % kHugePageSize;
  S->in_op = false; ++S->n;
}
static void Fill(const Blk& b) { for (size_t o = 0; o < b.n; o += 4096) b.p[o] = (char)(Mix((uintptr_t)b.p + o) | 1); b.p[b.n - 1] = 0x5a; }
static bool Intact(const Blk& b) {
  if (b.p[b.n - 1] != 0x5a) return false;
  for (size_t o = 0; o < b.n - 1; o += 4096) if (b.p[o] != (char)(Mix((uintptr_t)b.p + o) | 1)) return false;
  return true;
}
static size_t Size(int profile) {
  switch (Rnd(12)) {
    case 0: return (2 << 20) * (1 + Rnd(4));
    case 1: case 2: return ((2 << 20) - 16384) + Rnd(8) * 8192 + Rnd(3) * (1 << 20);
    case 3: case 4: return (300 << 10) + Rnd(700 << 10);
    case 5: return (1 << 20) + Rnd(1 << 20);
    case 6: case 7: case 8: return (264 << 10) + 8192 * Rnd(16);
    case 9: return 8192 * (1 + Rnd(31));
    case 10: return 4096 + Rnd(20000);
    default: return profile == 3 ? (2 << 20) + (200 << 10) + Rnd(3 << 20) : (257 << 10) + Rnd(80 << 10);
  }
}
static void Child(int events, int profile, bool nofree) {
  auto alloc = [&](size_t n) {
    if (nb >= 2990) return;
    uint64_t slack = 0; for (int i = 0; i < nb; ++i) if (B[i].don) slack += (kHugePageSize - B[i].cap % kHugePageSize) % kHugePageSize;
    if ((profile != 3 && slack > (32u << 20)) || S->e[S->n - 1].unm > 1500000000) n = (264 << 10) + Rnd(100 << 10);
    Ev* e = Begin("new", n);
    char* volatile q = static_cast<char*>(malloc(n)); char* p = q;
    e->ok = p != nullptr;
    if (p) { Blk b{p, n, MallocExtension::GetAllocatedSize(p).value_or(n), false}; b.don = b.cap > kHugePageSize && b.cap % kHugePageSize != 0; Fill(b); B[nb++] = b; }
    End(e);
  };
  auto dealloc = [&](int i) { Blk b = B[i]; bool bad = !Intact(b); B[i] = B[--nb]; Ev* e = Begin("free", b.cap); e->kind = b.don; free(b.p); e->bad = bad; End(e); };
  auto limit = [&](int k, uint64_t v) { Ev* e = Begin("limit", v, k); MallocExtension::SetMemoryLimit(v, k ? MallocExtension::LimitKind::kHard : MallocExtension::LimitKind::kSoft); End(e); };
  auto release = [&](uint64_t n) { Ev* e = Begin("rel", n); e->ret = MallocExtension_Internal_ReleaseMemoryToSystem(n); End(e); };
  Ev* e0 = Begin("init", 0); End(e0);
  int mode = 0, until = 0; uint64_t target = 0;
  while (S->n < events) {
    if (S->n >= until) { mode = Rnd(5); until = S->n + 5 + Rnd(60); }
    Stat s = Read(); uint64_t backed = s.heap + s.meta;
    bool rel = profile != 0, lim = profile != 1;
    int r = Rnd(100);
    if (lim && r < 3) {
      uint64_t v = Rnd(5) == 0 ? std::numeric_limits<size_t>::max() : Rnd(3) ? backed - s.free + Rnd(s.free + (16 << 20)) : backed + Rnd(40u << 20);
      bool hard = Rnd(2); if (hard && Rnd(3)) v = Rnd(4) ? backed + Rnd(80u << 20) : backed - s.free / 2 + (1 << 20);
      if (hard && v < backed - s.free + (4 << 20)) v = backed + (8 << 20);
      if (nofree && hard && v < backed + (1 << 20)) v = backed + (20u << 20);
      limit(hard, v);
    } else if (rel && r < 10) {
      switch (Rnd(7)) { case 0: release(0); break; case 1: release(1); break; case 2: release(uint64_t{1} << 40); break; case 3: release(8192 * Rnd(100)); break; default: release(Rnd(6 << 20)); }
    } else if (lim && !rel && r < 5) { release(uint64_t{1} << 40);
    } else {
      bool al = mode == 0 || mode == 3 ? Rnd(10) < 8 : mode == 1 ? Rnd(10) < 2 : mode == 4 ? Rnd(10) < 6 : Rnd(2);
      if (backed > (400u << 20)) al = Rnd(4) == 0;
      // mostly stay below the hard limit: a stop ends the history
      uint64_t hard = MallocExtension::GetMemoryLimit(MallocExtension::LimitKind::kHard);
      if (al && nb > 0 && hard < (uint64_t{1} << 40) && backed - s.free + (6 << 20) > hard && Rnd(60)) al = false;
      if (al || nb == 0) { if (hard > (uint64_t{1} << 40) && Rnd(300) == 0) alloc((64u << 20) + Rnd(200u << 20)); else alloc(Size(profile)); }
      else dealloc(Rnd(nb));
    }
  }
  (void)target;
}
int main(int c, char** v) {
  if (c < 6) return 2;
  uint64_t seed = atoll(v[1]); int events = std::min(atoi(v[2]), 19990), profile = atoi(v[3]); g_failpct = atoi(v[4]); g_seed = seed * 77777; g_old = seed % 3 == 1; g_nosub = seed % 7 == 3;
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (S == MAP_FAILED) return 2;
  pid_t pid = fork();
  if (pid < 0) return 2;
  if (pid == 0) {
    alarm(240); log_message_writer = Writer; rs = seed * 1000003 + 7;
    MallocExtension::SetProfileSamplingInterval(0); MallocExtension::SetGuardedSamplingInterval(-1);
    g_nosub = seed % 7 == 3; TCMalloc_Internal_SetHPAASubrelease(!g_nosub);
    TCMalloc_Internal_SetHugePageFillerSkipSubreleaseShortInterval(absl::ZeroDuration());
    TCMalloc_Internal_SetHugePageFillerSkipSubreleaseLongInterval(absl::ZeroDuration());
    Child(events, profile, g_failpct > 0);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  bool died = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
  if (died && (WIFEXITED(st) || !S->in_op)) { fprintf(stderr, "child failed outside an operation (status %d): %s\n", st, S->msg); return 3; }
  FILE* f = fopen(v[5], "w"); if (!f) return 2;
  auto clip = [](uint64_t x) { return (long long)std::min<uint64_t>(x, 2147483647u); };
  bool regions = profile == 3;
  for (int i = 0; i < S->n + (died ? 1 : 0); ++i) {
    const Ev& e = S->e[i]; bool d = i == S->n;
    if (!d && e.heap + e.unm > e.before[0] + e.before[3] + (1u << 30) - (64u << 20)) regions = true;    // a new region
    auto pair = [&](const uint64_t* x) { return vt::Nums(std::vector<long long>{clip(x[0]), clip(x[1])}); };
    J j; j.kv("op", d ? "died" : e.op).kv("of", e.op).kv("a", clip(e.a)).kv("k", e.kind).kv("ok", e.ok)
      .raw("b", vt::Nums(std::vector<long long>{clip(e.before[0]), clip(e.before[1]), clip(e.before[2]), clip(e.before[3])}))
      .kv("heap", clip(e.heap)).kv("meta", clip(e.meta)).kv("free", clip(e.free)).kv("unm", clip(e.unm)).kv("soft", clip(e.soft)).kv("hard", clip(e.hard))
      .raw("hits", pair(e.hits)).raw("succ", pair(e.succ)).raw("rel", vt::Nums(std::vector<long long>{clip(e.rel[0]), clip(e.rel[1]), clip(e.rel[2])}))
      .kv("drop", clip(e.drop)).kv("dropf", clip(e.dropf)).kv("ret", clip(e.ret)).kv("slack", clip(e.slack)).kv("live", e.live).kv("bad", e.bad)
      .kv("loud", d && strstr(S->msg, "hard tcmalloc heap limit") != nullptr).kv("regions", regions).kv("nosub", g_nosub);
    fprintf(f, "%s\n", j.str().c_str());
  }
  fclose(f);
  if (died) fprintf(stderr, "died: %s\n", S->msg);
  return 0;
}
