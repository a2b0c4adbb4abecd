// Conformance driver for the allocator's entry points as a whole.
//   heap <seed> <threads> <events per thread> <mode> <trace>
// mode: letters  s = sample every allocation, g = guard sampled allocations, b = background operations
//       interleaved, l = many large blocks, h = hot/cold hints, r = many small same-size rounds
// Events are recorded as plain records with a global sequence number (an allocation after it returns, a free
// before it is called), so a block is recorded as owned only while it really is.
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <new>
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/malloc_extension.h"
#include "trace.h"
using tcmalloc::MallocExtension;
using vt::J;
extern "C" void* reallocarray(void*, size_t, size_t) noexcept;

enum Op : int { kAlloc, kFill, kCheck, kFree, kRealloc, kRound, kFail };
struct Ev { uint64_t seq; int op, kind; long long id, id2; uint64_t addr, cap; long long req, align, ret, pred, seen, tag, fam; };
static std::atomic<uint64_t> g_seq{1};
static std::atomic<long long> g_id{1};
template <typename T> static T* Map(size_t n) {
  void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(99);
  return (T*)p;
}
// families: how a block may be freed
enum Fam { kMalloc, kAligned, kNew, kNewAligned, kSizeRet, kSizeRetAligned };
struct Blk { long long id; char* p; size_t req, cap, align, ret; Fam fam; uint32_t tag; size_t filled; };
static constexpr int kPool = 400;
struct Pool { pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; Blk b[kPool]; int n = 0; };
static Pool g_pool;
static bool m_bg, m_large, m_hot, m_rounds, m_guard;

static uint64_t Word(uint32_t tag, size_t i) { return (uint64_t(tag) << 32) ^ (i * 0x9E3779B9u) ^ 0x5bd1e995u; }
static void Fill(char* p, size_t n, uint32_t tag) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w = Word(tag, i); memcpy(p + i, &w, 8); }
  for (; i < n; ++i) p[i] = char(tag + i);
}
static long long Seen(const char* p, size_t n, uint32_t tag) {   // tag if the first n bytes are as Fill wrote them (fill length >= n rounded)
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w = Word(tag, i); if (memcmp(p + i, &w, 8)) return -1; }
  return tag;
}
static long long SeenTail(const char* p, size_t n, uint32_t tag) {
  long long s = Seen(p, n, tag);
  if (s < 0) return s;
  for (size_t i = n & ~size_t(7); i < n; ++i) if (p[i] != char(tag + i)) return -1;
  return s;
}

struct Worker {
  int t; uint64_t seed; long events; Ev* ev; long n = 0; vt::Rng g;
  Blk own[kPool]; int on = 0;
  uint32_t tags = 0;
  Worker(int tt, uint64_t s, long e) : t(tt), seed(s), events(e), g(s * 131 + tt) { ev = Map<Ev>(e + 4000); }
  Ev& E(int op) { Ev& e = ev[n++]; e = Ev{}; e.op = op; return e; }
  size_t Size() {
    int k = g(100);
    if (m_large && k < 30) return g.chance(50) ? 200000 + g(600000) : g.chance(60) ? (1 << 20) + g(3 << 20) : (1 << 21) * g(4) + g(20000);
    if (k < 45) return g(129);
    if (k < 60) return g(1100);
    if (k < 75) return g(9000);
    if (k < 90) return g(70000);
    if (k < 97) return g(300000);
    if (k < 98) return 262144 - 4 + g(8);
    return 8 * (1 << g(16));
  }
  size_t Align() { int k = g(100); return size_t(1) << (k < 70 ? 3 + g(6) : k < 90 ? 3 + g(11) : 3 + g(19)); }
  bool Alloc() {
    if (on >= 40) return false;
    int kind = g(m_hot ? 30 : 26);
    size_t n = Size(), al = Align(), ret = 0; bool sized_ret = false; char* p = nullptr; Fam fam = kMalloc; long long zero = -1; size_t want_al = 0;
    long long pred = -1;
    auto hc = tcmalloc::hot_cold_t(g.chance(50) ? 0 : g(256));
    switch (kind) {
      case 0: case 1: case 2: pred = nallocx(n, 0); p = (char*)malloc(n); break;
      case 3: { size_t e = 1 + g(64); size_t c = n / e; n = c * e; p = (char*)calloc(c, e); zero = 0;
                if (p) for (size_t i = 0; i < n; ++i) if (p[i]) { zero = 1; break; } break; }
      case 4: p = (char*)realloc(nullptr, n); break;
      case 5: { size_t e = 1 + g(64); size_t c = n / e; n = c * e; p = (char*)reallocarray(nullptr, c, e); if (n == 0 && !p) return false; break; }
      case 6: p = (char*)memalign(al, n); fam = kAligned; want_al = al; break;
      case 7: n = (n + al - 1) / al * al; p = (char*)aligned_alloc(al, n); fam = kAligned; want_al = al; break;
      case 8: { void* q = nullptr; if (posix_memalign(&q, al, n) == 0) p = (char*)q; fam = kAligned; want_al = al; break; }
      case 9: p = (char*)valloc(n); fam = kMalloc; want_al = getpagesize(); break;
      case 10: p = (char*)pvalloc(n); n = n ? (n + getpagesize() - 1) / getpagesize() * getpagesize() : getpagesize(); want_al = getpagesize(); break;
      case 11: pred = MallocExtension::GetEstimatedAllocatedSize(n); p = (char*)::operator new(n); fam = kNew; break;
      case 12: p = (char*)::operator new[](n); fam = kNew; break;
      case 13: p = (char*)::operator new(n, std::nothrow); fam = kNew; break;
      case 14: p = (char*)::operator new[](n, std::nothrow); fam = kNew; break;
      case 15: p = (char*)::operator new(n, std::align_val_t(al)); fam = kNewAligned; want_al = al; break;
      case 16: p = (char*)::operator new[](n, std::align_val_t(al)); fam = kNewAligned; want_al = al; break;
      case 17: p = (char*)::operator new(n, std::align_val_t(al), std::nothrow); fam = kNewAligned; want_al = al; break;
      case 18: p = (char*)::operator new[](n, std::align_val_t(al), std::nothrow); fam = kNewAligned; want_al = al; break;
      case 19: { auto r = __size_returning_new(n); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRet; break; }
      case 20: { auto r = tcmalloc_size_returning_operator_new_nothrow(n); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRet; break; }
      case 21: { auto r = __size_returning_new_aligned(n, std::align_val_t(al)); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRetAligned; want_al = al; break; }
      case 22: { auto r = tcmalloc_size_returning_operator_new_aligned_nothrow(n, std::align_val_t(al)); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRetAligned; want_al = al; break; }
      case 23: { auto r = alloc_at_least(n); p = (char*)r.ptr; ret = r.size; sized_ret = true; fam = kMalloc; break; }
      case 24: { auto r = aligned_alloc_at_least(al, n); p = (char*)r.ptr; ret = r.size; sized_ret = true; fam = kAligned; want_al = al; break; }
      case 25: pred = nallocx(n, 0); p = (char*)::operator new(n); fam = kNew; break;
      case 26: p = (char*)::operator new(n, hc); fam = kNew; break;
      case 27: p = (char*)::operator new(n, std::align_val_t(al), hc); fam = kNewAligned; want_al = al; break;
      case 28: { auto r = __size_returning_new_hot_cold(n, hc); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRet; break; }
      case 29: { auto r = __size_returning_new_aligned_hot_cold(n, std::align_val_t(al), hc); p = (char*)r.p; ret = r.n; sized_ret = true; fam = kSizeRetAligned; want_al = al; break; }
    }
    Ev& e = E(p ? kAlloc : kFail);
    e.seq = g_seq.fetch_add(1); e.kind = kind; e.req = n; e.align = want_al; e.fam = fam;
    if (!p) return false;
    size_t cap = *MallocExtension::GetAllocatedSize(p);
    e.id = g_id.fetch_add(1); e.addr = (uint64_t)p; e.cap = cap; e.ret = sized_ret ? (long long)ret : -1; e.pred = pred; e.seen = zero;
    Blk b{e.id, p, n, cap, want_al, sized_ret ? ret : 0, fam, 0, 0};
    FillBlk(b, g.chance(50));
    own[on++] = b;
    return true;
  }
  void FillBlk(Blk& b, bool full) {
    size_t n = b.ret ? b.ret : b.req;                 // the whole block the caller may use
    if (n > 70000 && !full) n = n / 3;
    b.tag = (uint32_t)(++tags * 64 + t) & 0x7fffffff; b.filled = n;
    Fill(b.p, n, b.tag);
    Ev& e = E(kFill); e.seq = g_seq.fetch_add(1); e.id = b.id; e.tag = b.tag; e.req = n;
  }
  void CheckBlk(Blk& b) {
    Ev& e = E(kCheck); e.id = b.id; e.seen = SeenTail(b.p, b.filled, b.tag); e.req = b.filled; e.cap = *MallocExtension::GetAllocatedSize(b.p); e.seq = g_seq.fetch_add(1);
  }
  void Free(int i) {
    Blk b = own[i]; own[i] = own[--on];
    CheckBlk(b);
    Ev& e = E(kFree); e.id = b.id; e.seq = g_seq.fetch_add(1);
    size_t sz = b.ret && g.chance(70) && !m_guard ? b.req + g(b.ret - b.req + 1) : b.req;
    if (b.ret && m_guard) sz = b.cap < b.ret ? b.cap : b.ret;
    size_t al = b.align;
    switch (b.fam) {
      case kMalloc: switch (g(b.align ? 1 : 3)) { case 0: free(b.p); break; case 1: free_sized(b.p, sz); break; default: sdallocx(b.p, sz, 0); } break;
      case kAligned: switch (g(3)) { case 0: free(b.p); break; case 1: free_aligned_sized(b.p, al, sz); break; default: sdallocx(b.p, sz, __builtin_ctzll(al)); } break;
      case kNew: case kSizeRet: switch (g(5)) { case 0: ::operator delete(b.p); break; case 1: ::operator delete[](b.p); break;
        case 2: ::operator delete(b.p, sz); break; case 3: ::operator delete[](b.p, sz); break; default: ::operator delete(b.p, std::nothrow); } break;
      case kNewAligned: case kSizeRetAligned: switch (g(5)) { case 0: ::operator delete(b.p, std::align_val_t(al)); break; case 1: ::operator delete[](b.p, std::align_val_t(al)); break;
        case 2: ::operator delete(b.p, sz, std::align_val_t(al)); break; case 3: ::operator delete[](b.p, sz, std::align_val_t(al)); break;
        default: ::operator delete(b.p, std::align_val_t(al), std::nothrow); } break;
    }
    e.kind = b.fam;
  }
  void Realloc(int i) {
    Blk b = own[i];
    if (b.fam != kMalloc && b.fam != kAligned) return;
    if (b.align) return;
    CheckBlk(b);
    size_t n = g.chance(30) ? b.req + g(16) : g.chance(40) ? b.req / 2 + 1 : 1 + Size();
    Ev& f = E(kFree); f.id = b.id; f.kind = 99; f.seq = g_seq.fetch_add(1);
    char* q = g.chance(70) ? (char*)realloc(b.p, n) : (char*)reallocarray(b.p, n, 1);
    if (!q && n == 0) { own[i] = own[--on]; return; }      // frees
    Ev& e = E(q ? kRealloc : kFail);
    if (!q) { e.seq = g_seq.fetch_add(1); own[i] = own[--on]; return; }
    size_t keep = b.filled < n ? b.filled : n;
    e.id = g_id.fetch_add(1); e.id2 = b.id; e.addr = (uint64_t)q; e.cap = *MallocExtension::GetAllocatedSize(q); e.req = n; e.tag = b.tag; e.ret = -1; e.pred = -1;
    e.seen = keep == b.filled ? SeenTail(q, keep, b.tag) : Seen(q, keep, b.tag);
    e.kind = 30; e.seq = g_seq.fetch_add(1);
    own[i] = Blk{e.id, q, n, (size_t)e.cap, 0, 0, kMalloc, b.tag, keep};
    FillBlk(own[i], g.chance(50));
  }
  void Exchange() {
    pthread_mutex_lock(&g_pool.mu);
    if (on > 0 && (g.chance(50) || g_pool.n == 0) && g_pool.n < kPool) g_pool.b[g_pool.n++] = own[--on];
    else if (g_pool.n && on < 40) { int i = g(g_pool.n); own[on++] = g_pool.b[i]; g_pool.b[i] = g_pool.b[--g_pool.n]; }
    pthread_mutex_unlock(&g_pool.mu);
  }
  void Bg() {
    switch (g(6)) {
      case 0: MallocExtension::ReleaseMemoryToSystem(g.chance(50) ? 1 << 20 : ~size_t(0)); break;
      case 1: MallocExtension::ReleaseCpuMemory(g(sysconf(_SC_NPROCESSORS_ONLN))); break;
      case 2: MallocExtension::MarkThreadIdle(); break;
      case 3: { cpu_set_t s; CPU_ZERO(&s); CPU_SET(g(sysconf(_SC_NPROCESSORS_ONLN)), &s); sched_setaffinity(0, sizeof s, &s); break; }
      case 4: { static std::atomic<int> busy{0}; if (busy.exchange(1) == 0) { (void)MallocExtension::GetStats(); busy = 0; } break; }
      case 5: sched_yield(); break;
    }
  }
  void Round() {                                       // a burst of equal blocks, freed in another order
    int k = 20; size_t n = Size() % 5000; 
    for (int i = 0; i < k && on < 40; ++i) {
      char* p = (char*)malloc(n);
      Ev& e = E(kAlloc); e.seq = g_seq.fetch_add(1); e.kind = 0; e.req = n; e.id = g_id.fetch_add(1); e.addr = (uint64_t)p; e.cap = *MallocExtension::GetAllocatedSize(p);
      e.ret = -1; e.pred = -1; e.seen = -1; e.fam = kMalloc;
      Blk b{e.id, p, n, (size_t)e.cap, 0, 0, kMalloc, 0, 0}; FillBlk(b, true); own[on++] = b;
    }
    while (on > 5) Free(g(on));
  }
  void Run() {
    while (n < events) {
      int k = g(100);
      if (m_bg && k < 3) { Bg(); continue; }
      if (m_rounds && k < 8) { Round(); continue; }
      if (k < 50) { if (!Alloc() && on) Free(g(on)); }
      else if (k < 75) { if (on) Free(g(on)); }
      else if (k < 85) { if (on) Realloc(g(on)); }
      else if (k < 90) { if (on) FillBlk(own[g(on)], g.chance(50)); }
      else if (k < 95) { if (on) CheckBlk(own[g(on)]); }
      else Exchange();
    }
    while (on) Free(0);
  }
};
static void* Main(void* w) { ((Worker*)w)->Run(); return nullptr; }

// The driver's own clock-driven helper: what the allocator's background thread does.
static std::atomic<bool> g_stop{false};
static void* Background(void*) {
  MallocExtension::SetBackgroundProcessSleepInterval(absl::Milliseconds(1));
  MallocExtension::SetBackgroundProcessActionsEnabled(true);
  MallocExtension::ProcessBackgroundActions();
  return nullptr;
}

int main(int argc, char** argv) {
  if (argc < 6) return 99;
  uint64_t seed = atoll(argv[1]); int T = atoi(argv[2]); long ne = atol(argv[3]); const char* m = argv[4];
  m_bg = strchr(m, 'b'); m_large = strchr(m, 'l'); m_hot = strchr(m, 'h'); m_rounds = strchr(m, 'r'); m_guard = strchr(m, 'g');
  if (strchr(m, 's')) MallocExtension::SetProfileSamplingInterval(m_guard ? 20000 : 1 + seed % 5000);
  if (m_guard) { MallocExtension::ActivateGuardedSampling(); MallocExtension::SetGuardedSamplingInterval(1); }
  if (!strchr(m, 's')) MallocExtension::SetProfileSamplingInterval(1 << 20);
  if (m_bg) { pthread_t b; pthread_create(&b, nullptr, Background, nullptr); pthread_detach(b); }
  Worker** w = Map<Worker*>(T);
  pthread_t th[64];
  for (int i = 0; i < T; ++i) w[i] = new (Map<char>(sizeof(Worker))) Worker(i, seed, ne);
  if (T == 1) w[0]->Run();
  else {
    for (int i = 0; i < T; ++i) pthread_create(&th[i], nullptr, Main, w[i]);
    for (int i = 0; i < T; ++i) pthread_join(th[i], nullptr);
  }
  // merge by sequence number
  vt::Trace t(argv[5]);
  long pos[64] = {0};
  static const char* names[] = {"alloc", "fill", "check", "free", "realloc", "round", "fail"};
  for (;;) {
    int best = -1;
    for (int i = 0; i < T; ++i) if (pos[i] < w[i]->n && (best < 0 || w[i]->ev[pos[i]].seq < w[best]->ev[pos[best]].seq)) best = i;
    if (best < 0) break;
    Ev& e = w[best]->ev[pos[best]++];
    J j; j.kv("op", names[e.op]).kv("t", best).kv("id", e.id);
    if (e.op == kAlloc || e.op == kRealloc) {
      uint64_t end = e.addr + e.cap;
      j.kv("kind", e.kind).kv("h", e.addr >> 30).kv("l", e.addr & ((1 << 30) - 1)).kv("eh", end >> 30).kv("el", end & ((1 << 30) - 1))
       .kv("req", e.req).kv("cap", e.cap).kv("align", e.align).kv("ret", e.ret).kv("pred", e.pred).kv("seen", e.seen)
       .kv("am", e.align ? (long long)(e.addr % (uint64_t)e.align) : 0).kv("a16", e.addr % 16).kv("fam", e.fam).kv("old", e.id2).kv("tag", e.tag);
    } else if (e.op == kFill) j.kv("tag", e.tag).kv("n", e.req);
    else if (e.op == kCheck) j.kv("seen", e.seen).kv("n", e.req).kv("cap", e.cap);
    else j.kv("kind", e.kind);
    t.put(j);
  }
  t.flush();
  _exit(0);
}
