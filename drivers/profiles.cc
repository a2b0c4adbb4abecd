// Conformance driver for the heap, peak-heap and allocation profiles: every sampled block is told by a hook when it appears,
// and each profile taken is written out in full.
//   profiles <seed> <events> <trace>
#include <pthread.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <new>
#include <optional>
#include <random>
#include <string>
#include <vector>
#include "tcmalloc/allocation_sampling.h"
#include "tcmalloc/common.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/stack_trace_table.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension; using tcmalloc::MallocHook; using tcmalloc::Profile; using tcmalloc::ProfileType;

static FILE* f;
static absl::Time t0;
static long Us() { return absl::ToInt64Microseconds(absl::Now() - t0); }
static std::string Pair(long long v) { char b[64]; snprintf(b, sizeof b, "[%lld,%lld]", v >> 20, v & ((1 << 20) - 1)); return b; }
static unsigned Hash(const void* const* s, size_t n) { unsigned h = n; for (size_t i = 0; i < n; ++i) h = h * 1000003u ^ (unsigned)((uintptr_t)s[i] * 0x9e3779b97f4a7c15ull >> 40); return h & 0x3fffffff; }

struct Born { long h; size_t req, cap; long al; double weight; unsigned stack; long when; uintptr_t p; int hint; bool cold; };
constexpr int kBorn = 4096;
static Born born[kBorn]; static std::atomic<int> nborn{0};
static void OnNew(const MallocHook::SampledAlloc& a) {
  int i = nborn.fetch_add(1); if (i >= kBorn) abort();
  born[i] = {(long)a.handle, a.requested_size, a.allocated_size, a.requested_alignment ? (long)*a.requested_alignment : 0, a.weight,
             Hash(a.stack.data(), a.stack.size()), (long)absl::ToInt64Microseconds(a.allocation_time - t0), (uintptr_t)a.ptr, a.access_hint, a.access_allocated == MallocHook::Access::Cold};
}

// One row of a profile
static std::string Row(const Profile::Sample& s) {
  char b[400];
  snprintf(b, sizeof b, "[%ld,%lld,%s,%zu,%ld,%zu,%d,%s,%d,%d,%u,%ld,\"%lx\"]", (long)s.alloc_handle, (long long)s.count, Pair(s.sum).c_str(), s.requested_size,
           s.requested_alignment ? (long)*s.requested_alignment : 0, s.allocated_size, (int)s.type, s.requested_size_returning ? "true" : "false", (int)s.access_hint,
           (int)(s.access_allocated == Profile::Sample::Access::Cold), Hash(s.stack, s.depth), (long)absl::ToInt64Microseconds(s.allocation_time - t0), (uintptr_t)s.span_start_address);
  return b;
}
static std::string Rows(const Profile& p) { std::string r; p.Iterate([&](const Profile::Sample& s) { if (!r.empty()) r += ','; r += Row(s); }); return "[" + r + "]"; }
static std::string Now() { return ",\"size\":" + Pair(tc_globals.sampled_objects_size_.value()) + ",\"peak\":" + Pair(tc_globals.peak_heap_tracker().CurrentPeakSize()) + "}\n"; }
static long StartUs(const Profile& p) { return p.StartTime() ? (long)absl::ToInt64Microseconds(*p.StartTime() - t0) : -1; }

// How a block is asked for
struct Ask { int how; size_t n, al; int hint; };
static void* Get(const Ask& a) {
  switch (a.how) {
    case 0: return malloc(a.n);
    case 1: return ::operator new(a.n);
    case 2: return aligned_alloc(a.al, a.n);
    case 3: return ::operator new(a.n, std::align_val_t(a.al));
    case 4: return tcmalloc_size_returning_operator_new(a.n).p;
    case 5: return ::operator new(a.n, static_cast<tcmalloc::hot_cold_t>(a.hint));
    case 6: return ::operator new(a.n, std::align_val_t(a.al), static_cast<tcmalloc::hot_cold_t>(a.hint));
    default: return calloc(1, a.n);
  }
}
static void Put(const Ask& a, void* p) {
  if (a.how == 3 || a.how == 6) ::operator delete(p, std::align_val_t(a.al)); else if (a.how == 0 || a.how == 2 || a.how == 7) free(p); else ::operator delete(p);
}
// type: 0 New, 1 Malloc, 2 AlignedMalloc
static std::string Object(const Born& b, const Ask& a, long from, long to) {
  long long w = llround(b.weight * (b.req + 1)); double est = (double)w * b.cap / (b.req + 1);
  bool al = a.how == 2 || a.how == 3 || a.how == 6;
  char s[500];
  snprintf(s, sizeof s, "{\"h\":%ld,\"req\":%zu,\"al\":%ld,\"type\":%d,\"ret\":%s,\"hint\":%d,\"cap\":%zu,\"w\":%lld,\"est\":%lld,\"rnd\":%lld,\"stack\":%u,\"when\":%ld,\"cold\":%d,"
           "\"span\":\"%lx\",\"told\":[%zu,%ld,%d],\"from\":%ld,\"to\":%ld}",
           b.h, a.n, al ? (long)a.al : a.how == 0 || a.how == 7 ? 16l : 0l, a.how == 2 ? 2 : a.how == 0 || a.how == 7 ? 1 : 0, a.how == 4 ? "true" : "false", a.how == 5 || a.how == 6 ? a.hint : 255, b.cap, w,
           (long long)est, (long long)(est + 0.5), b.stack, b.when, (int)b.cold, b.p & ~(uintptr_t)(kPageSize - 1), b.req, b.al, b.hint, from, to);
  return s;
}

static std::atomic<unsigned> seeds{0};
static Ask Any(std::mt19937& g) {
  auto R = [&](int n) { return (int)(g() % n); };
  Ask a; a.how = R(8); int k = R(10);
  a.n = k == 0 ? R(4) : k < 5 ? R(1024) : k < 8 ? R(40000) : k < 9 ? R(262145) : 262144 + R(3 << 20);
  a.al = size_t{1} << (3 + R(11)); a.hint = R(256);
  if (a.how == 2 || a.how == 3 || a.how == 6) a.n = std::max(a.n, size_t{64});
  return a;
}
static void Force(int interval) { Parameters::set_profile_sampling_interval(interval); GetThreadSampler().RecordAllocation(1ull << 40); }

struct Held { void* p; Ask a; long h; const void* who = nullptr; };
struct Worker {
  pthread_t th; std::mutex m; std::condition_variable cv; int cmd = 0; unsigned seed; bool frees; int many;
  Held held[200]; int n = 0; struct E { bool born; void* p; Ask a; long from, to; } log[400]; int nlog = 0;
  static void* Main(void* a) {
    Worker* w = static_cast<Worker*>(a);
    for (;;) { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->cmd != 0; }); w->Run(); w->cmd = 0; w->cv.notify_all(); }
  }
  void Run() {
    std::mt19937 g(seed); nlog = 0;
    GetThreadSampler().RecordAllocation(1ull << 40);
    for (int i = 0; i < many; ++i) {
      if (n && frees && g() % 2) { int x = g() % n; Held h = held[x]; held[x] = held[--n]; Put(h.a, h.p); log[nlog++] = {false, h.p, h.a, 0, 0}; }
      else if (n < 200) { Ask a = Any(g); if (a.n > 300000) a.n = 300000; long from = Us(); void* p = Get(a); held[n++] = {p, a, 0}; log[nlog++] = {true, p, a, from, Us()}; }
    }
  }
  void Start(unsigned s, bool fr, int mn) { std::unique_lock<std::mutex> l(m); seed = s; frees = fr; many = mn; cmd = 1; cv.notify_all(); }
  void Wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cmd == 0; }); }
};
static Worker w[3];
static Held live[1000]; static int nlive;
int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(200);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  static std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  f = fopen(v[3], "w"); if (!f) return 2;
  static char buf[1 << 16]; setvbuf(f, buf, _IOFBF, sizeof(buf));
  MallocExtension::SetProfileSamplingInterval(0); MallocExtension::SetGuardedSamplingInterval(-1);
  free(malloc(1)); t0 = absl::Now();
  for (auto& x : w) { if (pthread_create(&x.th, nullptr, Worker::Main, &x)) return 2; x.Start(1, false, 1); x.Wait(); Put(x.held[0].a, x.held[0].p); x.n = 0; }
  for (int i = 0; i < 3; ++i) { char b[600]; (void)b; free(malloc(100)); }
  if (!MallocHook::AddSampledNewHook(OnNew)) return 2;
  static std::optional<MallocExtension::AllocationProfilingToken> tok[3]; bool open[3] = {};
  {
    std::string s = "{\"op\":\"init\",\"live\":" + Rows(MallocExtension::SnapshotCurrent(ProfileType::kHeap)) + ",\"snap\":" + Rows(MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap)) + Now();
    fputs(s.c_str(), f);
  }
  if (R(2)) MallocExtension::ActivateGuardedSampling();
  int frac = 0; auto Frac = [&](int x) { Parameters::set_peak_sampling_heap_growth_fraction(x / 4.0); frac = x; fprintf(f, "{\"op\":\"frac\",\"x\":%d%s", x, Now().c_str()); };
  Frac(R(3) ? 5 : 4);
  int grow = 0;
  for (int i = 0; i < events; ++i) {
    if (i % 30 == 0) grow = R(3);
    int r = R(100);
    if (nborn) { fprintf(stderr, "stray sample\n"); _exit(2); }
    if (r < (grow == 0 ? 55 : grow == 1 ? 30 : 15)) {
      if (nlive >= 250) continue;
      static const int kIv[] = {1, 1, 3000, 7777, 50000, 100001};
      int iv = kIv[R(6)]; Ask a = Any(rng); if (R(3) == 0) MallocExtension::SetGuardedSamplingInterval(0);
      Force(iv); if (iv > 1) for (int k = 0; k < 20000 && !GetThreadSampler().WillRecordAllocation(a.n); ++k) GetThreadSampler().RecordAllocation(16);
      long from = Us(); void* p = Get(a); long to = Us(); Parameters::set_profile_sampling_interval(0); MallocExtension::SetGuardedSamplingInterval(-1);
      if (!p) return 2;
      int nb = nborn.exchange(0); if (nb > 1) { fprintf(stderr, "two samples\n"); _exit(2); }
      live[nlive] = {p, a, nb ? born[0].h : 0}; ++nlive;
      std::string s;
      if (nb) s = "{\"op\":\"alloc\",\"here\":" + std::string((uintptr_t)p == born[0].p ? "true" : "false") + ",\"x\":" + Object(born[0], a, from, to) + Now();
      else s = "{\"op\":\"plain\"" + Now();
      fputs(s.c_str(), f);
    } else if (r < 75) {
      if (!nlive) continue;
      int x = R(3) ? R(nlive) : nlive - 1; Held h = live[x]; live[x] = live[--nlive]; Put(h.a, h.p);
      fprintf(f, "{\"op\":\"%s\",\"h\":%ld%s", h.h ? "free" : "plain", h.h, Now().c_str());
    } else if (r < 83) {
      long from = Us(); Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap); long to = Us();
      std::string s = "{\"op\":\"heap\",\"rows\":" + Rows(p) + ",\"start\":" + std::to_string(StartUs(p)) + ",\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) + Now();
      fputs(s.c_str(), f);
    } else if (r < 89) {
      Profile p = MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap);
      std::string s = "{\"op\":\"peak\",\"rows\":" + Rows(p) + ",\"start\":" + std::to_string(StartUs(p)) + Now();
      fputs(s.c_str(), f);
    } else if (r < 95) {
      int k = R(3); long from = Us();
      if (!open[k]) { tok[k].emplace(MallocExtension::StartAllocationProfiling()); open[k] = true; fprintf(f, "{\"op\":\"open\",\"k\":%d,\"from\":%ld,\"to\":%ld%s", k, from, Us(), Now().c_str()); }
      else if (R(4) == 0) { tok[k].reset(); open[k] = false; fprintf(f, "{\"op\":\"drop\",\"k\":%d%s", k, Now().c_str()); }
      else {
        Profile p = std::move(*tok[k]).Stop(); long to = Us(); tok[k].reset(); open[k] = false;
        std::string s = "{\"op\":\"close\",\"k\":" + std::to_string(k) + ",\"rows\":" + Rows(p) + ",\"start\":" + std::to_string(StartUs(p)) + ",\"dur\":" + std::to_string(absl::ToInt64Microseconds(p.Duration())) +
                        ",\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) + Now();
        fputs(s.c_str(), f);
      }
    } else if (r < 97) { static const int kF[] = {0, 4, 4, 5, 5, 6, 8}; Frac(kF[R(7)]); }
    else {
      // several threads at once, and a heap profile taken meanwhile
      bool frees = R(2); int m = 3 + R(12);
      if (R(3) == 0) MallocExtension::SetGuardedSamplingInterval(0);
      long from = Us(); Parameters::set_profile_sampling_interval(1); for (auto& x : w) x.Start(rng(), frees, m);
      // (nothing here may allocate until they are done: the rows are written afterwards)
      std::unique_ptr<const ProfileBase> d = DumpHeapProfile(tc_globals);
      for (auto& x : w) x.Wait();
      Parameters::set_profile_sampling_interval(0); MallocExtension::SetGuardedSamplingInterval(-1); long to = Us();
      int nb = nborn.exchange(0);
      static std::string bs, gs, during; bs.clear(); gs.clear(); during.clear();
      static std::vector<Held> here; static bool used[kBorn]; for (int k = 0; k < nb; ++k) used[k] = false;
      int missing = 0;
      for (auto& x : w) {
        // in its own order each thread's blocks are matched to the samples seen at their addresses while it had them
        for (int k = 0; k < x.nlog; ++k) {
          auto& e = x.log[k];
          if (e.born) { for (int j = 0; j < nb; ++j) if (!used[j] && born[j].p == (uintptr_t)e.p && born[j].req == e.a.n && born[j].when >= e.from && born[j].when <= e.to) {
              used[j] = true; if (!bs.empty()) bs += ','; bs += Object(born[j], e.a, e.from, e.to); here.push_back({e.p, e.a, born[j].h, &x}); break; } }
          else for (auto it = here.rbegin(); it != here.rend(); ++it) if (it->p == e.p && it->who == &x) { if (!gs.empty()) gs += ','; gs += std::to_string(it->h); here.erase(std::next(it).base()); break; }
        }
      }
      // (the profile being taken is itself a block, soon gone)
      for (int j = 0; j < nb; ++j) if (!used[j]) {
        if (++missing > 1) break;
        if (!bs.empty()) bs += ','; bs += Object(born[j], Ask{1, sizeof(StackTraceTable), 0, 0}, from, to);
        if (!gs.empty()) gs += ','; gs += std::to_string(born[j].h); frees = true;
      }
      d->Iterate([&](const Profile::Sample& s) { if (!during.empty()) during += ','; during += Row(s); });
      d.reset();
      int gone = nborn.exchange(0); if (gone || missing > 1) { fprintf(stderr, "stray samples %d %d\n", gone, missing); _exit(2); }
      // what the threads still have stays theirs
      Profile p = MallocExtension::SnapshotCurrent(ProfileType::kPeakHeap);
      std::string s = "{\"op\":\"burst\",\"frees\":" + std::string(frees ? "true" : "false") + ",\"born\":[" + bs + "],\"gone\":[" + gs + "],\"during\":[" + during + "],\"snap\":" + Rows(p) +
                      ",\"start\":" + std::to_string(StartUs(p)) + ",\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) + Now();
      fputs(s.c_str(), f);
    }
  }
  { long from = Us(); Profile p = MallocExtension::SnapshotCurrent(ProfileType::kHeap); long to = Us();
    std::string s = "{\"op\":\"heap\",\"rows\":" + Rows(p) + ",\"start\":" + std::to_string(StartUs(p)) + ",\"from\":" + std::to_string(from) + ",\"to\":" + std::to_string(to) + Now(); fputs(s.c_str(), f); }
  fclose(f);
  _exit(0);
}
