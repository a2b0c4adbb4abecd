// Conformance driver for what the allocator reports about itself: after any history, at rest.
//   stats <seed> <events> <trace>
// Taking a reading allocates nothing; everything the driver keeps is static.
#include <pthread.h>
#include <algorithm>
#include <condition_variable>
#include <map>
#include <mutex>
#include <random>
#include <string>
#include <vector>
#include "tcmalloc/allocation_sampling.h"
#include "tcmalloc/common.h"
#include "tcmalloc/global_stats.h"
#include "tcmalloc/internal_malloc_extension.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/pagemap.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/thread_cache.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
namespace tcmalloc { namespace tcmalloc_internal {
class CpuCachePeer { public: template <typename C> static void Resize(C& c, bool grow) {
  for (int i = 0; i < 100000; ++i) c.RecordCacheMissStat(0, !grow);
  c.RecordCacheMissStat(0, grow); c.ResizeSlabIfNeeded(); } };
} }
extern "C" size_t TCMalloc_Internal_GetStats(char* buffer, size_t buffer_length);
extern "C" int MallocExtension_Internal_GetStatsInPbtxt(char* buffer, int buffer_length);

static const char* kNames[] = {
  "generic.virtual_memory_used", "generic.physical_memory_used", "generic.current_allocated_bytes", "generic.bytes_in_use_by_app", "generic.heap_size",
  "generic.peak_memory_usage", "generic.realized_fragmentation", "tcmalloc.page_heap_free", "tcmalloc.pageheap_free_bytes", "tcmalloc.metadata_bytes",
  "tcmalloc.thread_cache_count", "tcmalloc.central_cache_free", "tcmalloc.transfer_cache_free", "tcmalloc.cpu_free", "tcmalloc.sharded_transfer_cache_free",
  "tcmalloc.per_cpu_caches_active", "tcmalloc.current_total_thread_cache_bytes", "tcmalloc.thread_cache_free", "tcmalloc.local_bytes",
  "tcmalloc.max_total_thread_cache_bytes", "tcmalloc.pageheap_unmapped_bytes", "tcmalloc.page_heap_unmapped", "tcmalloc.sampled_internal_fragmentation",
  "tcmalloc.external_fragmentation_bytes", "tcmalloc.required_bytes", "tcmalloc.slack_bytes", "tcmalloc.hard_usage_limit_bytes", "tcmalloc.desired_usage_limit_bytes",
  "tcmalloc.soft_limit_hits", "tcmalloc.hard_limit_hits", "tcmalloc.successful_shrinks_after_soft_limit_hit", "tcmalloc.successful_shrinks_after_hard_limit_hit",
  "tcmalloc.num_released_total_bytes", "tcmalloc.num_released_release_memory_to_system_bytes", "tcmalloc.num_released_process_background_actions_bytes",
  "tcmalloc.num_released_soft_limit_exceeded_bytes", "tcmalloc.num_released_hard_limit_exceeded_bytes", "tcmalloc.security_partitioning_active"};
constexpr int kN = sizeof(kNames) / sizeof(*kNames);
static const char* kText[] = {
  "Bytes in use by application", "Bytes in page heap freelist", "Bytes in central cache freelist", "Bytes in per-CPU cache freelist", "Bytes in Sharded cache freelist",
  "Bytes in transfer cache freelist", "Bytes in thread cache freelists", "Bytes in malloc metadata\n", "Bytes in malloc metadata Arena unallocated", "Bytes in malloc metadata Arena unavailable",
  "Actual memory used (physical + swap)", "Bytes released to OS (aka unmapped)", "Virtual address space used", "malloc metadata Arena non-resident bytes",
  "Actual memory used at peak", "Estimated in-use at peak", "Thread heaps in use", "Spans in use"};
static const char* kTextKey[] = {"app", "free", "central", "percpu", "sharded", "transfer", "thread", "meta", "arenaun", "arenagone", "physical", "unmapped", "virtual", "arenanonres", "peakbacked", "peakapp", "heaps", "spans"};
static const char* kPb[] = {"in_use_by_app", "page_heap_freelist", "central_cache_freelist", "per_cpu_cache_freelist", "sharded_transfer_cache_freelist", "transfer_cache_freelist",
  "thread_cache_freelists", "malloc_metadata", "malloc_metadata_arena_unallocated", "malloc_metadata_arena_unavailable", "actual_mem_used", "unmapped", "virtual_address_space_used", nullptr,
  "peak_backed", "peak_application_demand", "num_thread_heaps", "num_spans"};
constexpr int kT = sizeof(kText) / sizeof(*kText);
static FILE* f;
static void P(const char* k, unsigned long long v, bool first = false) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", k, std::min(v >> 20, 1ull << 30), v & ((1 << 20) - 1)); }

constexpr size_t kBuf = 8 << 20;
static char text[kBuf], pb[kBuf];
static MallocExtension::PropertyMap props;
static std::vector<tcmalloc::malloc_tracing_extension::AllocatedAddressRanges::SpanDetails> spans;
static size_t Num(int i) { size_t v = 0; if (!MallocExtension_Internal_GetNumericProperty(kNames[i], strlen(kNames[i]), &v)) v = 0xdeadull << 40; return v; }
static size_t Line(const char* label) {
  const char* p = strstr(text, label); if (!p) return 0xdeadull << 40;
  while (p > text && p[-1] != '\n') --p;
  const char* q = strpbrk(p, "0123456789"); return strtoull(q, nullptr, 10);
}
static size_t Field(const char* s, const char* name, const char** at = nullptr) {
  size_t n = strlen(name);
  for (const char* p = s; (p = strstr(p, name)); p += n)
    if ((p == s || p[-1] == ' ' || p[-1] == '{' || p[-1] == '\n') && p[n] == ':') { if (at) *at = p + n; return strtoull(p + n + 1, nullptr, 10); }
  return 0xdeadull << 40;
}
struct R4 { size_t system, free, unm, rel; };
static R4 Heap() { PageHeapSpinLockHolder l; auto s = tc_globals.page_allocator().stats(); return {s.system_bytes, s.free_bytes, s.unmapped_bytes, tc_globals.page_allocator().GetReleaseStats().total.in_bytes()}; }
static void Reading(bool mark) {
  static size_t a[kN], b[kN], c[kN]; static bool present[kN]; bool same = false; TCMallocStats st;
  for (int tries = 0; tries < 6 && !same; ++tries) {
    props.clear(); for (int i = 0; i < kN; ++i) a[i] = Num(i);
    MallocExtension_Internal_GetProperties(&props);
    for (int i = 0; i < kN; ++i) { present[i] = false; b[i] = 0; }
    for (auto& [k, v] : props) for (int i = 0; i < kN; ++i) if (k == kNames[i]) { b[i] = v.value; present[i] = true; }
    props.clear(); same = true; for (int i = 0; i < kN; ++i) { c[i] = Num(i); same = same && a[i] == c[i]; }
  }
  size_t tl = TCMalloc_Internal_GetStats(text, kBuf); int pl = MallocExtension_Internal_GetStatsInPbtxt(pb, kBuf);
  if (tl >= kBuf || pl >= (int)kBuf) exit(2);
  ExtractTCMallocStats(st, true);
  spans.clear(); size_t count = tc_globals.pagemap().GetAllocatedSpans(spans); if (count != spans.size()) exit(2);
  R4 h = Heap();
  fprintf(f, "{\"op\":\"reading\",\"mark\":%s,\"same\":%s,\"num\":{", mark ? "true" : "false", same ? "true" : "false");
  for (int i = 0; i < kN; ++i) P(kNames[i], c[i], i == 0);
  fprintf(f, "},\"props\":{"); for (int i = 0; i < kN; ++i) P(kNames[i], present[i] ? b[i] : 0xdeadull << 40, i == 0);
  fprintf(f, "},\"text\":{"); for (int i = 0; i < kT; ++i) P(kTextKey[i], Line(kText[i]), i == 0);
  fprintf(f, "},\"pb\":{"); for (int i = 0; i < kT; ++i) if (kPb[i]) P(kTextKey[i], Field(pb, kPb[i]), i == 0);
  fprintf(f, "}");
  size_t sb = 0; for (auto& s : spans) sb += s.size;
  P("spanbytes", sb); P("spancount", spans.size()); P("system", h.system); P("free", h.free); P("unm", h.unm); P("rel", h.rel);
  P("fullmeta", tc_globals.metadata_bytes()); P("nonres", st.arena.bytes_nonresident);
  // classes: objects cached (text), bytes cached (machine readable), pages of the spans (text) and in the page map
  size_t over = 0, tb = 0, pbb = 0, tp = 0, mp = 0, off = 0;
  static size_t pages[1 << 19 >> 3]; 
  // (classes with one object per span bypass the central free list, and with it this account)
  for (auto& s : spans) { if (s.object_size && s.size < 2 * s.object_size) s.object_size = 0; if (s.object_size) pages[s.object_size >> 3] += s.size / kPageSize; }
  const char* q = pb;
  static size_t tpages[1 << 19 >> 3];
  for (int k = 1; k < kNumClasses; ++k) {
    over += tc_globals.central_freelist(k).OverheadBytes();
    char lab[32]; snprintf(lab, sizeof(lab), "\nclass %3d [", k); const char* p = strstr(text, lab);
    size_t z = 0, o = 0, lp = 0; if (!p || sscanf(p + strlen(lab), " %zu bytes ] : %zu objs; %*f MiB; %*f cum MiB; %zu live pages", &z, &o, &lp) != 3) exit(2);
    if (z != tc_globals.sizemap().class_to_size(k)) ++off;
    tb += z * o; tp += lp; tpages[z >> 3] += lp;
    q = strstr(q, "freelist {"); if (!q) exit(2); q += 10;
    if (Field(q, "sizeclass") != z) ++off;
    size_t by = Field(q, "bytes"); if (by != z * o) ++off; pbb += by;
  }
  for (auto& s : spans) if (s.object_size) { size_t k = s.object_size >> 3; if (pages[k] != tpages[k]) ++off; }
  for (auto& s : spans) if (s.object_size) { mp += s.size / kPageSize; pages[s.object_size >> 3] = 0; }
  for (int k = 1; k < kNumClasses; ++k) tpages[tc_globals.sizemap().class_to_size(k) >> 3] = 0;
  P("overhead", over); P("classtext", tb); P("classpb", pbb); P("livepages", tp); P("mappages", mp); fprintf(f, ",\"off\":%zu", off);
  const char* sp = strstr(text, "MALLOC SAMPLED PROFILES: "); size_t s1 = 0, s2 = 0; if (!sp || sscanf(sp, "MALLOC SAMPLED PROFILES: %zu bytes (current), %zu bytes", &s1, &s2) != 2) exit(2);
  P("sampled", s1); P("fragmented", s2); P("pbsampled", Field(pb, "current_bytes")); P("pbfragmented", Field(pb, "current_fragmentation_bytes"));
  fprintf(f, "}\n");
}

enum Cmd { kNone, kAlloc, kFree, kIdle };
struct Worker {
  pthread_t th; std::mutex m; std::condition_variable cv; Cmd cmd = kNone; size_t n = 0; int how = 0; void* p = nullptr;
  static void* Main(void* a) {
    Worker* w = static_cast<Worker*>(a);
    for (;;) { std::unique_lock<std::mutex> l(w->m); w->cv.wait(l, [&] { return w->cmd != kNone; }); w->Run(w->cmd); w->cmd = kNone; w->cv.notify_all(); }
  }
  void Run(Cmd c) {
    if (c == kAlloc) {
      switch (how) { case 0: p = malloc(n); break; case 1: p = ::operator new(n); break; case 2: p = calloc(1, n); break; default: p = aligned_alloc(size_t{1} << how, n); }
    } else if (c == kFree) { if (how == 1) ::operator delete(p); else free(p); }
    else MallocExtension::MarkThreadIdle();
  }
  void Do(Cmd c, bool here) {
    if (here) return Run(c);
    std::unique_lock<std::mutex> l(m); cmd = c; cv.notify_all(); cv.wait(l, [&] { return cmd == kNone; });
  }
};
static Worker w[4];
struct B { void* p; int how; int id; size_t n; };
static B live[20000]; static int nlive;
int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(200);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  static std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  f = fopen(v[3], "w"); if (!f) return 2;
  static char buf[1 << 16]; setvbuf(f, buf, _IOFBF, sizeof(buf));
  MallocExtension::SetProfileSamplingInterval(0); MallocExtension::SetGuardedSamplingInterval(-1);
  free(malloc(1)); spans.reserve(300000);
  bool percpu = tc_globals.CpuCacheActive();
  for (int i = 1; i < 4; ++i) { if (pthread_create(&w[i].th, nullptr, Worker::Main, &w[i])) return 2; w[i].n = 1; w[i].Do(kAlloc, false); w[i].Do(kFree, false); }
  fprintf(f, "{\"op\":\"init\",\"percpu\":%s}\n", percpu ? "true" : "false");
  Reading(true); int nid = 0; size_t bytes = 0; int phase = 0, big = 0;
  for (int i = 0; i < events; ++i) {
    if (i % 40 == 0) { phase = R(4); big = R(3); }
    int r = R(100); int t = R(4);
    if (i % 25 == 24) { Reading(false); continue; }
    if (r < (phase == 0 ? 70 : phase == 1 ? 25 : 45) && bytes < (300u << 20)) {
      // several at once, of about one size
      size_t n = big == 2 && R(3) == 0 ? 262144 + R(4 << 20) : R(3) == 0 ? R(262145) : R(8) ? R(5000) : R(300);
      int many = n < 10000 ? 1 + R(60) : 1; int how = R(3); if (R(8) == 0) { how = 3 + R(18); }
      bool sample = R(6) == 0;
      for (int k = 0; k < many && nlive < 19000; ++k) {
        w[t].n = n; w[t].how = how;
        bool smp = sample && k == 0 && t == 0;
        if (smp) {
          // (with intervals longer than the block, what it stands for is not a whole number of blocks)
          static const int kIv[] = {1, 3000, 50000, 100001}; int iv = kIv[R(4)];
          Parameters::set_profile_sampling_interval(iv); GetThreadSampler().RecordAllocation(1ull << 40);
          if (iv > 1) for (int q = 0; q < 20000 && !GetThreadSampler().WillRecordAllocation(n); ++q) GetThreadSampler().RecordAllocation(16);
        }
        w[t].Do(kAlloc, t == 0);
        if (smp) { Parameters::set_profile_sampling_interval(0); }
        void* p = w[t].p; if (!p) continue;
        size_t cap = *MallocExtension::GetAllocatedSize(p);
        auto [span, cl] = tc_globals.pagemap().GetDescriptorAndSizeClass(PageIdContainingTagged(p));
        const char* kind = cl ? "small" : span->sampled() ? "sampled" : "pages";
        live[nlive++] = {p, how, ++nid, n}; bytes += cap;
        fprintf(f, "{\"op\":\"alloc\",\"id\":%d,\"kind\":\"%s\",\"cap\":%zu", nid, kind, cap); P("sampled", tc_globals.sampled_objects_size_.value()); fprintf(f, "}\n");
      }
    } else if (r < 90 && nlive) {
      int many = 1 + R(phase == 1 ? 120 : 40);
      for (int k = 0; k < many && nlive; ++k) {
        int x = R(4) ? nlive - 1 : R(nlive); B b = live[x]; live[x] = live[--nlive]; bytes -= *MallocExtension::GetAllocatedSize(b.p);
        w[t].p = b.p; w[t].how = b.how; w[t].Do(kFree, t == 0);
        fprintf(f, "{\"op\":\"free\",\"id\":%d}\n", b.id);
      }
    } else if (r < 93) { w[t].Do(kIdle, t == 0); fprintf(f, "{\"op\":\"idle\"}\n"); }
    else if (r < 96) { int ncpu = sysconf(_SC_NPROCESSORS_ONLN); for (int k = 0; k < ncpu; ++k) if (R(2)) MallocExtension::ReleaseCpuMemory(k); fprintf(f, "{\"op\":\"idle\"}\n"); }
    else if (r < 98) {
      size_t n = R(3) ? R(8 << 20) : R(200) << 20;
      R4 a = Heap(); MallocExtension::ReleaseMemoryToSystem(n); R4 b = Heap();
      fprintf(f, "{\"op\":\"release\",\"x\":0"); P("free0", a.free); P("unm0", a.unm); P("rel0", a.rel); P("sys0", a.system); P("free1", b.free); P("unm1", b.unm); P("rel1", b.rel); P("sys1", b.system); fprintf(f, "}\n");
    } else if (percpu) {
      int what = R(5); auto& cc = tc_globals.cpu_cache();
      if (what == 0) cc.ShuffleCpuCaches(); else if (what == 1) cc.TryDrainingCaches(); else if (what == 2) cc.ResizeSizeClasses(); else CpuCachePeer::Resize(cc, what == 3);
      fprintf(f, "{\"op\":\"idle\"}\n");
    }
  }
  while (nlive && R(20)) { B b = live[--nlive]; w[0].p = b.p; w[0].how = b.how; w[0].Do(kFree, true); fprintf(f, "{\"op\":\"free\",\"id\":%d}\n", b.id); }
  Reading(false);
  fclose(f);
  _exit(0);
}
