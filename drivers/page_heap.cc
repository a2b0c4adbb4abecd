// Conformance driver for HugePageAwareAllocator (whole library linked, own forwarder).
//   page_heap <seed> <ops> <profile> <failpct> <trace>
#include "tcmalloc/huge_page_aware_allocator.h"
#include "tcmalloc/common.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
#include <new>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
namespace hp = tcmalloc::tcmalloc_internal::huge_page_allocator_internal;

static constexpr int kPH = kPagesPerHugePage.raw_num();
static constexpr int kHps = 16000;
static constexpr uintptr_t kBase = uintptr_t{1} << 38;   // fake addresses, never touched
static vt::Rng g_r(1);
static MemoryTag g_tag;
static int g_fail, g_sysfail, g_limit, g_nest, g_depth;
static bool g_back, g_partial, g_adaptive, g_subrel, g_zero;
static int g_thresh;
enum K { BEG, SYS, UB, UBE, BK, END, TAKE };
struct Ev { K k; const char* what; long v[20]; int nbm; struct { int h; unsigned long b[4]; } bm[3]; int ntr; short tr[300]; };
static Ev* g_ev; static long g_n; static const long kEv = 60000;
static Ev& New(K k, const char* w = "") { if (g_n >= kEv) { fprintf(stderr, "too many events\n"); _exit(98); } Ev& e = g_ev[g_n++]; e.k = k; e.what = w; e.nbm = 0; e.ntr = -1; return e; }
static uintptr_t Origin() { return kBase | (static_cast<uintptr_t>(g_tag) << kTagShift); }
static long Rel(PageId p) { return ((long)p.index() - (long)(Origin() >> kPageShift)); }
static void* g_trk[kHps]; static bool g_sys[kHps];
static int g_cursor = 8;
static long g_take[16];   // per depth: where the run of the allocation under way was chosen
static void Nested();
static long DoRelease(size_t n, bool breaking, PageReleaseReason reason);

static constexpr int kSpans = 6000;
alignas(64) static char g_pool[kSpans][(sizeof(Span) + 63) / 64 * 64]; static void* g_free[kSpans + 1]; static int g_nfree;   // no malloc while the guard of the lock is in force
struct Fwd {
  Arena& arena() { return tc_globals.arena(); }
  absl::Duration filler_skip_subrelease_short_interval() { return g_zero ? absl::ZeroDuration() : absl::Seconds(60); }
  absl::Duration filler_skip_subrelease_long_interval() { return g_zero ? absl::ZeroDuration() : absl::Seconds(300); }
  bool release_partial_alloc_pages() { return g_partial; }
  bool hpaa_subrelease() const { return g_subrel; }
  SubreleaseUnbackedMode subrelease_unbacked_hugepages() const { return SubreleaseUnbackedMode::kEnabled; }
  bool huge_region_adaptive_release() { return g_adaptive; }
  bool release_max_cold_pages() { return false; }
  ReleaseStalePages release_stale_pages() { return ReleaseStalePages::kDisabled; }
  MadviseRegionsNoHugepage madvise_cold_regions_nohugepage() { return MadviseRegionsNoHugepage::kDisabled; }
  bool BackAllocations() const { return g_back; }
  int32_t BackSizeThresholdBytes() const { return g_thresh; }
  EnableUnfilteredCollapse enable_unfiltered_collapse() { return EnableUnfilteredCollapse::kDisabled; }
  void ShrinkToUsageLimit(Length) { if (g_take[g_depth] < 0) { g_take[g_depth] = g_n; Ev& e = ::New(TAKE); e.v[0] = -1; }
    if (g_limit && g_r.chance(g_limit)) DoRelease(1 + g_r(600), true, g_r(2) ? PageReleaseReason::kSoftLimitExceeded : PageReleaseReason::kHardLimitExceeded); }
  void* GetHugepage(HugePage p) { long h = Rel(p.first_page()) / kPH; return h >= 0 && h < kHps ? g_trk[h] : nullptr; }
  bool Ensure(Range) { return true; }
  void ClearSpan(PageId) {}
  void SetSpan(PageId p, Span* s) { if (s->first_page() != p) abort(); }
  void SetHugepage(HugePage p, void* pt) { g_trk[Rel(p.first_page()) / kPH] = pt; }
  Span* NewSpan(Range r) { if (g_nfree == 0) _exit(97); return new (g_free[--g_nfree]) Span(r); }
  void DeleteSpan(Span* s) { g_free[g_nfree++] = s; }
  [[noreturn]] void ReportDoubleFree(void*) { abort(); }
  AddressRange AllocatePages(size_t bytes, size_t align, MemoryTag tag) {
    int hps = bytes / kHugePageSize; if (bytes % kHugePageSize || align < kHugePageSize || tag != g_tag) abort();
    Ev& e = New(SYS); e.v[0] = -1; e.v[1] = hps; e.v[2] = 0;
    if (g_r.chance(g_sysfail)) return {nullptr, 0};
    int extra = g_r(6) ? 0 : g_r(4), at = g_cursor + (g_r(3) ? 0 : 1 + g_r(3));
    if (align > kHugePageSize) { int a = align / kHugePageSize; at = (at + a - 1) / a * a; }
    if (at + hps + extra > kHps) return {nullptr, 0};
    if (g_r(8) == 0) { for (int k = 1; k + hps + extra < at; ++k) { bool ok = true; for (int q = 0; q < hps + extra; ++q) ok &= !g_sys[k + q]; if (ok && (k * kHugePageSize) % align == 0) { at = k; break; } } }
    for (int q = 0; q < hps + extra; ++q) g_sys[at + q] = true;
    if (at + hps + extra > g_cursor) g_cursor = at + hps + extra;
    e.v[0] = at; e.v[1] = hps + extra; e.v[2] = 1;
    return {(void*)(Origin() + (uintptr_t)at * kHugePageSize), (size_t)(hps + extra) * kHugePageSize};
  }
  void Back(Range r) { Ev& e = New(BK); e.v[0] = Rel(r.p); e.v[1] = r.n.raw_num(); }
  MemoryModifyStatus ReleasePages(Range r) {
    Ev& e = New(UB); e.v[0] = Rel(r.p); e.v[1] = r.n.raw_num();
    if (!pageheap_lock.IsHeld() && g_depth == 1 && g_r.chance(g_nest)) Nested();
    bool ok = !g_r.chance(g_fail);
    Ev& f = New(UBE); f.v[0] = Rel(r.p); f.v[1] = r.n.raw_num(); f.v[2] = ok;
    return {.success = ok, .error_number = ok ? 0 : 12};
  }
  MemoryModifyStatus CollapsePages(Range) { return {.success = false, .error_number = 12}; }
  void SetAnonVmaName(Range, std::optional<absl::string_view>) {}
};
using H = hp::HugePageAwareAllocator<Fwd>;
static H* h;
struct L { Span* s; long p, n; bool dense; size_t o; };
static L g_live[6000]; static int g_k;
static int g_profile;

static void Bits(Ev& e, long hpn) {   // the lock is held
  if (hpn < 0 || e.nbm >= 3) return;
  PageBitmap b; HugePage p = HugePageContaining(PageId{(Origin() >> kPageShift) + (uintptr_t)hpn * kPH});
  bool ok = h->GetPageAllocationStatus(p, b);
  auto& x = e.bm[e.nbm++]; x.h = ok ? hpn : -1;
  for (int w = 0; w < 4; ++w) { x.b[w] = 0; for (int i = 0; i < 64; ++i) if (b.GetBit(w * 64 + i)) x.b[w] |= 1ul << i; }
}
static void Stats(Ev& e) {   // the lock is held; totals only outside every other operation
  e.v[6] = g_depth == 0;
  BackingStats s = h->stats(); SmallSpanStats sm; LargeSpanStats lg; h->GetSmallSpanStats(&sm); h->GetLargeSpanStats(&lg);
  long nf = lg.normal_pages.raw_num(), nr = lg.returned_pages.raw_num();
  for (size_t i = 0; i < kMaxPages.raw_num(); ++i) nf += sm.normal_length[i] * i, nr += sm.returned_length[i] * i;
  e.v[7] = s.system_bytes / kPageSize; e.v[8] = s.free_bytes / kPageSize; e.v[9] = s.unmapped_bytes / kPageSize; e.v[10] = nf; e.v[11] = nr;
  e.v[12] = h->DonatedHugePages().raw_num(); e.v[13] = h->AbandonedPages().raw_num(); e.v[14] = h->RegionsFreeBacked().raw_num();
  PageReleaseStats r = h->GetReleaseStats();
  e.v[15] = r.total.raw_num(); e.v[16] = r.release_memory_to_system.raw_num(); e.v[17] = r.process_background_actions.raw_num();
  e.v[18] = r.soft_limit_exceeded.raw_num(); e.v[19] = r.hard_limit_exceeded.raw_num();
}
static void DoNew(size_t n, size_t align, bool dense) {
  Ev& b = New(BEG, "new"); b.v[0] = n; b.v[1] = 0; b.v[2] = 0; ++g_depth; g_take[g_depth] = -1;
  size_t o = dense ? 64 + g_r(100) : 1 + g_r(4);
  SpanAllocInfo info{.objects_per_span = o, .density = dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
  Span* s = align <= 1 && g_r(2) ? h->New(Length(n), info) : h->NewAligned(Length(n), Length(align), info);
  long take = g_take[g_depth]; --g_depth;
  if (s) { if (take < 0) abort(); Ev& e = g_ev[take]; e.v[0] = Rel(s->first_page()); e.v[1] = s->num_pages().raw_num(); e.v[2] = s->donated(); }
  if (s && g_k < 6000) g_live[g_k++] = {s, Rel(s->first_page()), (long)s->num_pages().raw_num(), dense, o};
  Ev& e = New(END, "new");
  e.v[0] = s ? Rel(s->first_page()) : -1; e.v[1] = s ? s->num_pages().raw_num() : 0; e.v[2] = n; e.v[3] = align; e.v[4] = s && s->donated();
  e.v[5] = s ? (GetMemoryTag(s->start_address()) == g_tag) + 2 * (g_back && (long)(n * kPageSize) <= g_thresh) : 0;
  PageHeapSpinLockHolder l; Stats(e);
  if (s) { long a = e.v[0] / kPH, z = (e.v[0] + e.v[1] - 1) / kPH; Bits(e, a); if (z != a) Bits(e, z); if (z > a + 1) Bits(e, a + 1 + g_r(z - a - 1)); }
}
static void DoDel(int k) {
  L x = g_live[k]; g_live[k] = g_live[--g_k];
  Ev& b = New(BEG, "del"); b.v[0] = x.p; b.v[1] = x.n; b.v[2] = x.s->donated(); ++g_depth;
  SpanAllocInfo info{.objects_per_span = x.o, .density = x.dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse};
#ifdef TCMALLOC_INTERNAL_LEGACY_LOCKING
  { PageHeapSpinLockHolder l; h->Delete(x.s, info); }
#else
  PageAllocatorInterface::AllocationState a{Range(x.s->first_page(), x.s->num_pages()), x.s->donated()};
  h->forwarder().DeleteSpan(x.s);
  { PageHeapSpinLockHolder l; h->Delete(a, info); }
#endif
  --g_depth;
  Ev& e = New(END, "del"); e.v[0] = x.p; e.v[1] = x.n;
  PageHeapSpinLockHolder l; Stats(e); long f = x.p / kPH, z = (x.p + x.n - 1) / kPH; Bits(e, f); if (z != f) Bits(e, z);
}
static long DoRelease(size_t n, bool breaking, PageReleaseReason reason) {   // the lock is held
  Ev& b = New(BEG, "rel"); b.v[0] = n; b.v[1] = 0; b.v[2] = 0; ++g_depth;
  long ret = (breaking ? h->ReleaseAtLeastNPagesBreakingHugepages(Length(n), reason) : h->ReleaseAtLeastNPages(Length(n), reason)).raw_num();
  --g_depth;
  Ev& e = New(END, "rel"); e.v[0] = n; e.v[1] = ret; e.v[2] = breaking; e.v[3] = (long)reason;
  e.v[4] = breaking || (g_zero && (g_subrel || g_tag == MemoryTag::kCold)); e.v[5] = breaking ? 0 : g_partial; Stats(e);
  e.ntr = 0; for (int i = 0; i < kHps; ++i) if (g_trk[i]) { if (e.ntr >= 300) { e.ntr = -1; break; } e.tr[e.ntr++] = i; }
  return ret;
}
static size_t Size() {
  size_t n;
  switch (g_profile) {
    case 0: n = g_r(4) ? 1 + g_r(40) : 1 + g_r(255); break;
    case 1: switch (g_r(5)) { case 0: n = 1 + g_r(128); break; case 1: n = 129 + g_r(127); break; case 2: n = (1 + g_r(3)) * 256; break; case 3: n = 257 + g_r(3) * 256; break; default: n = 129 + g_r(1000); } break;
    case 4: switch (g_r(4)) { case 0: n = 128 + g_r(3); break; case 1: n = 254 + g_r(4); break; case 2: n = 511 + g_r(3); break; default: n = 1 + g_r(300); } break;
    default: switch (g_r(6)) { case 0: n = 1 + g_r(128); break; case 1: n = 129 + g_r(126); break; case 2: n = 256 * (1 + g_r(2)); break; case 3: n = 1000 + g_r(4000); break; default: n = 257 + g_r(900); }
  }
  return n ? n : 1;
}
static void Any() {
  int a = g_r(10);
  if ((a < 5 && g_k < 300) || g_k == 0) { size_t n = Size(), al = g_r(6) ? 1 : size_t{1} << g_r(9); bool d = g_profile < 2 && g_r.chance(25); if (d) n = al = 1; DoNew(n, al, d); }
  else DoDel(g_r(3) ? g_r(g_k) : g_k - 1);
}
static void Nested() { for (int c = 1 + g_r(3); c > 0; --c) Any(); }

int main(int argc, char** argv) {
  long seed = atol(argv[1]), ops = atol(argv[2]); g_profile = atoi(argv[3]); int failpct = atoi(argv[4]);
  g_ev = (Ev*)calloc(kEv, sizeof(Ev));
  g_r = vt::Rng(seed); for (int i = 0; i < kSpans; ++i) g_free[g_nfree++] = g_pool[i];
  g_tag = (MemoryTag[]){MemoryTag::kNormalP0, MemoryTag::kCold, MemoryTag::kSampled}[g_r(3)];
  g_partial = g_r(2); g_adaptive = g_r(2); g_subrel = g_r(4) != 0; g_zero = g_r(4) != 0; g_back = g_r(3) != 0; g_thresh = g_r(2) ? 1 << 30 : (1 + g_r(300)) * kPageSize;
  g_sysfail = g_r(3) ? 0 : 5; g_limit = g_r(2) ? 0 : 15; g_nest = g_r(2) ? 0 : 40;
  alignas(64) static char mem[sizeof(H)];
  h = new (mem) H({.tag = g_tag, .use_huge_region_more_often = g_profile == 3 ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault});
  if (g_profile == 2 || g_profile == 3) { int l = g_limit, sf = g_sysfail; g_limit = g_sysfail = 0; for (int i = 0; i < 34; ++i) DoNew(257, 1, false); g_limit = l; g_sysfail = sf; }
  g_fail = failpct;
  long bias = 0;
  for (long i = 0; i < ops; ++i) {
    if (i % 25 == 0) bias = g_r(3);
    int a = g_r(20);
    if (a < 2) { PageHeapSpinLockHolder l; DoRelease(g_r(3) == 0 ? g_r(4) : g_r(4) ? g_r(600) : 1000000, g_r(4) == 0, (PageReleaseReason)g_r(4)); }
    else if (a == 2 && g_r(4) == 0) {
      Ev& b = New(BEG, "treat"); b.v[0] = 0; ++g_depth; h->TreatHugepageTrackers(EnableCollapse::kDisabled); --g_depth;
      Ev& e = New(END, "treat"); PageHeapSpinLockHolder l; Stats(e);
    } else if (bias == 1 && g_k > 3 && g_r(3)) DoDel(g_r(g_k));
    else Any();
  }
  g_nest = 0; g_limit = 0;
  if (seed % 3 == 0) { while (g_k) DoDel(g_r(g_k)); { PageHeapSpinLockHolder l; g_fail = 0; DoRelease(100000000, true, PageReleaseReason::kReleaseMemoryToSystem); } }
  vt::Trace t(argv[5]);
  for (long i = 0; i < g_n; ++i) {
    Ev& e = g_ev[i]; J j;
    std::vector<long> st(e.v + 7, e.v + 20);
    switch (e.k) {
      case BEG: j.kv("op", "beg").kv("k", e.what).kv("p", e.v[0]).kv("n", e.v[1]).kv("d", e.v[2] != 0); break;
      case SYS: j.kv("op", "sys").kv("a", e.v[0]).kv("m", e.v[1]).kv("ok", e.v[2] != 0); break;
      case TAKE: if (e.v[0] < 0) continue; j.kv("op", "take").kv("p", e.v[0]).kv("n", e.v[1]).kv("d", e.v[2] != 0); break;
      case UB: j.kv("op", "ub").kv("p", e.v[0]).kv("n", e.v[1]); break;
      case UBE: j.kv("op", "ube").kv("p", e.v[0]).kv("n", e.v[1]).kv("ok", e.v[2] != 0); break;
      case BK: j.kv("op", "bk").kv("p", e.v[0]).kv("n", e.v[1]); break;
      case END: {
        std::string w = e.what; j.kv("op", w); 
        if (w == "new") j.kv("p", e.v[0]).kv("n", e.v[1]).kv("want", e.v[2]).kv("al", e.v[3]).kv("d", e.v[4] != 0).kv("tag", e.v[5] % 2 == 1).kv("should", e.v[5] >= 2);
        else if (w == "del") j.kv("p", e.v[0]).kv("n", e.v[1]);
        else if (w == "rel") {
          j.kv("n", e.v[0]).kv("ret", e.v[1]).kv("brk", e.v[2] != 0).kv("why", e.v[3]).kv("full", e.v[4] != 0).kv("part", e.v[5] != 0);
          j.kv("trk", e.ntr >= 0); j.arr("tr", std::vector<short>(e.tr, e.tr + (e.ntr > 0 ? e.ntr : 0)));
        }
        j.kv("top", e.v[6] != 0).arr("st", st);
        std::vector<std::string> bm;
        for (int q = 0; q < e.nbm; ++q) {
          std::string s = "{\"h\":" + std::to_string(e.bm[q].h) + ",\"r\":["; bool first = true;
          auto bit = [&](int x) { return (e.bm[q].b[x / 64] >> (x % 64)) & 1; };
          for (int x = 0; x < kPH;) { if (!bit(x)) { ++x; continue; } int y = x; while (y < kPH && bit(y)) ++y; if (!first) s += ","; first = false; s += "[" + std::to_string(x) + "," + std::to_string(y - x) + "]"; x = y; }
          bm.push_back(s + "]}");
        }
        if (w != "rel" && w != "treat") j.raw("bm", vt::Arr(bm));
      }
    }
    t.put(j);
  }
}
