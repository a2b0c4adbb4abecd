// Conformance driver for HugePageFiller<PageTracker>.
//   filler <seed> <events> <failpct> <trace>
#include "tcmalloc/huge_page_filler.h"
#include "trace.h"
#include <map>
#include <memory>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static constexpr size_t kPH = kPagesPerHugePage.raw_num();
static const HugePage kBase{(uintptr_t{1} << 40) / kHugePageSize};
static vt::Rng* g_r;
static int g_fail;
static vt::Trace* g_t;
static double g_now = 1e9;
static int64_t Now() { return (int64_t)g_now; }
static double Freq() { return 1e6; }
static std::vector<std::string> g_ub;
static int Id(PageId p) { return (int)(HugePageContaining(p) - kBase).raw_num(); }
static int Off(PageId p) { return (int)(p - HugePageContaining(p).first_page()).raw_num(); }
static std::string Ub(Range r, bool ok) {
  return "[" + std::to_string(Id(r.p)) + "," + std::to_string(Off(r.p)) + "," + std::to_string(r.n.raw_num()) + "," + (ok ? "1" : "0") + "]";
}
struct Unback final : MemoryModifyFunction {
  MemoryModifyStatus operator()(Range r) override {
    bool ok = !g_r->chance(g_fail);
    g_ub.push_back(Ub(r, ok));
    return {.success = ok, .error_number = ok ? 0 : 12};
  }
};
struct World;
struct Collapse final : MemoryModifyFunction {
  World* w; MemoryModifyStatus operator()(Range r) override;
};
struct Namer final : MemoryTagFunction { void operator()(Range r, std::optional<absl::string_view>) override {
  if (Off(r.p) != 0 || r.n.raw_num() != kPH) abort(); } };
static std::string Runs(const PageBitmap& b, bool val) {
  std::vector<std::string> v;
  for (size_t i = 0; i < kPH;) {
    if (b.GetBit(i) != val) { ++i; continue; }
    size_t k = i; while (k < kPH && b.GetBit(k) == val) ++k;
    v.push_back("[" + std::to_string(i) + "," + std::to_string(k - i) + "]"); i = k;
  }
  return vt::Arr(v);
}
template <typename B> static std::string HwRuns(const B& b, size_t n) {
  std::vector<std::string> v;
  for (size_t i = 0; i < n;) {
    if (!b.GetBit(i)) { ++i; continue; }
    size_t k = i; while (k < n && b.GetBit(k)) ++k;
    v.push_back("[" + std::to_string(i) + "," + std::to_string(k - i) + "]"); i = k;
  }
  return vt::Arr(v);
}

struct Flags final : PageFlagsBase {
  World* w;
  std::optional<bool> IsHugepageBacked(const void*) override;
  std::optional<PageStats> Get(const void*, size_t) override { return std::nullopt; }
  PageFlagsBitmaps GetSinglePageBitmaps(const void*) override;
};
struct Resid final : Residency {
  World* w;
  std::optional<Info> Get(const void*, size_t) override { return std::nullopt; }
  size_t GetHardwarePagesInHugePage() const override { return kHugePageSize / 4096; }
  SinglePageBitmaps GetUnbackedAndSwappedBitmaps(const void*) override;
};


struct World {
  vt::Rng& r; vt::Trace& t; bool mode;
  Unback ub, ubw; Collapse col; Namer nm; Flags fl; Resid rs;
  std::unique_ptr<HugePageFiller<PageTracker>> f;
  std::map<int, std::unique_ptr<PageTracker>> tr;
  struct L { int h, a; size_t n, o; };
  std::vector<L> live;
  size_t maxhp;
  bool in_treat = false;
  int huge_pct = 30, sparse_pct = 50;
  World(vt::Rng& rr, vt::Trace& tt) : r(rr), t(tt), mode(rr(2)) {
    col.w = fl.w = rs.w = this;
    f = std::make_unique<HugePageFiller<PageTracker>>(Clock{.now = Now, .freq = Freq}, MemoryTag::kNormal, ub, ubw, col, nm,
                                                       mode ? SubreleaseUnbackedMode::kEnabled : SubreleaseUnbackedMode::kDisabled);
    maxhp = r(4) ? 3 + r(12) : 60 + r(40);
    t.put(J().kv("op", "new").kv("mode", mode));
  }
  ~World() { live.clear(); }
  void Obs(J& j, int h) {
    auto s = f->GetStats();
    auto row = [&](int d) {
      return vt::Nums(std::vector<size_t>{s.n_total[d].raw_num(), s.n_full[d].raw_num(), s.n_partial[d].raw_num(), s.n_partial_released[d].raw_num(),
                                          s.n_fully_released[d].raw_num(), s.n_released[d].raw_num()});
    };
    j.raw("st", vt::Arr(std::vector<std::string>{row(0), row(1), row(2)}));
    BackingStats b = f->stats();
    j.raw("k", vt::Nums(std::vector<size_t>{f->size().raw_num(), f->pages_allocated(AccessDensityPrediction::kSparse).raw_num(),
        f->pages_allocated(AccessDensityPrediction::kDense).raw_num(), f->free_pages().raw_num(), f->unmapped_pages().raw_num(),
        f->used_pages_in_released().raw_num(), f->used_pages_in_partial_released().raw_num(), f->previously_released_huge_pages().raw_num(),
        f->FreePagesInPartialAllocs().raw_num(), b.system_bytes / kPageSize, b.free_bytes / kPageSize, b.unmapped_bytes / kPageSize}));
    if (h >= 0 && tr.count(h)) {
      PageTracker& p = *tr[h];
      j.raw("pg", "{\"h\":" + std::to_string(h) + ",\"free\":" + Runs(p.allocated_pages_bitmap(), false) + ",\"rel\":" + Runs(p.released_by_page(), true) +
            ",\"nu\":" + std::to_string(p.used_pages().raw_num()) + ",\"nf\":" + std::to_string(p.free_pages().raw_num()) + ",\"nr\":" +
            std::to_string(p.released_pages().raw_num()) + ",\"na\":" + std::to_string(p.nallocs()) + ",\"lf\":" + std::to_string(p.longest_free_range().raw_num()) +
            ",\"o\":" + std::to_string(p.nobjects()) + ",\"don\":" + (p.donated() ? "true" : "false") + ",\"wr\":" + (p.was_released() ? "true" : "false") + "}");
    }
  }
  SpanAllocInfo Info(size_t o, bool dense) { return {.objects_per_span = o, .density = dense ? AccessDensityPrediction::kDense : AccessDensityPrediction::kSparse}; }
  size_t Size() {
    switch (r(8)) {
      case 0: case 1: case 2: return 1;
      case 3: return 2 + r(4);
      case 4: return kPH - 1 - r(3);
      case 5: return kPH / 2;
      default: return 1 + r(kPH - 1);
    }
  }
  void GetOrContribute(size_t n, bool dense, size_t o) {
    PageHeapSpinLockHolder l;
    auto res = f->TryGet(Length(n), Info(o, dense));
    J j; j.kv("op", "get").kv("n", n).kv("dense", dense).kv("o", o).kv("ok", res.pt != nullptr);
    int h = res.pt ? Id(res.page) : -1;
    j.kv("h", h).kv("a", res.pt ? Off(res.page) : 0).kv("rel", res.from_released).kv("same", !res.pt || (tr.count(h) && tr[h].get() == res.pt));
    Obs(j, h); t.put(j);
    if (res.pt) live.push_back({h, Off(res.page), n, o});
    else ContributeLocked(n, dense, false, o);
  }
  void ContributeLocked(size_t n, bool dense, bool don, size_t o) {
    if (tr.size() >= maxhp) return;
    int h; do h = r(200); while (tr.count(h));
    tr[h] = std::make_unique<PageTracker>(kBase + NHugePages(h), don, Now());
    PageTracker* p = tr[h].get();
    PageId pg = p->Get(Length(n), Info(o, dense)).page;
    f->Contribute(p, don, Info(o, dense));
    J j; j.kv("op", "contribute").kv("h", h).kv("a", Off(pg)).kv("n", n).kv("o", o).kv("dense", dense).kv("don", don); Obs(j, h); t.put(j);
    live.push_back({h, Off(pg), n, o});
  }
  void Donate() { PageHeapSpinLockHolder l; ContributeLocked(1 + r(kPH - 1), false, true, 1); }
  void Put(size_t k) {
    PageHeapSpinLockHolder l;
    L x = live[k]; live[k] = live.back(); live.pop_back();
    PageTracker* p = tr[x.h].get();
    g_ub.clear();
    PageTracker* ret = f->Put(p, Range(p->location().first_page() + Length(x.a), Length(x.n)), Info(x.o, p->HasDenseSpans()));
    if (ret && ret != p) abort();
    J j; j.kv("op", "put").kv("h", x.h).kv("a", x.a).kv("n", x.n).kv("o", x.o).kv("back", ret != nullptr).raw("ub", vt::Arr(g_ub));
    g_ub.clear();
    if (ret) tr.erase(x.h);
    Obs(j, x.h); t.put(j);
  }
  void Release() {
    PageHeapSpinLockHolder l;
    size_t desired = r(6) == 0 ? kPH * 1000 : r(3) == 0 ? 1 + r(5) : r(8) == 0 ? 0 : 1 + r(kPH * 2);
    SkipSubreleaseIntervals iv;
    if (r(4) == 0) { if (r(2)) iv.peak_interval = absl::Minutes(1 + r(5)); else { iv.short_interval = absl::Minutes(1); iv.long_interval = absl::Minutes(3); } }
    bool partial = r(3) == 0, hit = r(3) == 0;
    g_ub.clear();
    size_t n = f->ReleasePages(Length(desired), iv, partial, hit).raw_num();
    J j; j.kv("op", "release").kv("desired", desired).kv("skip", iv.SkipSubreleaseEnabled()).kv("partial", partial).kv("hit", hit).kv("r", n).raw("ub", vt::Arr(g_ub));
    g_ub.clear();
    Obs(j, -1); t.put(j);
  }
  void Treat() {
    PageHeapSpinLockHolder l;
    bool c = r(4) != 0, u = r(2), s = r(2);
    huge_pct = r(3) ? 20 : 60; sparse_pct = r(3) ? 40 : 90;
    t.put(J().kv("op", "tbegin").kv("collapse", c).kv("unf", u).kv("stale", s));
    auto st0 = f->GetHugePageTreatmentStats();
    g_ub.clear();
    in_treat = true;
    f->TreatHugepageTrackers(c ? EnableCollapse::kEnabled : EnableCollapse::kDisabled, u ? EnableUnfilteredCollapse::kEnabled : EnableUnfilteredCollapse::kDisabled,
                             s ? ReleaseStalePages::kEnabled : ReleaseStalePages::kDisabled, &fl, &rs);
    in_treat = false;
    auto st = f->GetHugePageTreatmentStats();
    std::vector<int> freed;
    while (PageTracker* p = f->FetchFullyFreedTracker()) {
      int h = Id(p->location().first_page());
      freed.push_back(h);
      if (tr[h].get() != p) abort();
      tr.erase(h);
    }
    J j; j.kv("op", "tend").raw("ub", vt::Arr(g_ub)).raw("freed", vt::Nums(freed)).kv("okc", st.collapse_succeeded - st0.collapse_succeeded)
        .kv("sw", st.treated_pages_subreleased).kv("unb", st.treated_pages_unbacked_subreleased).kv("stl", st.treated_pages_stale_subreleased)
        .kv("att", st.collapse_attempted - st0.collapse_attempted);
    Obs(j, -1); t.put(j);
  }
  void Spans() {
    SmallSpanStats small{}; LargeSpanStats large{};
    f->AddSpanStats(&small, &large);
    std::vector<std::string> v;
    for (size_t i = 0; i < kMaxPages.raw_num(); ++i)
      if (small.normal_length[i] || small.returned_length[i])
        v.push_back("[" + std::to_string(i) + "," + std::to_string(small.normal_length[i]) + "," + std::to_string(small.returned_length[i]) + "]");
    t.put(J().kv("op", "spans").kv("max", kMaxPages.raw_num()).raw("small", vt::Arr(v)).kv("large", large.spans)
              .kv("normal", large.normal_pages.raw_num()).kv("returned", large.returned_pages.raw_num()));
  }
  void Dump() {
    std::vector<int> seen; int dup = 0;
    { PageHeapSpinLockHolder l; f->ForEachHugePage([&](PageTracker& p) { int h = Id(p.location().first_page()); for (int x : seen) dup += x == h; seen.push_back(h); }); }
    t.put(J().kv("op", "list").raw("hs", vt::Nums(seen)).kv("dup", dup));
    for (auto& [h, p] : tr) { J j; j.kv("op", "look"); Obs(j, h); t.put(j); }
  }
  void Op() {
    int k = r(100);
    if (k < 55 && (live.size() < (size_t)target || r(3) == 0)) {
      bool dense = r(3) == 0;
      size_t n = dense ? 1 : Size();
      GetOrContribute(n, dense, dense ? 8 + r(100) : n == 1 ? 1 + r(64) : 1);
    } else if (k < 88) { if (!live.empty()) Put(r(3) ? r(live.size()) : live.size() - 1); }
    else if (k < 90) Donate();
    else if (k < 96) Release();
    else if (k < 97) Spans();
    else if (k < 99 && !in_treat) Treat();
    else if (!in_treat && r(4) == 0) Dump();
    g_now += r(5) == 0 ? 1e6 * r(200) : 1e4 * r(100);
  }
  void Drain(int h) { for (size_t i = 0; i < live.size();) if (live[i].h == h) Put(i); else ++i; }
  // empty one of the huge pages with both released and unreleased free pages
  void DrainPartly() {
    std::vector<int> c;
    for (auto& [h, p] : tr) if (p->released_pages() > Length(0) && p->released_pages() < p->free_pages() && !p->fully_freed()) c.push_back(h);
    if (!c.empty()) Drain(c[r(c.size())]);
  }
  int target = 60;
};
MemoryModifyStatus Collapse::operator()(Range r) {
  int h = Id(r.p);
  bool ok = !g_r->chance(30);
  if (Off(r.p) != 0 || r.n.raw_num() != kPH) abort();
  w->t.put(J().kv("op", "collapse").kv("h", h));
  int k = w->r(4);
  for (int i = 0; i < k; ++i) w->Op();
  // sometimes drain the huge page being collapsed
  if (w->r(3) == 0)
    w->Drain(h);
  if (w->r(3) == 0) w->DrainPartly();
  g_now += w->r(6) == 0 ? 40e3 : 1e3 * w->r(10);
  w->t.put(J().kv("op", "collapsed").kv("h", h).kv("ok", ok));
  static const int errs[] = {ENOMEM, EBUSY, EINVAL, EAGAIN, EINTR, 999};
  return {.success = ok, .error_number = ok ? 0 : errs[w->r(6)]};
}
std::optional<bool> Flags::IsHugepageBacked(const void* a) {
  int h = Id(PageIdContaining(a));
  if (w->r(30) == 0) w->DrainPartly();
  int k = w->r(10);
  std::optional<bool> res;
  if (k == 0) res = std::nullopt; else res = (int)w->r(100) < w->huge_pct;
  w->t.put(J().kv("op", "isbacked").kv("h", h).kv("v", !res.has_value() ? 2 : *res ? 1 : 0));
  return res;
}
PageFlagsBase::PageFlagsBitmaps Flags::GetSinglePageBitmaps(const void* a) {
  PageFlagsBitmaps b{}; size_t n = kHugePageSize / 4096;
  if (w->r(3) == 0) for (int i = 0, c = 1 + w->r(6); i < c; ++i) b.stale.SetRange(w->r(n), 1);
  b.status = absl::StatusCode::kOk;
  w->t.put(J().kv("op", "stale").kv("h", Id(PageIdContaining(a))).kv("any", !b.stale.IsZero()));
  return b;
}
Residency::SinglePageBitmaps Resid::GetUnbackedAndSwappedBitmaps(const void* a) {
  SinglePageBitmaps b{}; size_t n = kHugePageSize / 4096;
  int h = Id(PageIdContaining(a));
  if ((int)w->r(100) < w->sparse_pct) {
    int c = 1 + w->r(8);
    for (int i = 0; i < c; ++i) { size_t s = w->r(n), k = w->r(3) ? 1 + w->r(8) : 1 + w->r(n); k = std::min(k, n - s); b.unbacked.SetRange(s, k); }
  }
  if (w->r(4) == 0) for (int i = 0, c = w->r(5) ? 1 + w->r(4) : 200; i < c; ++i) b.swapped.SetRange(w->r(n), 1);
  b.status = absl::StatusCode::kOk;
  w->t.put(J().kv("op", "resid").kv("h", h).raw("unb", HwRuns(b.unbacked, n)).kv("nunb", b.unbacked.CountBits()).kv("nsw", b.swapped.CountBits()));
  return b;
}

int main(int argc, char** argv) {
  if (argc != 5) return 99;
  vt::Rng r(strtoull(argv[1], 0, 10));
  g_r = &r;
  long N = atol(argv[2]);
  g_fail = atoi(argv[3]);
  vt::Trace t(argv[4]);
  g_t = &t;
  t.put(J().kv("op", "dim").kv("PH", kPH).kv("HW", kHugePageSize / 4096));
  while (t.n < N) {
    World w(r, t);
    w.target = r(3) == 0 ? 400 : 20 + r(60);
    long end = t.n + 400 + r(1200);
    while (t.n < end) w.Op();
    while (!w.live.empty() && r(60)) w.Put(w.live.size() - 1);
    w.Spans(); w.Dump();
    // the filler asserts nothing at destruction about what it still holds
    w.f.release();
    for (auto& [h, p] : w.tr) p.release();
  }
  return 0;
}
