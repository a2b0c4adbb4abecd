// Conformance driver for HugeRegion and HugeRegionSet.
//   huge_region <seed> <events> <failpct> <trace>
#include "tcmalloc/huge_region.h"
#include "trace.h"
#include <map>
#include <memory>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static constexpr size_t kPH = kPagesPerHugePage.raw_num(), kNH = HugeRegion::size().raw_num();
static std::vector<HugePage> g_base;
static std::vector<std::string> g_ub;
static vt::Rng* g_r;
static int g_fail;
static int RegionOf(HugePage p) {
  for (size_t i = 0; i < g_base.size(); ++i) if (p >= g_base[i] && p < g_base[i] + HugeRegion::size()) return i;
  return -1;
}
struct Unback final : MemoryModifyFunction {
  MemoryModifyStatus operator()(Range r) override {
    HugePage hp = HugePageContaining(r.p);
    if (hp.first_page() != r.p || r.n.raw_num() % kPH) { fprintf(stderr, "unaligned unback\n"); abort(); }
    int g = RegionOf(hp);
    bool ok = !g_r->chance(g_fail);
    g_ub.push_back("{\"g\":" + std::to_string(g) + ",\"h\":" + std::to_string(g < 0 ? -1 : (long)(hp - g_base[g]).raw_num()) + ",\"n\":" +
                   std::to_string(r.n.raw_num() / kPH) + ",\"ok\":" + (ok ? "true" : "false") + "}");
    return {.success = ok, .error_number = ok ? 0 : 12};
  }
};
struct Namer final : MemoryTagFunction { void operator()(Range, std::optional<absl::string_view>) override {} };

static double Field(const std::string& s, const char* k, size_t from = 0) {
  size_t p = s.find(std::string(k) + ":", from);
  return p == std::string::npos ? -1 : atof(s.c_str() + p + strlen(k) + 1);
}

struct World {
  vt::Rng& r; vt::Trace& t; bool more;
  Unback ub; Namer nm;
  HugeRegionSet<HugeRegion> set;
  std::vector<std::unique_ptr<HugeRegion>> regs;
  struct L { int g; size_t a, n; };
  std::vector<L> live;
  World(vt::Rng& rr, vt::Trace& tt, bool m)
      : r(rr), t(tt), more(m), set(m ? HugeRegionUsageOption::kUseForAllLargeAllocs : HugeRegionUsageOption::kDefault) {
    g_base.clear();
    t.put(J().kv("op", "new").kv("more", more));
  }
  void Obs(J& j) {
    std::vector<std::string> v;
    for (auto& x : regs)
      v.push_back(vt::Nums(std::vector<size_t>{x->used_pages().raw_num(), x->free_pages().raw_num(), x->unmapped_pages().raw_num(),
                                               x->backed().raw_num(), x->free_backed().raw_num()}));
    BackingStats b = set.stats();
    j.raw("regs", vt::Arr(v)).kv("sys", b.system_bytes / kPageSize).kv("free", b.free_bytes / kPageSize).kv("unm", b.unmapped_bytes / kPageSize)
        .kv("fb", set.free_backed().raw_num()).kv("nr", set.ActiveRegions());
  }
  void Contribute() {
    // scattered regions, not in address order
    HugePage base = HugePageContaining(reinterpret_cast<void*>((uintptr_t)MemoryTag::kNormal << kTagShift)) +
                    NHugePages(kNH * (regs.size() * 37 % 11 * 2 + 4));
    g_base.push_back(base);
    regs.push_back(std::make_unique<HugeRegion>(HugeRange(base, HugeRegion::size()), ub, nm));
    set.Contribute(regs.back().get());
    J j; j.kv("op", "contribute").kv("g", regs.size() - 1); Obs(j); t.put(j);
  }
  size_t Size(int big) {
    switch (r(8)) {
      case 0: return 1;
      case 1: return 1 + r(kPH);
      case 2: return kPH;
      case 3: return kPH * (1 + r(5));
      case 4: return kPH + 1;
      case 5: return kPH * (1 + r(big)) + r(kPH);
      default: return kPH / 2 + r(kPH * 3);
    }
  }
  void Get(size_t n) {
    PageId p; bool rel = false;
    g_ub.clear();
    bool ok = set.MaybeGet(Length(n), &p, &rel);
    J j; j.kv("op", "get").kv("n", n).kv("ok", ok);
    int g = ok ? RegionOf(HugePageContaining(p)) : -1;
    size_t a = g >= 0 ? (p - g_base[g].first_page()).raw_num() : 0;
    j.kv("g", g).kv("a", a).kv("rel", rel).kv("nub", g_ub.size());
    if (ok) live.push_back({g, a, n});
    Obs(j); t.put(j);
  }
  void Put(size_t k) {
    L x = live[k]; live[k] = live.back(); live.pop_back();
    g_ub.clear();
    bool ok = x.g < 0 || set.MaybePut(Range{g_base[x.g].first_page() + Length(x.a), Length(x.n)});
    J j; j.kv("op", "put").kv("g", x.g).kv("a", x.a).kv("n", x.n).kv("ok", ok).raw("ub", vt::Arr(g_ub)); Obs(j); t.put(j);
  }
  void PutElsewhere() {
    g_ub.clear();
    PageId p = HugePageContaining(reinterpret_cast<void*>((uintptr_t)MemoryTag::kNormal << kTagShift)).first_page() + Length(r(kPH * 100));
    if (!g_base.empty() && r(2)) p = (g_base[r(g_base.size())] + HugeRegion::size()).first_page();
    bool ok = set.MaybePut(Range{p, Length(1)});
    J j; j.kv("op", "putx").kv("ok", ok); Obs(j); t.put(j);
  }
  void Release() {
    bool adaptive = r(2), hit = r(2);
    size_t desired = r(5) == 0 ? r(3) : r(4) == 0 ? kPH * 10000 : 1 + r(kPH * 12);
    g_ub.clear();
    size_t n = set.ReleasePages(Length(desired), adaptive, hit).raw_num();
    J j; j.kv("op", "release").kv("desired", desired).kv("adaptive", adaptive).kv("hit", hit).kv("r", n).raw("ub", vt::Arr(g_ub)); Obs(j); t.put(j);
  }
  void Spans() {
    SmallSpanStats small{}; LargeSpanStats large{};
    set.AddSpanStats(&small, &large);
    std::vector<std::string> v;
    for (size_t i = 0; i < kMaxPages.raw_num(); ++i)
      if (small.normal_length[i] || small.returned_length[i])
        v.push_back("[" + std::to_string(i) + "," + std::to_string(small.normal_length[i]) + "," + std::to_string(small.returned_length[i]) + "]");
    t.put(J().kv("op", "spans").kv("max", kMaxPages.raw_num()).raw("small", vt::Arr(v)).kv("large", large.spans)
              .kv("normal", large.normal_pages.raw_num()).kv("returned", large.returned_pages.raw_num()));
  }
  void Status() {
    if (regs.empty()) return;
    int g = r(regs.size()); int h = r(5) == 0 ? (r(2) ? -1 : (int)kNH) : r(3) ? r(kNH) : r(20);
    PageBitmap b;
    HugePage hp{g_base[g].pn + h};
    bool ok = regs[g]->GetPageAllocationStatus(hp, b);
    std::vector<std::string> v;
    if (ok) for (size_t i = 0; i < kPH;) {
      if (!b.GetBit(i)) { ++i; continue; }
      size_t k = i; while (k < kPH && b.GetBit(k)) ++k;
      v.push_back("[" + std::to_string(h * kPH + i) + "," + std::to_string(k - i) + "]"); i = k;
    }
    t.put(J().kv("op", "status").kv("g", g).kv("h", h).kv("ok", ok).raw("set", vt::Arr(v)));
  }
  void Print() {
    std::vector<char> buf(1 << 20), buf2(1 << 20);
    Printer out(buf.data(), buf.size());
    { PbtxtRegion q(out, PbtxtRegionType::kTop); set.PrintInPbtxt(q); }
    std::string s(buf.data());
    std::vector<std::string> v;
    for (size_t p = s.find("huge_region_details"); p != std::string::npos; p = s.find("huge_region_details", p + 5))
      v.push_back(vt::Nums(std::vector<long>{(long)(Field(s, "used_bytes", p) / kPageSize), (long)(Field(s, "free_bytes", p) / kPageSize),
                           (long)(Field(s, "longest_free_range_bytes", p) / kPageSize), (long)(Field(s, "unbacked_bytes", p) / kHugePageSize),
                           (long)(Field(s, "total_unbacked_bytes", p) / kHugePageSize), (long)(Field(s, "backed_fully_free_bytes", p) / kHugePageSize)}));
    Printer out2(buf2.data(), buf2.size());
    set.Print(out2);
    unsigned long long nreg = 0, b = 0, fb = 0, lw = 0, all = 0, pf = 0;
    const char* q = strstr(buf2.data(), "MiB slabs\n");
    if (q) sscanf(q, "MiB slabs\nHugeRegionSet: %llu total regions", &nreg);
    q = strstr(buf2.data(), "hugepages backed,");
    while (q && q > buf2.data() && q[-1] != '\n') --q;
    if (q) sscanf(q, "HugeRegionSet: %llu hugepages backed, %llu backed and free, %llu low water mark free backed, out of %llu total\nHugeRegionSet: %llu pages free", &b, &fb, &lw, &all, &pf);
    t.put(J().kv("op", "print").kv("low", (long)(Field(s, "huge_region_low_water_mark_bytes") / kHugePageSize)).raw("regs", vt::Arr(v))
              .kv("t_n", nreg).kv("t_b", b).kv("t_fb", fb).kv("t_low", lw).kv("t_all", all).kv("t_free", pf));
  }
};

int main(int argc, char** argv) {
  if (argc != 5) return 99;
  vt::Rng r(strtoull(argv[1], 0, 10));
  g_r = &r;
  long N = atol(argv[2]);
  g_fail = atoi(argv[3]);
  vt::Trace t(argv[4]);
  t.put(J().kv("op", "dim").kv("NH", kNH).kv("PH", kPH));
  while (t.n < N) {
    World w(r, t, r(2));
    int maxreg = 1 + r(4), big = r(3) ? 20 : 150, target = r(3) == 0 ? 300 : 40;
    long end = t.n + 300 + r(800);
    bool fill = false;
    while (t.n < end) {
      if ((int)w.regs.size() < maxreg && r(40) == 0) { w.Contribute(); continue; }
      int k = r(100);
      if (r(200) == 0) fill = !fill;
      if (k < 74) {
        bool grow = fill ? r(10) < 7 : (int)w.live.size() < (int)r(2 * target);
        if (grow || w.live.empty()) w.Get(fill && r(2) ? kPH * (1 + r(100)) : w.Size(big));
        else w.Put(r(3) ? r(w.live.size()) : w.live.size() - 1);
      } else if (k < 86) w.Release();
      else if (k < 88) w.PutElsewhere();
      else if (k < 91) w.Spans();
      else if (k < 97) w.Status();
      else w.Print();
    }
    while (!w.live.empty() && r(2)) w.Put(w.live.size() - 1);
  }
  return 0;
}
