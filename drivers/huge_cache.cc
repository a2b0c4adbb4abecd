// Conformance driver for HugeCache (with its HugeAllocator).
//   huge_cache <seed> <events> <npages> <failpct> <nestpct> <trace>
// The unback function may fail, and may run other operations on the cache while a range is being
// unbacked (in production the page-heap lock is dropped there).
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/internal/metadata_allocator.h"
#include "tcmalloc/span.h"
#include "tcmalloc/stats.h"
#include "trace.h"
#include <functional>
#include <memory>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static constexpr size_t kBase = 2048;
static HugePage P(size_t i) { return HugePage{kBase + i}; }
static long long Idx(HugePage p) { return (long long)p.pn - (long long)kBase; }
static int64_t g_now = 1000;  // milliseconds
static Clock g_clock{.now = []() -> int64_t { return g_now; }, .freq = []() -> double { return 1000.0; }};

struct Meta final : MetadataAllocator {
  std::vector<void*> v;
  ~Meta() { for (void* p : v) free(p); }
  void* operator()(size_t n) override { void* p = malloc(n); v.push_back(p); return p; }
};
struct VM final : VirtualAllocator {
  vt::Rng& g; size_t N, next = 0; int calls = 0; size_t s = 0, m = 0;
  VM(vt::Rng& r, size_t n) : g(r), N(n) {}
  AddressRange operator()(size_t bytes, size_t) override {
    size_t n = bytes / kHugePageSize;
    if (g.chance(30)) n += 1 + g(3);
    size_t at = next + (g.chance(70) ? 0 : g(3));
    if (at + n > N) return {nullptr, 0};
    ++calls; s = at; m = n; next = at + n;
    return {P(s).start_addr(), n * kHugePageSize};
  }
};
struct Unback final : MemoryModifyFunction {
  std::function<bool(long long, size_t)> fn;
  MemoryModifyStatus operator()(Range r) override {
    HugePage hp = HugePageContaining(r.p);
    bool ok = fn(Idx(hp), (size_t)(r.n.raw_num() / kPagesPerHugePage.raw_num()));
    if (hp.first_page() != r.p || r.n.raw_num() % kPagesPerHugePage.raw_num()) { fprintf(stderr, "unaligned unback\n"); abort(); }
    return {.success = ok, .error_number = ok ? 0 : 12};
  }
};

struct World {
  vt::Rng& g; vt::Trace& t; size_t N;
  Meta meta; VM vm; Unback ub; HugeAllocator al; HugeCache hc;
  struct L { size_t a, n; bool rel; };
  std::vector<L> live;
  int depth = 0, failpct, nestpct, nextid = 0;
  std::vector<int> stack;
  World(vt::Rng& r, vt::Trace& tr, size_t n, int fp, int np, int secs)
      : g(r), t(tr), N(n), vm(r, n), al(vm, meta), hc(al, meta, ub, absl::Seconds(secs), g_clock), failpct(fp), nestpct(np) {
    ub.fn = [this](long long a, size_t n) {
      bool ok = !g.chance(failpct);
      J j; j.kv("op", "unback").kv("id", stack.empty() ? -1 : stack.back()).kv("a", a).kv("n", n).kv("ok", ok); Obs(j); t.put(j);
      if (depth < 3) while (g.chance(nestpct)) { ++depth; Step(); --depth; if (depth >= 2) break; }
      t.put(J().kv("op", "unback_done").kv("id", stack.empty() ? -1 : stack.back()));
      return ok;
    };
  }
  void Obs(J& j) {
    std::vector<std::string> v;
    long long start = -1;
    for (size_t i = 0; i <= N + 1; ++i) {
      bool c = i <= N && hc.Contains(P(i));
      if (c && start < 0) start = i;
      if (!c && start >= 0) { v.push_back("[" + std::to_string(start) + "," + std::to_string(i - start) + "]"); start = -1; }
    }
    LargeSpanStats large{}; SmallSpanStats small{};
    hc.AddSpanStats(&small, &large);
    BackingStats b = hc.stats();
    j.raw("list", vt::Arr(v)).kv("size", hc.size().raw_num()).kv("limit", hc.limit().raw_num()).kv("usage", hc.usage().raw_num())
     .kv("spans", large.spans).kv("normal", large.normal_pages.in_bytes() / kHugePageSize).kv("returned", large.returned_pages.in_bytes() / kHugePageSize)
     .kv("sysb", b.system_bytes / kHugePageSize).kv("freeb", b.free_bytes / kHugePageSize).kv("unmb", b.unmapped_bytes / kHugePageSize)
     .kv("alfree", al.size().raw_num()).kv("alsys", al.system().raw_num());
  }
  static double Field(const std::string& s, const char* k, size_t from = 0) {
    size_t p = s.find(std::string(k) + ":", from);
    return p == std::string::npos ? -1 : atof(s.c_str() + p + strlen(k) + 1);
  }
  void Stats() {
    std::vector<char> buf(1 << 20);
    Printer out(buf.data(), buf.size());
    { PbtxtRegion r(out, PbtxtRegionType::kTop); hc.PrintInPbtxt(r); }
    std::string s(buf.data());
    size_t u = s.find("huge_cache_usage_stats"), c = s.find("huge_cache_cache_stats");
    auto hp = [](double v) { return (long long)(v / kHugePageSize); };
    std::vector<char> buf2(1 << 20);
    Printer out2(buf2.data(), buf2.size());
    hc.Print(out2);
    unsigned long long ts = 0, tl = 0; double hr = -1, orr = -1; unsigned long long fu = 0, pu = 0, un = 0, uc = 0, ux = 0;
    const char* q = strstr(buf2.data(), "overflow rate)");
    const char* line = q; while (line && line > buf2.data() && line[-1] != '\n') --line;
    if (line) sscanf(line, "HugeCache: %llu / %llu hugepages cached / cache limit (%lf hit rate, %lf overflow rate)", &ts, &tl, &hr, &orr);
    q = strstr(buf2.data(), "MiB fast unbacked");
    line = q; while (line && line > buf2.data() && line[-1] != '\n') --line;
    if (line) sscanf(line, "HugeCache: %llu MiB fast unbacked, %llu MiB periodic", &fu, &pu);
    q = strstr(buf2.data(), "recent usage range:");
    if (q) sscanf(q, "recent usage range: %llu min - %llu curr - %llu max MiB", &un, &uc, &ux);
    J j; j.kv("op", "stats").kv("cached", hp(Field(s, "cached_huge_page_bytes"))).kv("maxc", hp(Field(s, "max_cached_huge_page_bytes")))
     .kv("hit", (long long)(Field(s, "huge_cache_hit_rate") * 10000 + 0.5)).kv("over", (long long)(Field(s, "huge_cache_overflow_rate") * 10000 + 0.5))
     .kv("fast", hp(Field(s, "fast_unbacked_bytes"))).kv("periodic", hp(Field(s, "periodic_unbacked_bytes")))
     .kv("umin", hp(Field(s, "min_bytes", u))).kv("ucur", hp(Field(s, "current_bytes", u))).kv("umax", hp(Field(s, "max_bytes", u)))
     .kv("cmin", hp(Field(s, "min_bytes", c))).kv("ccur", hp(Field(s, "current_bytes", c))).kv("cmax", hp(Field(s, "max_bytes", c)))
     .kv("t_size", ts).kv("t_limit", tl).kv("t_hit", (long long)(hr * 10000 + 0.5)).kv("t_over", (long long)(orr * 10000 + 0.5))
     .kv("t_fast", fu).kv("t_per", pu).kv("t_umin", un).kv("t_ucur", uc).kv("t_umax", ux).kv("mib", kHugePageSize >> 20);
    Obs(j); t.put(j);
  }
  int maxn = 6, bias = 50, big = 5;
  void Step() {
    int k = g(100);
    if (k < 12) g_now += g.chance(60) ? g(200) : g.chance(60) ? g(3000) : g(20000);
    if (k < 88) {
      if (live.empty() || g.chance(bias)) {
        size_t n = g.chance(big) ? 1 + g(maxn * 5) : 1 + g(maxn);
        bool rel = g.chance(50), poison = rel; int before = vm.calls;
        HugeRange r = hc.Get(NHugePages(n), &rel);
        bool ok = r.valid();
        J j; j.kv("op", "get").kv("n", n).kv("ok", ok).kv("a", ok ? Idx(r.start()) : -1).kv("rn", r.len().raw_num()).kv("rel", ok ? rel : false)
         .kv("sysreq", vm.calls - before).kv("s", vm.calls > before ? (long long)vm.s : -1).kv("m", vm.calls > before ? (long long)vm.m : 0);
        (void)poison;
        Obs(j); t.put(j);
        if (ok) live.push_back({(size_t)Idx(r.start()), n, rel});
      } else {
        size_t i = g(live.size());
        if (g.chance(15)) {                       // release a part of a range
          L& x = live[i]; size_t n = 1 + g(x.n); L y{x.a, n, x.rel}; 
          if (n < x.n) { x.a += n; x.n -= n; } else live.erase(live.begin() + i);
          Release(y);
        } else { L y = live[i]; live.erase(live.begin() + i); Release(y); }
      }
    } else if (k < 96) {
      int id = nextid++; size_t n = g.chance(30) ? g(60) : g(8);
      t.put(J().kv("op", "rcp").kv("id", id).kv("n", n)); stack.push_back(id);
      size_t r = hc.ReleaseCachedPages(NHugePages(n)).raw_num();
      stack.pop_back();
      J j; j.kv("op", "rcp_end").kv("id", id).kv("r", r); Obs(j); t.put(j);
    } else if (depth == 0) Stats();
  }
  void Release(L y) {
    if (g.chance(12)) {
      hc.ReleaseUnbacked(HugeRange::Make(P(y.a), NHugePages(y.n)));
      J j; j.kv("op", "relun").kv("a", y.a).kv("n", y.n); Obs(j); t.put(j);
      return;
    }
    int id = nextid++;
    t.put(J().kv("op", "rel").kv("id", id).kv("a", y.a).kv("n", y.n)); stack.push_back(id);
    hc.Release(HugeRange::Make(P(y.a), NHugePages(y.n)));
    stack.pop_back();
    J j; j.kv("op", "rel_end").kv("id", id); Obs(j); t.put(j);
  }
};

int main(int argc, char** argv) {
  if (argc < 7) return 99;
  vt::Rng g(atoll(argv[1]));
  long events = atol(argv[2]); size_t N = atol(argv[3]); int fp = atoi(argv[4]), np = atoi(argv[5]);
  vt::Trace t(argv[6]);
  while (t.n < events) {
    t.put(J().kv("op", "reset"));
    std::unique_ptr<World> w(new World(g, t, N, fp, np, 1 + g(3)));
    long len = t.n + 100 + g(600);
    while (t.n < len && t.n < events) {
      if (g.chance(4)) { w->bias = 15 + g(75); w->maxn = 1 + g(8); w->big = g(20); }
      w->Step();
    }
  }
  return 0;
}
