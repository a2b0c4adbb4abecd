// Conformance driver for HugeAddressMap and HugeAllocator.
//   hugemap map  <seed> <events> <npages> <trace>
//   hugemap alloc <seed> <events> <npages> <trace>
//   hugemap script <file> <trace>     (commands: reset | insert a n | remove a)
#include "tcmalloc/huge_address_map.h"
#include "tcmalloc/huge_allocator.h"
#include "tcmalloc/huge_pages.h"
#include "tcmalloc/internal/metadata_allocator.h"
#include "tcmalloc/span.h"
#include "tcmalloc/stats.h"
#include "trace.h"
#include <memory>
#include <set>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static constexpr size_t kBase = 1024;  // huge page number of page 0 of the trace
static HugePage P(size_t i) { return HugePage{kBase + i}; }
static long long Idx(HugePage p) { return (long long)p.pn - (long long)kBase; }

struct Meta final : MetadataAllocator {
  std::vector<void*> v;
  ~Meta() { for (void* p : v) free(p); }
  void* operator()(size_t n) override { void* p = malloc(n); v.push_back(p); return p; }
};

static std::string Tree(HugeAddressMap::Node* n) {
  if (!n) return "[]";
  return "[" + std::to_string(Idx(n->range().start())) + "," + std::to_string(n->range().len().raw_num()) + "," +
         std::to_string(n->longest().raw_num()) + "," + Tree(n->left()) + "," + Tree(n->right()) + "]";
}
static void ObsMap(J& j, HugeAddressMap& m) {
  std::vector<std::string> v;
  size_t guard = 0;
  for (auto* n = m.first(); n && guard < 100000; n = n->next(), ++guard)
    v.push_back("[" + std::to_string(Idx(n->range().start())) + "," + std::to_string(n->range().len().raw_num()) + "]");
  j.raw("list", vt::Arr(v)).kv("total", m.total_mapped().raw_num()).kv("nranges", m.nranges()).raw("tree", Tree(m.root()));
}

static void RunMap(vt::Rng& g, long events, size_t N, vt::Trace& t) {
  while (t.n < events) {
    Meta meta;
    HugeAddressMap m(meta);
    std::vector<char> in(N, 0);
    t.put(J().kv("op", "reset"));
    long len = 20 + g(400);
    int bias = 20 + g(70);
    size_t maxlen = g.chance(50) ? 2 : 1 + g(8);
    for (long k = 0; k < len && t.n < events; ++k) {
      if (g.chance(bias)) {
        size_t a = g(N), n = 1 + g(maxlen);
        bool ok = a + n <= N;
        for (size_t i = a; ok && i < a + n; ++i) ok = !in[i];
        if (!ok) continue;
        for (size_t i = a; i < a + n; ++i) in[i] = 1;
        m.Insert(HugeRange::Make(P(a), NHugePages(n)));
        J j; j.kv("op", "insert").kv("a", a).kv("n", n); ObsMap(j, m); t.put(j);
      } else if (g.chance(30)) {
        size_t p = g(N);
        auto* n = m.Predecessor(P(p));
        t.put(J().kv("op", "pred").kv("p", p).kv("ra", n ? Idx(n->range().start()) : -1).kv("rn", n ? n->range().len().raw_num() : 0));
      } else {
        std::vector<HugeAddressMap::Node*> nodes;
        for (auto* n = m.first(); n; n = n->next()) nodes.push_back(n);
        if (nodes.empty()) continue;
        auto* n = nodes[g(nodes.size())];
        long long a = Idx(n->range().start()); size_t c = n->range().len().raw_num();
        for (size_t i = a; i < a + c && i < N; ++i) in[i] = 0;
        m.Remove(n);
        J j; j.kv("op", "remove").kv("a", a).kv("n", c); ObsMap(j, m); t.put(j);
      }
    }
  }
}

static void RunScript(const char* file, vt::Trace& t) {
  std::unique_ptr<Meta> meta; std::unique_ptr<HugeAddressMap> m;
  for (auto& w : vt::ReadScript(file)) {
    if (w[0] == "reset") { m.reset(); meta.reset(new Meta); m.reset(new HugeAddressMap(*meta)); t.put(J().kv("op", "reset")); continue; }
    size_t a = atol(w[1].c_str());
    if (w[0] == "insert") {
      size_t n = atol(w[2].c_str());
      m->Insert(HugeRange::Make(P(a), NHugePages(n)));
      J j; j.kv("op", "insert").kv("a", a).kv("n", n); ObsMap(j, *m); t.put(j);
    } else {
      HugeAddressMap::Node* n = m->Predecessor(P(a));
      long long s = n ? Idx(n->range().start()) : -1; size_t c = n ? n->range().len().raw_num() : 0;
      if (n) m->Remove(n);
      J j; j.kv("op", "remove").kv("a", s).kv("n", c); ObsMap(j, *m); t.put(j);
    }
  }
}

struct VM final : VirtualAllocator {
  vt::Rng& g; size_t N, next = 0; int calls = 0; size_t s = 0, m = 0; bool fail = false;
  size_t down;
  VM(vt::Rng& r, size_t n) : g(r), N(n), down(n) {}
  AddressRange operator()(size_t bytes, size_t align) override {
    ++calls;
    size_t n = bytes / kHugePageSize;
    if (bytes % kHugePageSize || align % kHugePageSize) { fprintf(stderr, "bad request\n"); abort(); }
    if (fail) return {nullptr, 0};
    if (g.chance(30)) n += 1 + g(3);
    // grow upward or downward, adjacent or with a gap
    if (g.chance(50)) {
      size_t at = next + (g.chance(50) ? 0 : g(3));
      if (at + n > down) return {nullptr, 0};
      s = at; next = at + n;
    } else {
      size_t gap = g.chance(50) ? 0 : g(3);
      if (next + n + gap > down) return {nullptr, 0};
      s = down - gap - n; down = s;
    }
    m = n;
    return {P(s).start_addr(), n * kHugePageSize};
  }
};

static void ObsAlloc(J& j, HugeAllocator& a) {
  SmallSpanStats small{}; LargeSpanStats large{};
  a.AddSpanStats(&small, &large);
  BackingStats b = a.stats();
  j.kv("free", a.size().raw_num()).kv("sys", a.system().raw_num()).kv("spans", large.spans)
   .kv("ret", large.returned_pages.in_bytes() / kHugePageSize)
   .kv("unmapped", b.unmapped_bytes / kHugePageSize).kv("sysb", b.system_bytes / kHugePageSize);
}

static void RunAlloc(vt::Rng& g, long events, size_t N, vt::Trace& t) {
  while (t.n < events) {
    Meta meta; VM vm(g, N);
    HugeAllocator al(vm, meta);
    t.put(J().kv("op", "reset"));
    std::vector<std::pair<size_t, size_t>> live;
    long len = 20 + g(400); int bias = 35 + g(30); size_t maxn = 1 + g(12);
    for (long k = 0; k < len && t.n < events; ++k) {
      if (g.chance(10)) {
        size_t p = g(N);
        t.put(J().kv("op", "contains").kv("p", p).kv("r", al.Contains(P(p))));
      } else if (g.chance(bias) || live.empty()) {
        size_t n = 1 + g(maxn);
        vm.calls = 0; vm.fail = g.chance(5); vm.s = vm.m = 0;
        HugeRange r = al.Get(NHugePages(n));
        J j; j.kv("op", "get").kv("n", n).kv("ok", r.valid()).kv("sysreq", vm.calls).kv("s", vm.s).kv("m", vm.m)
              .kv("a", r.valid() ? Idx(r.start()) : -1).kv("rn", r.valid() ? r.len().raw_num() : n);
        ObsAlloc(j, al); t.put(j);
        if (r.valid()) live.push_back({(size_t)Idx(r.start()), r.len().raw_num()});
      } else {
        size_t i = g(live.size());
        auto [a, n] = live[i];
        size_t off = 0, c = n;
        if (n > 1 && g.chance(40)) { off = g(n); c = 1 + g(n - off); }
        live.erase(live.begin() + i);
        if (off) live.push_back({a, off});
        if (off + c < n) live.push_back({a + off + c, n - off - c});
        al.Release(HugeRange::Make(P(a + off), NHugePages(c)));
        J j; j.kv("op", "release").kv("a", a + off).kv("n", c); ObsAlloc(j, al); t.put(j);
      }
    }
  }
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  if (mode == "script") { vt::Trace t(argv[3]); RunScript(argv[2], t); return 0; }
  vt::Rng g(atoll(argv[2])); long events = atol(argv[3]); size_t N = atol(argv[4]);
  vt::Trace t(argv[5]);
  if (mode == "map") RunMap(g, events, N, t); else RunAlloc(g, events, N, t);
  return 0;
}
