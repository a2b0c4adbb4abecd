// Conformance driver for the enumeration of allocated spans (whole allocator).
//   spans <seed> <steps> <trace>
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/malloc_tracing_extension.h"
#include "tcmalloc/pages.h"
#include "trace.h"
#include <algorithm>
#include <map>
using namespace tcmalloc;
using vt::J;
static constexpr uintptr_t kPS = tcmalloc_internal::kPageSize;
struct B { char* p; size_t n; bool live; };
#include <unistd.h>
int main(int argc, char** argv) {
  vt::Rng g(atoll(argv[1])); long n = atol(argv[2]); vt::Trace t(argv[3]);
  MallocExtension::SetProfileSamplingInterval(argc > 4 ? atoll(argv[4]) : 0);
  const int ncpu = sysconf(_SC_NPROCESSORS_CONF);
  std::vector<B> v(3000); size_t k = 0;
  std::map<uintptr_t, int> reg;   // gigabytes seen, numbered on the fly
  auto key = [&](uintptr_t a) { return (uintptr_t)a / kPS; };
  t.put(J().kv("op", "params").kv("ps", kPS));
  for (long i = 0; i < n; ++i) {
    int act = g(10), mode = g(4);
    auto size = [&]() -> size_t { switch (g.chance(70) ? mode : g(4)) { case 0: return 1 + g(2000); case 1: return 2000 + g(60000); case 2: return 60000 + g(300000); default: return 262145 + g(g.chance(80) ? 2000000 : 20000000); } };
    size_t live = 0, held = k; for (size_t q = 0; q < k; ++q) live += v[q].n;
    if (i == 0) {}   // the first enumeration shows what the runtime holds already
    else if (act < 5 && live < (400u << 20)) for (int c = g(150); c > 0 && k < v.size(); --c) { size_t s = size(); char* p = (char*)malloc(s); v[k++] = {p, s, true}; }
    else if (act < 9) { int pct = g.chance(30) ? 100 : (int)g(90); size_t w = 0; for (size_t q = 0; q < k; ++q) if (g.chance(pct)) free(v[q].p); else v[w++] = v[q]; k = w; }
    else { for (int c = 0; c < ncpu; ++c) MallocExtension::ReleaseCpuMemory(c); if (g.chance(50)) MallocExtension::ReleaseMemoryToSystem(g(1 << 28)); }
    if (i > 0 && g.chance(50)) for (int c = 0; c < ncpu; ++c) MallocExtension::ReleaseCpuMemory(c);
    auto r = malloc_tracing_extension::GetAllocatedAddressRanges();
    // nothing is allocated between the enumeration and the counters
    auto heap = MallocExtension::GetNumericProperty("generic.heap_size"), fr = MallocExtension::GetNumericProperty("tcmalloc.pageheap_free_bytes");
    if (!r.ok()) { t.put(J().kv("op", "fail")); continue; }
    held = k;
    if (k < v.size()) v[k++] = {(char*)r->spans.data(), r->spans.capacity() * sizeof(r->spans[0]), false};   // the report is a block as well
    std::sort(r->spans.begin(), r->spans.end(), [](auto& a, auto& b) { return a.start_addr < b.start_addr; });
    // compress page numbers: gaps between spans and blocks become one page
    std::vector<uintptr_t> pts; for (auto& s : r->spans) { pts.push_back(key(s.start_addr)); pts.push_back(key(s.start_addr) + s.size / kPS); }
    for (size_t q = 0; q < k; ++q) { pts.push_back(key((uintptr_t)v[q].p)); }
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    std::map<uintptr_t, long> at; long pos = 0; uintptr_t last = 0; for (auto x : pts) { pos += std::min<uintptr_t>(x - last, 20000); at[x] = pos; last = x; }
    std::vector<std::string> sp, bl; bool al = true;
    for (auto& s : r->spans) { al = al && s.start_addr % kPS == 0 && s.size % kPS == 0; sp.push_back(J().kv("s", at[key(s.start_addr)]).kv("n", s.size / kPS).kv("o", s.object_size).str()); }
    // the candidate span is a hint that the specification checks
    auto find = [&](uintptr_t x) -> long { auto it = std::upper_bound(r->spans.begin(), r->spans.end(), x * kPS, [](uintptr_t a, auto& b) { return a < b.start_addr; }); return it - r->spans.begin(); };
    for (size_t q = 0; q < k; ++q) bl.push_back(J().kv("p", at[key((uintptr_t)v[q].p)]).kv("f", (uintptr_t)v[q].p % kPS).kv("n", v[q].n).kv("k", find(key((uintptr_t)v[q].p))).kv("u", MallocExtension::GetAllocatedSize(v[q].p).value_or(0)).str());
    t.put(J().kv("op", i == 0 ? "base" : "spans").kv("aligned", al).raw("spans", vt::Arr(sp)).raw("blocks", vt::Arr(bl)).kv("pages", (*heap - *fr) / kPS).kv("rest", (*heap - *fr) % kPS));
    k = held;
  }
}
