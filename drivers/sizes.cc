// Conformance driver for size classes.
//   sizes table <seed> <mutations> <trace>    size tables, tables built from mutated descriptions, the full size/alignment map
//   sizes api <seed> <ops> <trace>            the running allocator: predicted, returned and reported sizes; frees with any size of the class
#include <malloc.h>
#include <algorithm>
#include <new>
#include "tcmalloc/alloc_at_least.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/sizemap.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/tcmalloc_policy.h"
#include "trace.h"
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static void Params(vt::Trace& t, const char* mode) {
  t.put(J().kv("op", "params").kv("page", kPageSize).kv("max", kMaxSize).kv("nb", kNumBaseClasses).kv("nc", kNumClasses)
        .kv("parts", (long)(kNumClasses / kNumBaseClasses)).kv("xstart", kHasExpandedClasses ? (long)kExpandedClassesStart : -1L).kv("sparts", kSecurityPartitions)
        .kv("mode", (int)Parameters::heap_partitioning_mode()).kv("hugepages", (long)(kHugePageSize / kPageSize)));
}
static std::string Rows(const std::vector<SizeClassInfo>& v) {
  std::vector<std::string> r;
  for (auto& c : v) r.push_back(vt::Nums(std::vector<long>{(long)c.size, (long)c.bytes.raw_num(), (long)c.num_to_move}));
  return vt::Arr(r);
}
struct Run { long lo, hi, size, cls; };
template <typename F> static void Map(vt::Trace& t, const SizeMap& m, const char* type, int cold, int part, size_t align, bool brief, F f) {
  std::vector<Run> runs;
  size_t top = kMaxSize + 2 * kPageSize + 3;
  for (size_t s = 0; s <= top; ++s) {
    SizeMap::SizeMapResult r = f(s);
    long cls = r.is_small ? (long)r.size_class : 0, size = r.is_small ? (long)m.class_to_size(r.size_class) : 0;
    if (runs.empty() || runs.back().cls != cls || runs.back().size != size) runs.push_back({(long)s, (long)s, size, cls});
    else runs.back().hi = s;
  }
  std::vector<std::string> r;
  for (auto& x : runs) r.push_back(vt::Nums(std::vector<long>{x.lo, x.hi, x.size, x.cls}));
  t.put(J().kv("op", "map").kv("type", type).kv("cold", cold).kv("part", part).kv("align", align).kv("top", top).raw("runs", vt::Arr(r)));
}
static void DumpMap(vt::Trace& t, const SizeMap& m, bool brief) {
  // every class as it is now
  std::vector<std::string> r;
  for (size_t c = 0; c < kNumClasses; ++c) {
    auto pr = m.class_to_size_range(c);
    r.push_back(vt::Nums(std::vector<long>{(long)m.class_to_size(c), (long)m.class_to_pages(c).raw_num(), (long)m.num_objects_to_move(c), (long)pr.first, (long)pr.second}));
  }
  std::vector<long> cold(m.ColdSizeClasses().begin(), m.ColdSizeClasses().end());
  t.put(J().kv("op", "classes").raw("rows", vt::Arr(r)).arr("cold", cold));
  size_t maxal = brief ? 64 : 4 * kPageSize;
  int np = kSecurityPartitions;
  for (int p = 0; p < np; ++p) {
    Map(t, m, "new", 0, p, 1, brief, [&](size_t s) { return m.GetSizeClass(CppPolicy().InPartition(p), s); });
    Map(t, m, "malloc", 0, p, 16, brief, [&](size_t s) { return m.GetSizeClass(MallocPolicy().InPartition(p), s); });
    if (kHasExpandedClasses) Map(t, m, "new", 1, p, 1, brief, [&](size_t s) { return m.GetSizeClass(CppPolicy().AccessAsCold().InPartition(p), s); });
    for (size_t a = 1; a <= maxal; a *= 2) {
      Map(t, m, "new", 0, p, a, brief, [&](size_t s) { return m.GetSizeClass(CppPolicy().AlignAs(a).InPartition(p), s); });
      if (p == 0 || !brief) Map(t, m, "malloc", 0, p, a, brief, [&](size_t s) { return m.GetSizeClass(MallocPolicy().AlignAs(a).InPartition(p), s); });
      if (kHasExpandedClasses && !brief) Map(t, m, "new", 1, p, a, brief, [&](size_t s) { return m.GetSizeClass(CppPolicy().AlignAs(a).AccessAsCold().InPartition(p), s); });
    }
  }
}
static SizeMap* g_m;
static int TableMode(uint64_t seed, long nmut, const char* path) {
  tc_globals.InitIfNecessary();
  vt::Rng g(seed); vt::Trace t(path);
  Params(t, "table");
  struct { const char* n; const SizeClasses* c; } tabs[] = {{"default", &kSizeClasses}, {"pow2", &kExperimentalPow2SizeClasses}, {"legacy", &kLegacySizeClasses}, {"relaxed", &kReuseRelaxedBelow64SizeClasses}};
  for (auto& tb : tabs) {
    std::vector<SizeClassInfo> v(tb.c->classes.begin(), tb.c->classes.end());
    SizeMap* m = new SizeMap();
    bool ok = m->Init(absl::MakeSpan(v));
    t.put(J().kv("op", "table").kv("name", tb.n).raw("rows", Rows(v)).kv("ok", ok));
    if (ok && (strcmp(tb.n, "default") == 0 || seed % 4 == (uint64_t)(&tb - &tabs[0]))) DumpMap(t, *m, strcmp(tb.n, "default") != 0);
    for (long k = 0; k < nmut; ++k) {
      std::vector<SizeClassInfo> w = v;
      int nm = g.chance(70) ? 1 : 1 + g(3);
      for (int q = 0; q < nm; ++q) {
        size_t i = g(w.size()); auto& x = w[i];
        switch (g(9)) {
          case 0: if (w.size() > 3 && i) w.erase(w.begin() + i); break;
          case 1: { static const int d[] = {8, 16, 64, 128, -8, -16, -128, 1, 4, -4, 32, 24}; x.size += d[g(12)]; break; }
          case 2: { static const long pg[] = {0, 1, 2, 3, 31, 32, 33, 34, 40, 62, 63, 64, 255}; x.bytes = Bytes(Length(pg[g(13)]).in_bytes()); break; }
          case 3: { static const int b[] = {0, 1, 2, 3, 127, 128, 129, 255}; x.num_to_move = b[g(8)]; break; }
          case 4: x.bytes = Bytes(x.bytes.raw_num() + (g.chance(50) ? 1 : kPageSize / 2)); break;
          case 5: if (i + 1 < w.size()) std::swap(w[i], w[i + 1]); break;
          case 6: if (i) x.size = g.chance(50) ? w[i - 1].size : (size_t)w[i - 1].size + 8; break;
          case 7: { size_t p = 1 + g(33); x.bytes = Bytes(Length(p).in_bytes()); size_t n = 1 + g(300); size_t s = p * kPageSize / n; s = s > 1024 ? s / 128 * 128 : s / 8 * 8; if (s) x.size = s; break; }
          default: { size_t keep = 1 + g(w.size() - 1); if (g.chance(50)) w.erase(w.begin() + keep, w.end()); else w.erase(w.begin() + 1, w.begin() + keep); break; }
        }
      }
      if (w.empty()) continue;
      m = g_m ? new (g_m) SizeMap() : (g_m = new SizeMap());
      bool ok2 = m->Init(absl::MakeSpan(w));
      t.put(J().kv("op", "table").kv("name", "mutated").raw("rows", Rows(w)).kv("ok", ok2));
      if (ok2 && k % 4 == 0) DumpMap(t, *m, true);
    }
  }
  t.flush();
  _exit(0);
}

static int ApiMode(uint64_t seed, long n, bool sampled, const char* path) {
  vt::Rng g(seed); vt::Trace t(path);
  MallocExtension::SetProfileSamplingInterval(sampled ? 1 : 0);
  for (int i = 0; i < 4000; ++i) free(malloc(100000));               // use up what the old interval left
  free(malloc(1));
  Params(t, "api");
  auto& m = tc_globals.sizemap();
  std::vector<std::string> r;
  std::vector<size_t> sz;
  for (size_t c = 0; c < kNumClasses; ++c) {
    auto pr = m.class_to_size_range(c);
    if (c < kNumBaseClasses && m.class_to_size(c)) sz.push_back(m.class_to_size(c));
    r.push_back(vt::Nums(std::vector<long>{(long)m.class_to_size(c), (long)m.class_to_pages(c).raw_num(), (long)m.num_objects_to_move(c), (long)pr.first, (long)pr.second}));
  }
  std::vector<long> cold(m.ColdSizeClasses().begin(), m.ColdSizeClasses().end());
  t.put(J().kv("op", "classes").raw("rows", vt::Arr(r)).arr("cold", cold));
  auto cap = [](void* p) { return (long)*MallocExtension::GetAllocatedSize(p); };
  size_t i = 0;
  for (long k = 0; k < n; ++k) {
    size_t s, al = 1;
    if (i < 3 * sz.size()) { s = sz[i / 3] + i % 3 - 1; ++i; }
    else if (g.chance(70)) s = g(sz[g(sz.size())] + 2);
    else s = kMaxSize + g(64) * 1000 + g(3);
    if (g.chance(50)) al = size_t(1) << g(g.chance(80) ? kPageShift + 1 : kPageShift + 4);
    // any size the same class serves (the block is then freed with it)
    auto other = [&](size_t c, size_t align) -> size_t {
      if (sampled) return s;
      if (c > kMaxSize || align > kPageSize) return s;
      size_t lo = 0;
      for (size_t z : sz) if (z < c && z % align == 0) lo = z + 1;
      size_t v = g.chance(40) ? lo : g.chance(40) ? c : lo + g(c - lo + 1);
      return v;
    };
    J j; j.kv("op", "api").kv("n", s).kv("align", al);
    {
      j.kv("nalloc", nallocx(s, 0)).kv("est", MallocExtension::GetEstimatedAllocatedSize(s));
      void* p = ::operator new(s); long c = cap(p); size_t f = other(c, 1);
      j.kv("cnew", c).kv("f1", f);
      ::operator delete(p, f);
      auto q = __size_returning_new(s); c = cap(q.p); j.kv("rnew", q.n).kv("crnew", c);
      f = other(c, 1); ::operator delete(q.p, sampled ? s : f);
      auto h = __size_returning_new_hot_cold(s, static_cast<hot_cold_t>(0)); c = cap(h.p); j.kv("rcold", h.n).kv("ccold", c);
      size_t fh = sampled ? s : other(c, 1); ::operator delete(h.p, s && !fh ? 1 : fh);   // (a cold request of 0 bytes is served as hot: another class)
    }
    {
      void* p = malloc(s); j.kv("cmal", cap(p)).kv("usable", malloc_usable_size(p));
      size_t f = other(cap(p), 16); free_sized(p, f); j.kv("f2", f);
      auto q = alloc_at_least(s); j.kv("ral", q.size).kv("cral", cap(q.ptr)); free(q.ptr);
    }
    {
      j.kv("anal", nallocx(s, __builtin_ctzll(al)));
      void* p = ::operator new(s, std::align_val_t(al)); long c = cap(p); j.kv("canew", c);
      ::operator delete(p, other(c, al), std::align_val_t(al));
      auto q = __size_returning_new_aligned(s, std::align_val_t(al)); c = cap(q.p); j.kv("ranew", q.n).kv("cranew", c);
      ::operator delete(q.p, sampled ? s : other(c, al), std::align_val_t(al));
      size_t al8 = al < 8 ? 8 : al;
      void* x = aligned_alloc(al8, s); j.kv("caal", cap(x)).kv("al8", al8);
      free_aligned_sized(x, al8, other(cap(x), al8));
      auto y = aligned_alloc_at_least(al8, s); j.kv("raal", y.size).kv("craal", cap(y.ptr)); free(y.ptr);
    }
    t.put(j);
  }
  t.flush();
  _exit(0);
}
int main(int argc, char** argv) {
  if (argc < 5) return 99;
  if (!strcmp(argv[1], "table")) return TableMode(atoll(argv[2]), atol(argv[3]), argv[4]);
  return ApiMode(atoll(argv[2]), atol(argv[3]), !strcmp(argv[1], "sapi"), argv[4]);
}
