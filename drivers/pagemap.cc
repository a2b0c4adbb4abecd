// Conformance driver for the radix-tree page map at several address widths.
//   pagemap <seed> <histories> <trace>
#include "tcmalloc/pagemap.h"
#include "trace.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
static std::vector<void*> g_mem; static int g_left;
static void* Al(size_t n) { if (g_left == 0) return nullptr; if (g_left > 0) --g_left; void* p = malloc(n); memset(p, 0xab, n); g_mem.push_back(p); return p; }

template <int BITS>
static void History(vt::Rng& g, vt::Trace& t) {
  using Map = PageMap3<BITS, Al>; using N = uintptr_t;
  auto map = std::make_unique<Map>(); g_left = -1;
  const int lb = (BITS + 2) / 3; const N leaf = N{1} << lb, node = leaf << lb, end = N{1} << BITS;
  const N hp = N{1} << (kHugePageShift - kPageShift);
  // the pages this history talks about, clustered around the boundaries
  std::set<N> u;
  auto add = [&](N k) { u.insert(k % (end + 8)); };
  for (int c = 2 + g(4); c > 0; --c) {
    N base; switch (g(6)) { case 0: base = (N)g(end >> lb) << lb; break; case 1: base = (N)g(end >> (2 * lb)) << (2 * lb); break; case 2: base = 0; break; case 3: base = end - 1; break; case 4: base = (N)g(node) * hp; break; default: base = (N)g(end); }
    for (int k = 1 + g(6); k > 0; --k) add(base + g(7) - 3);
    if (g.chance(40)) { add(base + leaf); add(base + leaf - 1); add(base + node); add(base + node - 1); add(base + hp); add(base + hp - 1); }
  }
  std::vector<N> P(u.begin(), u.end());
  auto rank = [&](N k) { auto it = std::lower_bound(P.begin(), P.end(), k); return it != P.end() && *it == k ? (int)(it - P.begin()) + 1 : -1; };
  std::vector<int> lf, hg; std::vector<bool> in; std::map<N, int> lm, hm; std::string ins = "[";
  for (N k : P) { lf.push_back(lm.emplace(k >> lb, lm.size() + 1).first->second); hg.push_back(hm.emplace(k / hp, hm.size() + 1).first->second); ins += std::string(ins.size() > 1 ? "," : "") + (k < end ? "true" : "false"); }
  t.put(J().kv("op", "reset").arr("leaf", lf).arr("hp", hg).raw("in", ins + "]"));
  auto sp = [](int i) { return i ? (Span*)(i * (uintptr_t)0x0000123456789000 % 0x7fffffffffff & ~(uintptr_t)7) : nullptr; };
  std::map<Span*, int> ids; for (int i = 0; i < 12; ++i) ids[sp(i)] = i;
  auto id = [&](Span* s) { auto it = ids.find(s); return it == ids.end() ? -1 : it->second; };
  std::vector<int> cls(P.size() + 1), okv(P.size() + 1);   // what set() may assume
  for (int i = 60 + g(120); i > 0; --i) {
    int a = g(P.size()), x = g(100); N k = P[a];
    if (x < 12) {
      int b = std::min<int>(P.size() - 1, a + g(4)); if (P[b] - k > 4 * node) b = a;
      g_left = g.chance(20) ? (int)g(3) : -1; bool ok = map->Ensure(k, P[b] - k + 1); g_left = -1;
      std::string has = "["; for (N q : P) has += std::string(has.size() > 1 ? "," : "") + (map->has_leaf(q) ? "true" : "false");
      for (size_t q = 0; q < P.size(); ++q) okv[q] = map->has_leaf(P[q]);
      t.put(J().kv("op", "ensure").kv("a", a + 1).kv("b", b + 1).kv("ok", ok).kv("left", g_left).raw("has", has + "]"));
      continue;
    }
    if (x < 62) {
      // a run of consecutive pages of the universe
      int n = 1 + (g.chance(30) ? g(3) : 0);
      int s = g.chance(20) ? 0 : 1 + g(11), c = g.chance(30) ? 0 : 1 + g(g.chance(50) ? 10 : kNumClasses - 1);
      for (int q = a; q < (int)P.size() && q < a + n; ++q) {
        if (!okv[q] || P[q] >= end) continue;
        if (x < 22 && cls[q] == 0) { map->set(P[q], sp(s)); t.put(J().kv("op", "set").kv("a", q + 1).kv("s", s).kv("c", 0)); }
        else if (x < 50) { map->set_with_sizeclass(P[q], sp(s), c); cls[q] = c; t.put(J().kv("op", "set").kv("a", q + 1).kv("s", s).kv("c", c)); }
        else if (x < 56) { map->clear_sizeclass(P[q]); cls[q] = 0; t.put(J().kv("op", "clear").kv("a", q + 1)); }
        else { map->set_hugepage(P[q], sp(s)); t.put(J().kv("op", "sethp").kv("a", q + 1).kv("s", s)); }
      }
    }
    // look everything up
    std::vector<int> gt, sc, bs, bc, ex, hu, nx;
    for (size_t q = 0; q < P.size(); ++q) {
      gt.push_back(id(map->get(P[q]))); sc.push_back(map->sizeclass(P[q]));
      auto pr = map->template get_existing_with_sizeclass<true>(P[q]); bs.push_back(id(pr.first)); bc.push_back(pr.second);
      if (okv[q] && P[q] < end) {
        ex.push_back(id(map->get_existing(P[q]))); hu.push_back(id((Span*)map->get_hugepage(P[q])));
        auto p2 = map->template get_existing_with_sizeclass<false>(P[q]); if (p2 != pr) ex.back() = -2;
      } else { ex.push_back(0); hu.push_back(0); }
    }
    for (int c = 0; c < 2; ++c) { int q = g(P.size()); if (P[q] < end) { auto r = map->get_next_set_page(P[q]); nx.push_back(q + 1); nx.push_back(r ? rank(*r) : 0); } }
    t.put(J().kv("op", "look").arr("get", gt).arr("sc", sc).arr("bs", bs).arr("bc", bc).arr("ex", ex).arr("hu", hu).arr("nx", nx));
  }
  for (void* p : g_mem) free(p);
  g_mem.clear();
}
int main(int argc, char** argv) {
  vt::Rng g(atoll(argv[1])); long n = atol(argv[2]); vt::Trace t(argv[3]);
  for (long i = 0; i < n; ++i) switch (i % 5) { case 0: History<24>(g, t); break; case 1: History<25>(g, t); break; case 2: History<26>(g, t); break; case 3: History<30>(g, t); break; default: History<48 - kPageShift>(g, t); }
}
