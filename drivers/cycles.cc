// Conformance driver for Cycles32 under a mocked clock.   cycles <seed> <ops> <trace>
#include "tcmalloc/internal/clock.h"
#include "trace.h"
#include <cmath>
#include <new>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
static int64_t g_now; static double g_freq;
int main(int argc, char** argv) {
  vt::Rng g(atoll(argv[1])); long n = atol(argv[2]); vt::Trace t(argv[3]);
  const int NS = 4;
  alignas(Cycles32) char buf[NS][sizeof(Cycles32)]; Cycles32* c[NS];
  uint64_t at[NS] = {};   // driver's notion, only used to choose interesting times
  bool set[NS] = {};
  for (int i = 0; i < NS; ++i) c[i] = new (buf[i]) Cycles32();
  Clock clk{.now = [] { return g_now; }, .freq = [] { return g_freq; }};
  uint64_t tick = 0;
  auto limbs = [](uint64_t v) { return std::vector<long>{(long)(v >> 32), (long)(v >> 16 & 65535), (long)(v & 65535)}; };
  const uint64_t P = 1ull << 32, maxtick = (1ull << 43) - 1;
  auto now = [&] { g_now = (int64_t)(tick << 20 | (g.chance(30) ? 0 : g.chance(30) ? (1 << 20) - 1 : g(1 << 20)));
    static const double fr[] = {1048576.0, 1e9, 2.0e9, 3.3e9, 1e6, 2147483648.0}; g_freq = fr[g(6)]; };
  for (long k = 0; k < n; ++k) {
    int i = g(NS), j = g(NS);
    // move the clock: to an interesting distance from some stamp or from an epoch boundary
    uint64_t tgt = tick;
    switch (g(7)) {
      case 0: break;
      case 1: tgt = tick + g(4); break;
      case 2: tgt = at[i] + P / 2 - 3 + g(6); break;
      case 3: tgt = at[i] + P - 5 + g(6); break;
      case 4: tgt = ((tick >> 32) + 1 << 32) - 3 + g(6); break;
      case 5: tgt = tick + g(1 << 30) * (uint64_t)(1 + g(4)); break;
      case 6: tgt = tick + g(100000); break;
    }
    if (tgt > tick) tick = tgt;
    if (tick >= maxtick - 2 * P || g.chance(1)) {  // start over
      for (int q = 0; q < NS; ++q) { c[q]->~Cycles32(); c[q] = new (buf[q]) Cycles32(); at[q] = 0; set[q] = false; t.put(J().kv("op", "fresh").kv("i", q)); }
      tick = g.chance(30) ? 0 : g.chance(50) ? P - 1 - g(3) : g(1 << 30) * (uint64_t)g(8);
    }
    now();
    switch (g.chance(75) ? 3 + g(2) : g.chance(80) ? 0 : 1 + g(2)) {
      case 0: c[i]->Update(clk); at[i] = tick; set[i] = true; t.put(J().kv("op", "update").kv("i", i).arr("t", limbs(tick)).kv("set", (bool)*c[i])); break;
      case 1: c[i]->Reset(); set[i] = false; t.put(J().kv("op", "reset").kv("i", i).kv("set", (bool)*c[i])); break;
      case 2: { uint64_t v = tick - g(5); if (v > tick) v = tick; c[i]->~Cycles32(); c[i] = new (buf[i]) Cycles32((uint32_t)v); at[i] = v; t.put(J().kv("op", "make").kv("i", i).arr("t", limbs(v))); break; }
      case 3: {
        absl::Duration d = g.chance(50) ? c[i]->AsDuration(clk) : c[i]->AsDuration(clk.GetSnapshot());
        bool inf = d == absl::InfiniteDuration();
        double ticks = inf ? 0 : absl::ToDoubleSeconds(d) * g_freq / 1048576.0;
        uint64_t v = ticks < 0 ? maxtick : ticks > 1e13 ? maxtick : (uint64_t)llround(ticks);
        t.put(J().kv("op", "age").kv("i", i).arr("t", limbs(tick)).kv("inf", inf).kv("set", (bool)*c[i]).arr("age", limbs(v)));
        break; }
      case 4: t.put(J().kv("op", "cmp").kv("i", i).kv("j", j).kv("r", c[i]->TimeAfterOrEqual(*c[j]))); break;
    }
  }
}
