// Conformance driver for StackTraceFilter / DecayingStackTraceFilter.
//   filter <mode> <seed> <histories> <trace>     mode: seq | conc
#include "tcmalloc/internal/stacktrace_filter.h"
#include "vsched.h"
#include <memory>
#include <unordered_set>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

struct F {
  virtual ~F() = default;
  virtual void add(int s, int v) = 0; virtual bool has(int s) = 0; virtual void decay() = 0; virtual void drain() = 0;
};
static void* g_frames[64][4];
static absl::Span<void* const> St(int s) { return absl::Span<void* const>(g_frames[s], 1 + s % 4); }
template <class X> struct Count : F {
  X f; 
  void add(int s, int v) override { f.Add(St(s), v); }
  bool has(int s) override { return f.Contains(St(s)); }
  void decay() override {} void drain() override {}
};
template <class X> struct Dec : Count<X> {
  void decay() override { this->f.Decay(); } void drain() override { this->f.DecayAll(); }
};
struct Kind { int d; bool onehash; std::function<F*()> mk; };
static std::vector<Kind> Kinds() {
  return {
    {0, true, [] { return new Count<StackTraceFilter<4, 1>>; }}, {0, true, [] { return new Count<StackTraceFilter<1, 1>>; }},
    {0, false, [] { return new Count<StackTraceFilter<4096, 2>>; }}, {0, false, [] { return new Count<StackTraceFilter<7, 2>>; }},
    {0, false, [] { return new Count<StackTraceFilter<5000, 3>>; }},
    {1, true, [] { return new Dec<DecayingStackTraceFilter<4, 1, 1>>; }}, {2, true, [] { return new Dec<DecayingStackTraceFilter<3, 1, 2>>; }},
    {3, false, [] { return new Dec<DecayingStackTraceFilter<4096, 2, 3>>; }}, {4, true, [] { return new Dec<DecayingStackTraceFilter<16, 1, 4>>; }},
    {8, false, [] { return new Dec<DecayingStackTraceFilter<9, 2, 8>>; }}, {5, false, [] { return new Dec<DecayingStackTraceFilter<8192, 3, 5>>; }},
    {16, true, [] { return new Dec<DecayingStackTraceFilter<64, 1, 16>>; }},
  };
}
// Learns which traces collide, from fresh filters only.  With one position per trace the relation
// is exact; with more, exact is reported only if no trace is ever masked by all the others.
static std::vector<int> Classes(const Kind& k, int ns, bool* exact) {
  std::vector<int> cls(ns);
  for (int s = 0; s < ns; ++s) cls[s] = s + 1;
  if (k.onehash) {
    for (int s = 0; s < ns; ++s) { std::unique_ptr<F> f(k.mk()); f->add(s, 1); for (int u = 0; u < s; ++u) if (f->has(u)) { cls[s] = cls[u]; break; } }
    *exact = true;
  } else {
    *exact = true;
    for (int s = 0; s < ns; ++s) { std::unique_ptr<F> f(k.mk()); for (int u = 0; u < ns; ++u) if (u != s) f->add(u, 1); if (f->has(s)) *exact = false; }
  }
  return cls;
}
struct Op { char k; int s, v; };

int main(int argc, char** argv) {
  std::string mode = argv[1]; vt::Rng g(atoll(argv[2])); long n = atol(argv[3]); vt::Trace t(argv[4]);
  std::unordered_set<std::string> seen; long execs = 0;
  auto kinds = Kinds();
  auto frames = [&] { for (auto& f : g_frames) for (auto& p : f) p = (void*)(uintptr_t)(0x400000 + g(1 << 24) * 16); };
  auto emit = [&](const std::vector<std::string>& h) { std::string all; for (auto& s : h) { all += s; all += '\n'; } if (seen.insert(all).second) { fwrite(all.data(), 1, all.size(), t.f); ++t.n; } };
  auto history = [&](const Kind& k, int ns, const std::vector<int>& cls, bool exact, const std::vector<std::vector<Op>>& prog, const std::vector<Op>& tail, sched::Strategy* st) {
    std::vector<std::string> h; std::unique_ptr<F> f(k.mk());
    h.push_back(J().kv("op", "reset").kv("d", k.d).arr("cls", cls).kv("exact", exact).str());
    auto one = [&](int i, Op o) {
      const char* nm = o.k == 'a' ? "add" : o.k == 'd' ? "decay" : o.k == 'D' ? "drain" : "contains";
      h.push_back(J().kv("op", "call").kv("t", i).kv("f", nm).kv("s", o.s + 1).kv("v", o.v).str());
      J j; j.kv("op", "ret").kv("t", i).kv("f", nm);
      if (st) --sched::g_quiet;
      bool r = false;
      if (o.k == 'a') f->add(o.s, o.v); else if (o.k == 'd') f->decay(); else if (o.k == 'D') f->drain(); else r = f->has(o.s);
      if (st) ++sched::g_quiet;
      if (o.k == 'c') j.kv("r", r);
      h.push_back(j.str());
    };
    if (st) {
      std::vector<std::function<void()>> fns;
      for (size_t i = 0; i < prog.size(); ++i) fns.push_back([&, i] { ++sched::g_quiet; for (Op o : prog[i]) one(i, o); --sched::g_quiet; });
      sched::g_quiet = 0; sched::Run(std::move(fns), st);
      st = nullptr;
    } else for (Op o : prog[0]) one(0, o);
    for (Op o : tail) one(0, o);
    for (int s = 0; s < ns; ++s) one(0, {'c', s, 0});
    ++execs; emit(h);
  };
  for (long q = 0; q < n; ++q) {
    frames();
    const Kind& k = kinds[g(kinds.size())];
    if (mode == "seq") {
      int ns = 1 + g(8); bool exact; auto cls = Classes(k, ns, &exact);
      std::vector<Op> p; std::vector<long> net(ns, 0); bool neg = k.onehash && g.chance(20);
      int big = g.chance(15);
      for (int i = 20 + g(120); i > 0; --i) {
        int s = g(ns); int v;
        switch (g(10)) {
          case 0: case 1: case 2: case 3: v = big ? g(2000) : g.chance(60) ? 1 : g(4); if (net[s] + v < 20000) { p.push_back({'a', s, v}); net[s] += v; } break;
          case 4: case 5: v = 1 + (net[s] > 1 ? g(net[s]) : 0); if (net[s] >= v || neg && net[s] > -5) { p.push_back({'a', s, -v}); net[s] -= v; } break;
          case 6: if (k.d && g.chance(50)) p.push_back({'d', 0, 0}); break;
          case 7: if (k.d && g.chance(10)) p.push_back({'D', 0, 0}); break;
          default: p.push_back({'c', s, 0});
        }
        if (g.chance(15)) for (int u = 0; u < ns; ++u) p.push_back({'c', u, 0});
      }
      std::vector<Op> tail;
      for (int s = 0; s < ns; ++s) { tail.push_back({'c', s, 0}); }
      for (int s = 0; s < ns; ++s) if (net[s]) tail.push_back({'a', s, (int)-net[s]});
      if (k.d) tail.push_back({'D', 0, 0});
      history(k, ns, cls, exact, {p}, tail, nullptr);
    } else {
      int ns = 1 + g(3); bool exact; auto cls = Classes(k, ns, &exact);
      std::vector<Op> tail; std::vector<long> net(ns, 0);
      int th = 2 + g(2); std::vector<std::vector<Op>> p(th);
      for (int i = 0; i < th; ++i) { std::vector<long> own(ns, 0); for (int c = 1 + g(3); c > 0; --c) {
        int s = g(ns), x = g(10);
        if (x < 5) { int v = g(3); p[i].push_back({'a', s, v}); own[s] += v; net[s] += v; }
        else if (x < 7) { if (own[s]) { p[i].push_back({'a', s, -1}); --own[s]; --net[s]; } else if (k.d) p[i].push_back({'d', 0, 0}); }
        else p[i].push_back({'c', s, 0}); } }
      for (int s = 0; s < ns; ++s) tail.push_back({'c', s, 0});
      if (g.chance(60)) for (int s = 0; s < ns; ++s) if (net[s]) { tail.push_back({'a', s, (int)-net[s]}); for (int u = 0; u < ns; ++u) tail.push_back({'c', u, 0}); }
      if (k.d && g.chance(60)) for (int i = g(k.d + 2); i > 0; --i) { tail.push_back({'d', 0, 0}); tail.push_back({'c', (int)g(ns), 0}); }
      if (k.d) { tail.push_back({'D', 0, 0}); }
      for (int r = 0; r < 12; ++r) {
        if (g.chance(50)) { sched::RandomStrategy s(g, 5 + g(60)); history(k, ns, cls, exact, p, tail, &s); }
        else { sched::PctStrategy s(g, th, 1 + g(4), 40); history(k, ns, cls, exact, p, tail, &s); }
      }
    }
  }
  fprintf(stderr, "execs %ld distinct %ld\n", execs, t.n);
}
