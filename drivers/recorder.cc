// Conformance driver for SampleRecorder<SampledAllocation> under a controlled scheduler.
//   recorder <mode> <seed> <programs> <trace>     mode: seq | conc | dfs
#include "tcmalloc/internal/sampled_allocation.h"
#include "tcmalloc/internal/sampled_allocation_recorder.h"
#include "vsched.h"
#include <map>
#include <unordered_set>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

// Hands out a bounded number of records and never reuses memory, so that stale accesses stay visible.
struct Alloc {
  std::vector<SampledAllocation*> made;
  SampledAllocation* New(StackTrace&& st) { ++sched::g_quiet; void* p = malloc(sizeof(SampledAllocation)); made.push_back((SampledAllocation*)p); --sched::g_quiet; return new (p) SampledAllocation(std::move(st)); }
  void Delete(SampledAllocation* s) {}
  ~Alloc() { for (auto* s : made) { s->~SampledAllocation(); free(s); } }
};
using Rec = SampleRecorder<SampledAllocation, Alloc>;

static StackTrace Make(int id) {
  StackTrace s{};
  s.requested_size = id * 3; s.allocated_size = id * 5; s.weight = id * 7; s.access_hint = id & 255; s.cold_allocated = id & 1;
  s.requested_size_returning = id & 1; s.depth = 1 + id % 5; for (int i = 0; i < 5; ++i) s.stack[i] = (void*)(uintptr_t)(id * 64 + i);
  s.span_start_address = (void*)(uintptr_t)(id * 4096); s.allocation_time = absl::FromUnixSeconds(id);
  s.requested_alignment = (std::align_val_t)(8 * id);
  return s;
}
// id of an intact sample, or -1
static int IdOf(const SampledAllocation& a) {
  const StackTrace& s = a.sampled_stack; int id = s.requested_size / 3;
  bool ok = id > 0 && s.requested_size == (size_t)id * 3 && s.allocated_size == (size_t)id * 5 && s.weight == (size_t)id * 7 && s.access_hint == (id & 255) && s.cold_allocated == (bool)(id & 1)
    && s.depth == (size_t)(1 + id % 5) && s.span_start_address == (void*)(uintptr_t)(id * 4096) && s.allocation_time == absl::FromUnixSeconds(id) && s.requested_alignment == (std::align_val_t)(8 * id);
  for (int i = 0; ok && i < 5; ++i) ok = s.stack[i] == (void*)(uintptr_t)(id * 64 + i);
  return ok ? id : -1;
}
static std::vector<std::string>* H;
static void Dispose(const SampledAllocation& s) { ++sched::g_quiet; int id = IdOf(s); H->push_back(J().kv("op", "dispose").kv("id", id).kv("ok", id > 0).str()); --sched::g_quiet; }
struct Op { char k; int x; };
int main(int argc, char** argv) {
  std::string mode = argv[1]; vt::Rng g(atoll(argv[2])); long n = atol(argv[3]); vt::Trace t(argv[4]);
  std::unordered_set<std::string> seen; long execs = 0;
  auto history = [&](const std::vector<Op>& pre, const std::vector<std::vector<Op>>& prog, sched::Strategy* st, bool cb, bool plain) {
    std::vector<std::string> h; H = &h; 
    Alloc al; Rec rec(al); std::map<void*, int> num; 
    struct Live { int id; SampledAllocation* s; };
    std::vector<std::vector<Live>> mine(prog.size() + 1); int next = 0, active = 0, overlaps = 0; bool on = false;
    int total = 0; for (auto& o : pre) total += o.k == 'r'; for (auto& p : prog) for (auto& o : p) total += o.k == 'r';
    h.push_back(J().kv("op", "reset").kv("n", total).str());
    auto setcb = [&](bool want) { auto prev = rec.SetDisposeCallback(want ? Dispose : nullptr); h.push_back(J().kv("op", "setcb").kv("on", want).kv("prev", prev == Dispose).str()); on = want; };
    if (cb) setcb(true);
    auto one = [&](int i, Op o, bool conc) {
      ++active; if (active > 1) ++overlaps; int ov0 = active > 1 ? -1 : overlaps;
      auto call = [&](const char* f, int id) { h.push_back(J().kv("op", "call").kv("f", f).kv("t", i).kv("id", id).str()); if (conc) --sched::g_quiet; };
      auto back = [&] { if (conc) ++sched::g_quiet; };
      if (o.k == 'r') {
        int id = ++next; StackTrace s = Make(id);
        call("reg", id); SampledAllocation* p = rec.Register(std::move(s)); back();
        int hn = num.emplace(p, num.size() + 1).first->second;
        h.push_back(J().kv("op", "ret").kv("f", "reg").kv("t", i).kv("id", id).kv("h", hn).kv("solo", active == 1 && overlaps == ov0).str());
        mine[i].push_back({id, p});
      } else if (o.k == 'u') {
        auto& m = mine[i]; if (m.empty()) { --active; return; }
        int q = o.x % m.size(); Live v = m[q]; m.erase(m.begin() + q);
        call("unreg", v.id); rec.Unregister(v.s); back();
        h.push_back(J().kv("op", "ret").kv("f", "unreg").kv("t", i).kv("id", v.id).str());
      } else if (o.k == 'A') {
        call("all", 0); rec.UnregisterAll(); back(); for (auto& m : mine) m.clear();
        h.push_back(J().kv("op", "ret").kv("f", "all").kv("t", i).str());
      } else if (o.k == 'c') { setcb(!on);
      } else {
        std::vector<int> ids; bool ok = true; int c = 0;
        call("iter", 0); rec.Iterate([&](const SampledAllocation& s) { ++sched::g_quiet; if (++c > 1000) { fprintf(stderr, "endless iteration\n"); abort(); } int id = IdOf(s); if (id < 0) ok = false; ids.push_back(id); --sched::g_quiet; }); back();
        h.push_back(J().kv("op", "ret").kv("f", "iter").kv("t", i).arr("ids", ids).kv("ok", ok).str());
      }
      --active;
    };
    for (Op o : pre) one(0, o, false);
    // samples of the prefix are shared out so that every thread has some to unregister
    { auto all = mine[0]; for (auto& m : mine) m.clear(); for (size_t q = 0; q < all.size(); ++q) mine[prog.empty() ? 0 : q % prog.size()].push_back(all[q]); }
    if (st) {
      std::vector<std::function<void()>> fns;
      for (size_t i = 0; i < prog.size(); ++i) fns.push_back([&, i] { ++sched::g_quiet; for (Op o : prog[i]) one(i, o, true); --sched::g_quiet; });
      sched::g_quiet = 0; sched::Run(std::move(fns), st, plain);
    }
    one(0, {'i', 0}, false); one(0, {'A', 0}, false); one(0, {'i', 0}, false);
    ++execs; std::string all; for (auto& s : h) { all += s; all += '\n'; }
    if (seen.insert(all).second) { fwrite(all.data(), 1, all.size(), t.f); ++t.n; }
  };
  for (long q = 0; q < n; ++q) {
    std::vector<Op> pre; std::vector<std::vector<Op>> prog;
    if (mode == "seq") {
      for (int i = 20 + g(80); i > 0; --i) { int x = g(20); pre.push_back(x < 8 ? Op{'r', 0} : x < 14 ? Op{'u', (int)g(100)} : x < 18 ? Op{'i', 0} : x < 19 ? Op{'c', 0} : Op{'A', 0}); }
      history(pre, {}, nullptr, g.chance(50), false);
      continue;
    }
    for (int i = g(6); i > 0; --i) pre.push_back(g.chance(70) ? Op{'r', 0} : Op{'u', (int)g(10)});
    bool bulk = g.chance(15);   // bulk unregistration only together with iteration
    int th = 2 + g(2); prog.resize(th);
    for (int i = 0; i < th; ++i) for (int c = 1 + g(3); c > 0; --c) {
      int x = g(10);
      prog[i].push_back(bulk ? (i == 0 ? (c == 1 ? Op{'A', 0} : Op{'i', 0}) : Op{'i', 0}) : x < 4 ? Op{'r', 0} : x < 7 ? Op{'u', (int)g(10)} : Op{'i', 0});
    }
    if (g.chance(40) && !bulk) prog[th - 1] = {{'i', 0}, {'i', 0}};
    bool cb = g.chance(60), plain = g.chance(40);
    if (mode == "conc") for (int r = 0; r < 15; ++r) {
      if (g.chance(50)) { sched::RandomStrategy s(g, 3 + g(50)); history(pre, prog, &s, cb, plain); }
      else { sched::PctStrategy s(g, th, 1 + g(4), plain ? 300 : 80); history(pre, prog, &s, cb, plain); }
    } else { sched::DfsStrategy s(2); for (int c = 0; c < 3000; ++c) { s.begin(); history(pre, prog, &s, cb, false); if (!s.next()) break; } }
  }
  fprintf(stderr, "execs %ld distinct %ld\n", execs, t.n);
}
