// Conformance driver for HookList / MallocHook under a controlled scheduler.
//   hook_list <mode> <seed> <histories> <trace>    mode: seq | rand | dfs
#include "tcmalloc/internal/hook_list.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/malloc_hook_invoke.h"
#include "vsched.h"
#include <memory>
#include <set>
#include <unordered_set>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
typedef void (*Hook)(const MallocHook::NewInfo&);

static thread_local std::vector<int>* g_log[8];
static bool g_args_ok[8];
static const MallocHook::NewInfo* g_expect[8];
template <int K> static void H(const MallocHook::NewInfo& i) {
  int me = sched::Me() < 0 ? 0 : sched::Me();
  ++sched::g_quiet;
  g_log[me]->push_back(K);
  if (i.ptr != g_expect[me]->ptr || i.requested_size != g_expect[me]->requested_size || i.allocated_size != g_expect[me]->allocated_size) g_args_ok[me] = false;
  --sched::g_quiet;
}
static Hook kHooks[] = {nullptr, H<1>, H<2>, H<3>, H<4>, H<5>, H<6>, H<7>, H<8>};
static int Name(Hook h) { for (int i = 0; i < 9; ++i) if (kHooks[i] == h) return i; return 99; }

struct Op { char k; int h; };
struct Table {  // either a bare list or the process-wide hook table behind the public API
  virtual ~Table() = default;
  virtual bool add(Hook) = 0; virtual bool remove(Hook) = 0;
  virtual std::vector<int> traverse(int n, bool* args) = 0;
  virtual int size() = 0; virtual bool empty() = 0;
};
static std::vector<int> Invoke(const std::function<void(const MallocHook::NewInfo&)>& f, bool* args) {
  int me = sched::Me() < 0 ? 0 : sched::Me();
  std::vector<int> got; MallocHook::NewInfo info{(void*)(uintptr_t)(0x1000 + me * 64), (size_t)(17 + me), (size_t)(32 + me), HookMemoryMutable::kMutable};
  g_log[me] = &got; g_expect[me] = &info; g_args_ok[me] = true;
  --sched::g_quiet;
  f(info);
  ++sched::g_quiet;
  *args = g_args_ok[me];
  return got;
}
struct Bare : Table {
  HookList<Hook> l;
  bool add(Hook h) override { --sched::g_quiet; bool r = l.Add(h); ++sched::g_quiet; return r; }
  bool remove(Hook h) override { --sched::g_quiet; bool r = l.Remove(h); ++sched::g_quiet; return r; }
  std::vector<int> traverse(int n, bool* args) override {
    *args = true;
    if (n == 7) return Invoke([&](const MallocHook::NewInfo& i) { l.Invoke(i); }, args);
    Hook out[16]; --sched::g_quiet; int r = l.Traverse(out, n > 7 ? 7 : n); ++sched::g_quiet;
    std::vector<int> v; for (int i = 0; i < r && i < 16; ++i) v.push_back(Name(out[i]));
    return v;
  }
  int size() override { return l.size(); }
  bool empty() override { return l.empty(); }
};
struct Api : Table {
  Api() { for (int i = 1; i < 9; ++i) while (MallocHook::RemoveNewHook(kHooks[i])) {} 
          // consume the library's initial hook
          bool a; ++sched::g_quiet; Invoke([](const MallocHook::NewInfo& i) { MallocHook::InvokeNewHook(i); }, &a); --sched::g_quiet; }
  bool add(Hook h) override { --sched::g_quiet; bool r = MallocHook::AddNewHook(h); ++sched::g_quiet; return r; }
  bool remove(Hook h) override { --sched::g_quiet; bool r = MallocHook::RemoveNewHook(h); ++sched::g_quiet; return r; }
  std::vector<int> traverse(int, bool* args) override { return Invoke([](const MallocHook::NewInfo& i) { MallocHook::InvokeNewHook(i); }, args); }
  int size() override { return new_hooks_.size(); }
  bool empty() override { return new_hooks_.empty(); }
};

static std::vector<std::string> RunHistory(const std::vector<std::vector<Op>>& prog, sched::Strategy* st, bool api, const std::vector<Op>& prefix = {}) {
  std::vector<std::string> hist;
  std::unique_ptr<Table> t(api ? (Table*)new Api : (Table*)new Bare);
  hist.push_back(J().kv("op", "reset").kv("cap", 7).str());
  std::vector<std::function<void()>> fns;
  int running = prog.size();
  for (Op o : prefix) {   // sequential set-up, so that slots are occupied and fragmented
    ++sched::g_quiet;
    const char* f = o.k == 'a' ? "add" : "remove";
    hist.push_back(J().kv("op", "call").kv("t", 0).kv("f", f).kv("h", o.h).str());
    bool r = o.k == 'a' ? t->add(kHooks[o.h]) : t->remove(kHooks[o.h]);
    hist.push_back(J().kv("op", "ret").kv("t", 0).kv("f", f).kv("r", r).kv("size", t->size()).kv("empty", t->empty()).kv("quiet", true).str());
    --sched::g_quiet;
  }
  for (size_t i = 0; i < prog.size(); ++i)
    fns.push_back([&, i] {
      ++sched::g_quiet;
      for (Op o : prog[i]) {
        const char* f = o.k == 'a' ? "add" : o.k == 'r' ? "remove" : "traverse";
        hist.push_back(J().kv("op", "call").kv("t", i).kv("f", f).kv("h", o.k == 't' ? 0 : o.h).str());
        J j; j.kv("op", "ret").kv("t", i).kv("f", f);
        if (o.k == 't') {
          bool args = true; auto v = t->traverse(o.h, &args);
          j.arr("got", v).kv("n", api ? 7 : o.h > 7 ? 7 : o.h).kv("args", args);
        } else {
          bool r = o.k == 'a' ? t->add(kHooks[o.h]) : t->remove(kHooks[o.h]);
          bool quiet = running == 1;
          j.kv("r", r).kv("size", t->size()).kv("empty", t->empty()).kv("quiet", quiet);
        }
        hist.push_back(j.str());
      }
      --running;
      --sched::g_quiet;
    });
  if (st) { sched::g_quiet = 0; sched::Run(std::move(fns), st); } else { for (auto& f : fns) f(); }
  return hist;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  vt::Rng g(atoll(argv[2])); long n = atol(argv[3]);
  vt::Trace t(argv[4]);
  std::unordered_set<std::string> seen;
  auto emit = [&](const std::vector<std::string>& h) {
    std::string all; for (auto& s : h) { all += s; all += '\n'; }
    if (seen.insert(all).second) { fwrite(all.data(), 1, all.size(), t.f); ++t.n; }
  };
  long execs = 0;
  if (mode == "seq") {
    for (long k = 0; k < n; ++k) {
      std::vector<Op> ops; int nh = 1 + g(8), add = 30 + g(50);
      for (int i = 10 + g(60); i > 0; --i) ops.push_back(g.chance(20) ? Op{'t', (int)(g.chance(60) ? 7 : g(8))} : g.chance(add) ? Op{'a', (int)(g.chance(3) ? 0 : 1 + g(nh))} : Op{'r', (int)(g.chance(3) ? 0 : 1 + g(nh))});
      ops.push_back({'t', 7});
      emit(RunHistory({ops}, nullptr, k % 3 == 2));
      ++execs;
    }
  } else {
    std::vector<Op> prefix;
    auto program = [&] {
      prefix.clear();
      if (g.chance(75)) for (int k = 1 + g(9); k > 0; --k) prefix.push_back(g.chance(80) ? Op{'a', (int)(1 + g(4))} : Op{'r', (int)(1 + g(4))});
      int th = 2 + g(2);
      std::vector<std::vector<Op>> p(th);
      int nh = 1 + g(4);
      for (int i = 0; i < th; ++i) for (int k = 1 + g(3); k > 0; --k)
        p[i].push_back(g.chance(40) ? Op{'t', 7} : g.chance(55) ? Op{'a', (int)(1 + g(nh))} : Op{'r', (int)(1 + g(nh))});
      return p;
    };
    if (mode == "rand") {
      for (long k = 0; k < n; ++k) {
        auto p = program();
        for (int r = 0; r < 20; ++r) {
          if (g.chance(50)) { sched::RandomStrategy s(g, 5 + g(60)); emit(RunHistory(p, &s, false, prefix)); }
          else { sched::PctStrategy s(g, p.size(), 1 + g(4), 60); emit(RunHistory(p, &s, false, prefix)); }
          ++execs;
        }
      }
    } else {
      // n programs, every schedule with at most 2 preemptions (capped)
      for (long k = 0; k < n; ++k) {
        auto p = program();
        sched::DfsStrategy s(2);
        for (long c = 0; c < 4000; ++c) { s.begin(); emit(RunHistory(p, &s, false, prefix)); ++execs; if (!s.next()) break; }
      }
    }
  }
  fprintf(stderr, "execs %ld distinct %ld\n", execs, t.n);
}
