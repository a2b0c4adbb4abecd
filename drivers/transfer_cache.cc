// Conformance driver for the transfer cache, its resizing and its sharded manager.
//   transfer_cache <mode> <seed> <n> <trace>     mode: seq | shard | conc | dfs
#include "tcmalloc/transfer_cache.h"
#include "tcmalloc/transfer_cache_internals.h"
#include "vsched.h"
#include <map>
#include <memory>
#include <set>
#include <unordered_set>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

// The one parameter resizing looks at.
static HeapPartitioningMode g_mode = HeapPartitioningMode::kOff;
GOOGLE_MALLOC_SECTION_BEGIN
namespace tcmalloc::tcmalloc_internal { HeapPartitioningMode Parameters::heap_partitioning_mode() { return g_mode; } }
GOOGLE_MALLOC_SECTION_END

static std::vector<std::string>* H;
static int g_size[kNumClasses], g_batch[kNumClasses];
static int g_next;                     // fresh objects of the next tier
static int g_fresh;                    // how many more it may create
struct FlEv { int sc; std::vector<int> ids; };
static std::vector<FlEv>* g_collect;   // when set, insertions into the next tier are collected here
static int Id(void* p) { return (int)((uintptr_t)p / 64); }
static void* Ptr(int id) { return (void*)((uintptr_t)id * 64); }
static std::vector<int> Ids(absl::Span<void*> b) { std::vector<int> v; for (void* p : b) v.push_back(Id(p)); return v; }
static std::map<int, std::vector<void*>> g_fl;
static std::vector<int> g_flout[16];   // per thread: what the next tier supplied during the operation
static std::vector<std::vector<int>> g_flin[16];

struct Fl {
  int sc = -1;
  void Init(int c) { sc = c; }
  int size_class() const { return sc; }
  void InsertRange(absl::Span<void*> b) {
    ++sched::g_quiet;
    int t = sched::Me() + 1;
    for (void* p : b) g_fl[sc].push_back(p);
    if (g_collect) g_collect->push_back({sc, Ids(b)});
    else { g_flin[t].push_back(Ids(b)); H->push_back(J().kv("op", "flin").kv("t", t).kv("sc", sc).arr("ids", Ids(b)).str()); }
    --sched::g_quiet;
  }
  [[nodiscard]] int RemoveRange(absl::Span<void*> b) {
    ++sched::g_quiet;
    int t = sched::Me() + 1; size_t n = 0; auto& v = g_fl[sc];
    while (n < b.size()) {
      if (!v.empty()) { b[n++] = v.back(); v.pop_back(); }
      else if (g_fresh > 0) { --g_fresh; b[n++] = Ptr(++g_next); }
      else break;
    }
    g_flout[t] = Ids(b.subspan(0, n));
    H->push_back(J().kv("op", "flout").kv("t", t).kv("sc", sc).kv("n", b.size()).arr("ids", g_flout[t]).str());
    g_flout[t].push_back(-1);   // marks that the next tier was asked
    --sched::g_quiet;
    return n;
  }
};
struct Mgr {
  static constexpr size_t kNumBaseClasses = 4, kNumClasses = 12, kNormalPartitions = 2, kSecurityPartitions = 2, kExpandedClassesStart = 8;
  static constexpr bool kHasExpandedClasses = true;
  static constexpr int kMaxSizeClassesToResize = 2;
  using TC = internal_transfer_cache::TransferCache<Fl, Mgr>;
  std::vector<std::unique_ptr<char[]>> mem; std::vector<std::unique_ptr<TC>> tc;
  static size_t class_to_size(int c) { return g_size[c]; }
  static size_t num_objects_to_move(int c) { return g_batch[c]; }
  void* Alloc(size_t n, std::align_val_t a = std::align_val_t(8)) { ++sched::g_quiet; mem.emplace_back(new char[n + 256]); --sched::g_quiet; uintptr_t p = (uintptr_t)mem.back().get(); size_t al = (size_t)a; return (void*)((p + al - 1) / al * al); }
  size_t FetchCommitIntervalMisses(int c) { return tc[c]->FetchCommitIntervalMisses(); }
  bool CanIncreaseCapacity(int c) { return tc[c]->CanIncreaseCapacity(c); }
  bool ShrinkCache(int c) { return tc[c]->ShrinkCache(c); }
  bool IncreaseCacheCapacity(int c) { return tc[c]->IncreaseCacheCapacity(c); }
  static bool large, generic;
  static void Init() {}
  static bool UseGenericCache() { return generic; }
  static bool EnableCacheForLargeClassesOnly() { return large; }
};
bool Mgr::large, Mgr::generic;
using TC = Mgr::TC;
struct Layout { unsigned shards = 1; int cpu = 0; unsigned NumShards() { return shards; } int CurrentCpu() { return cpu; } unsigned CpuShard(int c) { return c % shards; } };
using Sharded = ShardedTransferCacheManagerBase<Mgr, Layout, Fl>;

static J& Stats(J& j, const TransferCacheStats& s) {
  return j.kv("ih", s.insert_hits).kv("im", s.insert_misses).kv("io", s.insert_object_misses).kv("rh", s.remove_hits).kv("ro", s.remove_object_hits)
      .kv("rm", s.remove_misses).kv("rmo", s.remove_object_misses).kv("used", s.used).kv("cap", s.capacity).kv("max", s.max_capacity);
}
static void ResetGlobals() { g_fl.clear(); g_next = 0; for (auto& v : g_flout) v.clear(); for (auto& v : g_flin) v.clear(); g_collect = nullptr; }

struct Op { char k; int x; };
struct World1 {
  Mgr m; std::vector<std::string>& h; std::vector<std::vector<std::vector<int>>> mine;  // [thread][cache] objects
  int ncache; vt::Rng& g;
  Sharded* sh = nullptr; Layout* lay = nullptr; int nclass = 0;
  World1(std::vector<std::string>& h, int n, int threads, vt::Rng& g) : h(h), ncache(n), g(g) { mine.assign(threads + 1, std::vector<std::vector<int>>(n)); }
  // which: cache index; in sharded worlds cpu and class select it
  void one(int t, Op o, int c, bool conc, int cpu = 0) {
    int sc = sh ? c % nclass : c;
    auto call = [&](J j) { size_t at = h.size(); h.push_back(j.kv("t", t).kv("c", c + 1).str()); g_flin[t].clear(); g_flout[t].clear(); if (lay) lay->cpu = cpu; if (conc) --sched::g_quiet; return at; };
    auto back = [&] { if (conc) ++sched::g_quiet; };
    auto patch = [&](size_t at, const char* k, const std::string& v) { std::string& s = h[at]; s.pop_back(); s += std::string(",\"") + k + "\":" + v + "}"; };
    auto ret = [&] { h.push_back(J().kv("op", "ret").kv("t", t).str()); };
    auto& own = mine[t][c];
    if (o.k == 'i') {
      int n = o.x; if ((int)own.size() < n) n = own.size();
      if (n == 0) { return; }
      std::vector<int> ids(own.end() - n, own.end()); own.resize(own.size() - n);
      std::vector<void*> b; for (int i : ids) b.push_back(Ptr(i));
      size_t at = call(J().kv("op", "ins").arr("ids", ids));
      if (sh) {
#ifdef NDEBUG
        if (n == 1 && ids[0] % 2) sh->Push(sc, b[0]); else
#endif
        sh->InsertRange(sc, absl::MakeSpan(b)); }
      else m.tc[c]->InsertRange(c, absl::MakeSpan(b));
      back();
      std::set<int> rest; for (auto& v : g_flin[t]) rest.insert(v.begin(), v.end());
      std::vector<int> kept; for (int i : ids) if (!rest.count(i)) kept.push_back(i);
      patch(at, "kept", vt::Nums(kept)); ret();
    } else if (o.k == 'r') {
      std::vector<void*> b(o.x);
      size_t at = call(J().kv("op", "rem").kv("n", o.x));
      int got;
      if (sh) {
#ifdef NDEBUG
        if (o.x == 1 && cpu % 2) { b[0] = sh->Pop(sc); got = b[0] != nullptr; } else
#endif
        got = sh->RemoveRange(sc, absl::MakeSpan(b)); }
      else got = m.tc[c]->RemoveRange(c, absl::MakeSpan(b));
      back();
      std::vector<int> ids; for (int i = 0; i < got && i < o.x; ++i) ids.push_back(Id(b[i]));
      patch(at, "got", vt::Nums(ids)); patch(at, "k", std::to_string(got)); patch(at, "hit", g_flout[t].empty() ? "true" : "false"); ret();
      own.insert(own.end(), ids.begin(), ids.end());
    } else if (o.k == 'p') {
      size_t at = call(J().kv("op", "plu")); m.tc[c]->TryPlunder(c); back();
      std::vector<std::string> v; for (auto& x : g_flin[t]) v.push_back(vt::Nums(x));
      patch(at, "bat", vt::Arr(v)); ret();
    } else if (o.k == 's') {
      size_t at = call(J().kv("op", "shr")); bool ok = m.tc[c]->ShrinkCache(c); back();
      std::vector<int> ev; for (auto& x : g_flin[t]) ev.insert(ev.end(), x.begin(), x.end());
      patch(at, "ok", ok ? "true" : "false"); patch(at, "ev", vt::Nums(ev)); ret();
    } else if (o.k == 'g') {
      size_t at = call(J().kv("op", "gro")); bool ok = m.tc[c]->IncreaseCacheCapacity(c); back();
      patch(at, "ok", ok ? "true" : "false"); ret();
    }
  }
  void state(int c) {
    auto s = m.tc[c]->GetStats(); auto i = m.tc[c]->GetSlotInfo();
    J j; j.kv("op", "state").kv("c", c + 1); Stats(j, s);
    h.push_back(j.kv("len", m.tc[c]->tc_length()).kv("sused", i.used).kv("scap", i.capacity).kv("mx", m.tc[c]->max_capacity())
      .kv("can", m.tc[c]->CanIncreaseCapacity(c)).kv("spare", m.tc[c]->HasSpareCapacity(c)).str());
  }
};
static void Config(std::vector<std::string>& h, int n, const char* kind, bool lazy, int shards, int nclass, int fresh) {
  std::vector<std::string> v; for (int c = 0; c < n; ++c) v.push_back(J().kv("size", g_size[c % nclass]).kv("b", g_batch[c % nclass]).kv("sc", c % nclass).str());
  h.push_back(J().kv("op", "reset").raw("caches", vt::Arr(v)).kv("kind", kind).kv("lazy", lazy).kv("shards", shards).kv("fresh", fresh).str());
}

static void Seq(vt::Rng& g, std::vector<std::string>& h) {
  ResetGlobals();
  const int n = 12; static const int sizes[] = {8, 64, 1024, 4096, 32768, 65536, 262144, 131072, 400000};
  for (int c = 0; c < n; ++c) { g_size[c] = sizes[g(9)]; g_batch[c] = g_size[c] <= 64 ? 2 + g(5) : g_size[c] <= 4096 ? 2 + g(4) : 2 + g(2); if (g.chance(8) || c == 0) g_size[c] = g_batch[c] = 0; }
  int fresh = g.chance(25) ? g(60) : 100000; g_fresh = fresh;
  World1 w(h, n, 0, g); Config(h, n, "plain", false, 1, n, fresh);
  for (int c = 0; c < n; ++c) w.m.tc.emplace_back(new TC(&w.m, c));
  for (int c = 0; c < n; ++c) w.state(c);
  int foc = g(n), bias = g(3);
  for (int i = 150 + g(200); i > 0; --i) {
    int c = g.chance(60) ? foc : g(n); if (g.chance(4)) { foc = g(n); bias = g(3); }
    int b = g_batch[c] ? g_batch[c] : 2; int x = g(100);
    int amount = g.chance(70) ? b : g.chance(80) ? 1 + (int)g(2 * b) : 1 + (int)g(100);
    int ins = bias == 0 ? 34 : bias == 1 ? 50 : 20;
    if (x < ins) { if ((int)w.mine[0][c].size() < amount) w.one(0, {'r', amount}, c, false); w.one(0, {'i', amount}, c, false); }
    else if (x < 70) w.one(0, {'r', amount}, c, false);
    else if (x < 78) w.one(0, {'p', 0}, c, false);
    else if (x < 86) w.one(0, {'s', 0}, c, false);
    else if (x < 92) w.one(0, {'g', 0}, c, false);
    else if (x < 95) { size_t v = w.m.FetchCommitIntervalMisses(c); h.push_back(J().kv("op", "commit").kv("c", c + 1).kv("v", v).str()); }
    else {
      std::vector<FlEv> ev; g_collect = &ev; g_mode = g.chance(50) ? HeapPartitioningMode::kOff : g.chance(50) ? (HeapPartitioningMode)1 : (HeapPartitioningMode)2;
      internal_transfer_cache::TryResizingCaches(w.m); g_collect = nullptr;
      std::vector<std::string> l;
      for (int k = 0; k < n; ++k) { std::vector<int> out; for (auto& q : ev) if (q.sc == k) out.insert(out.end(), q.ids.begin(), q.ids.end()); l.push_back(J().kv("cap", w.m.tc[k]->GetSlotInfo().capacity).arr("ev", out).str()); }
      h.push_back(J().kv("op", "resize").kv("maxr", Mgr::kMaxSizeClassesToResize).kv("base", (int)Mgr::kNumBaseClasses).arr("groups", g_mode == HeapPartitioningMode::kOff ? std::vector<int>{1, 9} : std::vector<int>{1, 5, 9}).raw("r", vt::Arr(l)).str());
      for (int k = 0; k < n; ++k) w.state(k);
      continue;
    }
    w.state(c);
  }
}
static void Shard(vt::Rng& g, std::vector<std::string>& h) {
  ResetGlobals();
  const int nclass = 6; static const int sizes[] = {8, 1024, 4095, 4096, 262144, 131072, 524288, 1048576};
  for (int c = 0; c < (int)kNumClasses; ++c) g_size[c] = g_batch[c] = 0;
  for (int c = 1; c < nclass; ++c) { g_size[c] = sizes[g(8)]; g_batch[c] = 2 + g(3); }
  int mode = g(4); Mgr::large = mode & 1; Mgr::generic = mode & 2;
  Layout lay; lay.shards = 1 + g(5); int fresh = 100000; g_fresh = fresh;
  const char* kind = Mgr::generic ? (Mgr::large || lay.shards >= 3 ? "generic" : "off") : Mgr::large ? "large" : "off";
  int n = nclass * lay.shards;
  World1 w(h, n, 0, g); Config(h, n, kind, true, lay.shards, nclass, fresh);
  Sharded sh(&w.m, &lay); sh.Init(); w.sh = &sh; w.lay = &lay; w.nclass = nclass;
  auto state = [&] {
    std::vector<int> len, init; std::vector<std::string> st; std::vector<int> tot, use;
    for (int c = 0; c < n; ++c) len.push_back(sh.tc_length(c / nclass + lay.shards * g(3), c % nclass));
    for (unsigned s = 0; s < lay.shards; ++s) init.push_back(sh.shard_initialized(s));
    for (int c = 0; c < nclass; ++c) { J j; Stats(j, sh.GetStats(c)); st.push_back(j.str()); tot.push_back(sh.TotalObjectsOfClass(c)); use.push_back(sh.should_use(c)); }
    h.push_back(J().kv("op", "sstate").arr("len", len).arr("init", init).raw("st", vt::Arr(st)).arr("tot", tot).arr("use", use).kv("bytes", sh.TotalBytes()).kv("active", sh.NumActiveShards()).str());
  };
  state();
  int foc = 1 + g(nclass - 1), ins = 30 + g(30);
  for (int i = 100 + g(150); i > 0; --i) {
    if (g.chance(4)) { foc = 1 + g(nclass - 1); ins = 30 + g(30); }
    int c = g.chance(60) ? foc : 1 + g(nclass - 1), s = g.chance(50) ? 0 : g(lay.shards), cpu = s + lay.shards * g(3), x = g(100);
    int amount = g.chance(60) ? 1 + (int)g(g_batch[c]) : 1 + (int)g(20);
    int idx = s * nclass + c;
    if (x < ins) { if ((int)w.mine[0][idx].size() < amount) w.one(0, {'r', amount}, idx, false, cpu);
      auto& own = w.mine[0][idx]; w.one(0, {'i', amount}, idx, false, cpu); (void)own; }
    else if (x < 85) { w.one(0, {'r', amount}, idx, false, cpu);
      // objects may be returned on another shard
      if (g.chance(50)) { auto& own = w.mine[0][idx]; int to = g(lay.shards) * nclass + c; if (to != idx && !own.empty()) { h.push_back(J().kv("op", "move").kv("from", idx + 1).kv("to", to + 1).arr("ids", own).str()); auto& d = w.mine[0][to]; d.insert(d.end(), own.begin(), own.end()); own.clear(); } } }
    else {
      std::vector<FlEv> ev; g_collect = &ev; sh.Plunder(); g_collect = nullptr;
      std::vector<std::string> l; for (auto& q : ev) l.push_back(J().kv("sc", q.sc).arr("ids", q.ids).str());
      h.push_back(J().kv("op", "plall").raw("bat", vt::Arr(l)).str());
    }
    state();
  }
}

int main(int argc, char** argv) {
  std::string mode = argv[1]; vt::Rng g(atoll(argv[2])); long n = atol(argv[3]); vt::Trace t(argv[4]);
  std::unordered_set<std::string> seen; long execs = 0;
  auto emit = [&](std::vector<std::string>& h) { ++execs; std::string all; for (auto& s : h) { all += s; all += '\n'; } if (seen.insert(all).second) { fwrite(all.data(), 1, all.size(), t.f); ++t.n; } };
  for (long q = 0; q < n; ++q) {
    if (mode == "seq" || mode == "shard") { std::vector<std::string> h; H = &h; mode == "seq" ? Seq(g, h) : Shard(g, h); emit(h); continue; }
    int th = 2 + g(2); std::vector<std::vector<Op>> prog(th); std::vector<Op> pre;
    // capacity is made small by the class size: 1 to 4 batches
    int b = 2 + g(2), batches = 1 + g(4);
    for (int i = 2 + g(6); i > 0; --i) { int x = g(10); pre.push_back(x < 5 ? Op{'i', b} : x < 7 ? Op{'r', b} : x < 8 ? Op{'s', 0} : x < 9 ? Op{'g', 0} : Op{'p', 0}); }
    for (int i = 0; i < th; ++i) for (int k = 1 + g(3); k > 0; --k) { int x = g(100);
      prog[i].push_back(x < 32 ? Op{'i', 1 + (int)g(2 * b)} : x < 60 ? Op{'r', 1 + (int)g(2 * b)} : x < 78 ? Op{'p', 0} : x < 92 ? Op{'s', 0} : Op{'g', 0}); }
    bool plain = g.chance(40); 
    auto run = [&](sched::Strategy* st, bool pl) {
      std::vector<std::string> h; H = &h; ResetGlobals(); g_fresh = 100000; g_size[0] = (1 << 20) / (b * batches) - 8; g_batch[0] = b;
      vt::Rng gg(q); World1 w(h, 1, th, gg); Config(h, 1, "plain", false, 1, 1, 100000);
      g_size[1] = g_size[0]; g_batch[1] = g_batch[0];   // class 0 is never cached, so its capacity is asked for as class 1
      w.m.tc.emplace_back(new TC(&w.m, 0, TC::CapacityNeeded(1)));
      for (int i = 0; i <= th; ++i) w.one(0, {'r', 3 * b}, 0, false);
      for (Op o : pre) w.one(0, o, 0, false);
      w.state(0);
      { auto all = w.mine[0][0]; w.mine[0][0].clear(); for (size_t i = 0; i < all.size(); ++i) w.mine[1 + i % th][0].push_back(all[i]); }
      std::vector<std::function<void()>> fns;
      for (int i = 0; i < th; ++i) fns.push_back([&, i] { ++sched::g_quiet; for (Op o : prog[i]) w.one(i + 1, o, 0, true); --sched::g_quiet; });
      sched::g_quiet = 0; sched::Run(std::move(fns), st, pl);
      w.state(0); w.one(0, {'p', 0}, 0, false); w.one(0, {'p', 0}, 0, false); w.state(0); w.one(0, {'r', 40}, 0, false); w.state(0); emit(h);
    };
    if (mode == "conc") for (int r = 0; r < 15; ++r) {
      if (g.chance(50)) { sched::RandomStrategy s(g, 3 + g(50)); run(&s, plain); } else { sched::PctStrategy s(g, th, 1 + g(4), plain ? 300 : 80); run(&s, plain); }
    } else { sched::DfsStrategy s(2); for (int c = 0; c < 1500; ++c) { s.begin(); run(&s, false); if (!s.next()) break; } }
  }
  fprintf(stderr, "execs %ld distinct %ld\n", execs, t.n);
}
