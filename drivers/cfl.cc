// Conformance driver for the central free list and the spans it carves.
//   cfl <mode> <seed> <n> <trace>     mode: seq | conc | dfs
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/internal/util.h"
#include "vsched.h"
#include <map>
#include <memory>
#include <unordered_set>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
static constexpr int M = 2048;   // object id = span number * M + index
static std::vector<std::string>* H;
static size_t g_size, g_move; static Length g_pages;
static uint64_t g_now; static int g_fail;   // percentage of span requests that fail
static vt::Rng* g_rng;
struct Sp { Span* s; char* mem; int id; bool live; };
static std::vector<Sp> g_sp; static std::map<uintptr_t, int> g_at;   // last page -> index
static std::vector<std::vector<int>> g_hook[16];
static int Me() { return sched::Me() + 1; }
static std::vector<char*> g_free, g_all;

static int IdOf(void* p) {
  auto it = g_at.lower_bound((uintptr_t)p >> kPageShift); if (it == g_at.end()) return -1;
  Sp& s = g_sp[it->second]; if ((char*)p < s.mem) return -2;
  size_t off = (char*)p - s.mem; if (off % g_size || off / g_size >= M || off + g_size > g_pages.in_bytes()) return -3;
  return s.id * M + off / g_size;
}
static std::vector<int> Ids(absl::Span<void*> b) { std::vector<int> v; for (void* p : b) v.push_back(IdOf(p)); return v; }

struct Fwd {
  void InvokeInsertRangeHook(size_t, absl::Span<void*> b) { ++sched::g_quiet; g_hook[Me()].push_back(Ids(b)); --sched::g_quiet; }
  void InvokeRemoveRangeHook(size_t, absl::Span<void*> b) { ++sched::g_quiet; g_hook[Me()].push_back(Ids(b)); --sched::g_quiet; }
  uint64_t clock_now() const { return g_now; }
  double clock_frequency() const { return 64000; }
  size_t class_to_size(int) const { return g_size; }
  Length class_to_pages(int) const { return g_pages; }
  size_t num_objects_to_move(int) const { return g_move; }
  void MapObjectsToSpans(absl::Span<void*> b, Span** spans, int) {
    ++sched::g_quiet;
    for (size_t i = 0; i < b.size(); ++i) { auto it = g_at.lower_bound((uintptr_t)b[i] >> kPageShift); spans[i] = g_sp[it->second].s; }
    --sched::g_quiet;
    sched::Point();
  }
  Span* AllocateSpan(int, size_t per, Length pages) {
    sched::Point();
    ++sched::g_quiet;
    bool ok = !g_rng->chance(g_fail), args = pages == g_pages && per == g_pages.in_bytes() / g_size; Span* s = nullptr; int id = -1;
    if (ok) {
      char* m; size_t n = pages.in_bytes();
      if (!g_free.empty() && g_rng->chance(70)) { m = g_free.back(); g_free.pop_back(); } else { m = (char*)aligned_alloc(kPageSize, n); g_all.push_back(m); }
      memset(m, (int)(*g_rng)(256), n);
      s = new Span(Range(PageIdContaining(m), pages)); id = g_sp.size();
      g_sp.push_back({s, m, id, true}); g_at[((uintptr_t)m + n - 1) >> kPageShift] = id;
    }
    H->push_back(J().kv("op", "alloc").kv("t", Me()).kv("ok", ok).kv("args", args).kv("s", id).kv("now", g_now / 64).str());
    --sched::g_quiet;
    sched::Point();
    return s;
  }
  void DeallocateSpans(size_t per, absl::Span<Span*> fs) {
    sched::Point();
    ++sched::g_quiet;
    std::vector<int> v;
    for (Span* s : fs) {
      int id = -1; for (auto& x : g_sp) if (x.live && x.s == s) id = x.id;
      v.push_back(id); if (id < 0) continue;
      Sp& x = g_sp[id]; x.live = false; g_free.push_back(x.mem); g_at.erase(((uintptr_t)x.mem + g_pages.in_bytes() - 1) >> kPageShift);
      memset(x.mem, 0xee, g_pages.in_bytes());
    }
    H->push_back(J().kv("op", "dead").kv("t", Me()).kv("args", per == g_pages.in_bytes() / g_size).arr("s", v).kv("now", g_now / 64).str());
    --sched::g_quiet;
  }
};
using CFL = central_freelist_internal::CentralFreeList<Fwd>;

// What an owner writes into its block.
static unsigned char Mark(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
static void Fill(char* p, int id) { size_t n = g_size; for (size_t i = 0; i < n; ++i) { if (i == 48 && n > 96) i = n - 48; p[i] = Mark(id, i); } }
static bool Intact(char* p, int id) { size_t n = g_size; for (size_t i = 0; i < n; ++i) { if (i == 48 && n > 96) i = n - 48; if ((unsigned char)p[i] != Mark(id, i)) return false; } return true; }

// the numbers that follow "<bound> <separator>" in one line of a report
static std::vector<long> Values(const char* text, const char* marker) {
  std::vector<long> all, v; const char* p = strstr(text, marker); if (!p) return v; p += strlen(marker);
  for (; *p && *p != '\n'; ++p) if (*p >= '0' && *p <= '9') { char* e; all.push_back(strtol(p, &e, 10)); p = e - 1; }
  return all;
}
static std::vector<long> Pick(const std::vector<long>& a, size_t from, size_t step) { std::vector<long> v; for (size_t i = from; i < a.size(); i += step) v.push_back(a[i]); return v; }

struct World {
  CFL c; std::vector<std::string>& h; vt::Rng& g; std::vector<std::vector<void*>> own;
  World(std::vector<std::string>& h, vt::Rng& g, int threads, bool conc) : h(h), g(g), own(threads + 1) {
    c.Init(1);
    size_t bytes = g_pages.in_bytes();
    h.push_back(J().kv("op", "reset").kv("k", bytes / g_size).kv("waste", bytes % g_size).kv("conc", conc).kv("move", g_move).str());
  }
  ~World() { }
  void ins(int t, std::vector<void*> b, bool conc) {
    if (b.empty()) return;
    bool intact = true; std::vector<int> ids; for (void* p : b) { ids.push_back(IdOf(p)); intact = intact && Intact((char*)p, IdOf(p)); }
    // freed memory may be written by the allocator only
    for (void* p : b) if (g.chance(50)) memset(p, (int)g(256), std::min<size_t>(g_size, 256));
    size_t at = h.size(); h.push_back(J().kv("op", "ins").kv("t", t).arr("ids", ids).kv("intact", intact).str()); g_hook[t].clear();
    if (conc) --sched::g_quiet;
    c.InsertRange(absl::MakeSpan(b));
    if (conc) ++sched::g_quiet;
    bool hook = g_hook[t].size() == 1 && g_hook[t][0] == ids;
    h.push_back(J().kv("op", "insret").kv("t", t).kv("hook", hook).str()); (void)at;
  }
  void rem(int t, int n, bool conc) {
    std::vector<void*> b(n, nullptr); g_hook[t].clear();
    h.push_back(J().kv("op", "rem").kv("t", t).kv("n", n).str());
    if (conc) --sched::g_quiet;
    int k = c.RemoveRange(absl::MakeSpan(b));
    if (conc) ++sched::g_quiet;
    std::vector<void*> got(b.begin(), b.begin() + std::max(0, std::min(k, n)));
    std::vector<int> ids = Ids(absl::MakeSpan(got));
    bool hook = g_hook[t].size() == 1 && g_hook[t][0] == ids;
    h.push_back(J().kv("op", "remret").kv("t", t).kv("k", k).arr("ids", ids).kv("hook", hook).str());
    for (size_t i = 0; i < got.size(); ++i) if (ids[i] >= 0) { Fill((char*)got[i], ids[i]); own[t].push_back(got[i]); }
  }
  std::vector<void*> take(int t, int n, int how) {   // some of the thread's objects
    auto& o = own[t]; std::vector<void*> b; if (o.empty()) return b;
    if (how == 0) for (int i = 0; i < n && !o.empty(); ++i) { b.push_back(o.back()); o.pop_back(); }
    else if (how == 1) for (int i = 0; i < n && !o.empty(); ++i) { size_t k = g(o.size()); b.push_back(o[k]); o[k] = o.back(); o.pop_back(); }
    else { // one span's objects
      int s = IdOf(o[g(o.size())]) / M; std::vector<void*> rest; for (void* p : o) if ((int)b.size() < n && IdOf(p) / M == s) b.push_back(p); else rest.push_back(p); o = rest; }
    return b;
  }
  void state(bool text) {
    std::vector<int> lists, hist, sp, out, ix;
    for (size_t i = 0; i < central_freelist_internal::kNumLists; ++i) lists.push_back(c.NumSpansInList(i));
    for (int i = 1; i <= 16; ++i) hist.push_back(c.NumSpansWith(i));
    for (auto& s : g_sp) if (s.live) { sp.push_back(s.id); out.push_back(s.s->Allocated()); ix.push_back(s.s->nonempty_index()); }
    auto s = c.GetSpanStats();
    J j; j.kv("op", "state").kv("len", c.length()).kv("over", c.OverheadBytes()).kv("req", s.num_spans_requested).kv("ret", s.num_spans_returned).kv("cap", s.obj_capacity)
      .kv("live", s.num_live_spans()).arr("lists", lists).arr("hist", hist).arr("sp", sp).arr("out", out).arr("ix", ix).kv("now", g_now / 64).kv("text", text);
    if (text) {
      static char buf[1 << 16];
      auto print = [&](auto f) { memset(buf, 0, sizeof(buf)); Printer p(buf, sizeof(buf)); f(p); };
      print([&](Printer& p) { c.PrintSpanLifetimeStats(p); });
      j.arr("lifelive", Pick(Values(buf, "live spans:"), 1, 2)).arr("lifedone", Pick(Values(buf, "completed spans:"), 1, 2));
      print([&](Printer& p) { c.PrintNumSpansUsed(p); });
      j.arr("used", Pick(Values(buf, "] :"), 1, 2));
      print([&](Printer& p) { c.PrintSameSpanStats(p); });
      j.arr("same", Values(buf, "] :"));
    }
    h.push_back(j.str());
  }
};
static void Setup(vt::Rng& g, bool small) {
  static const struct { int size, pages; } T[] = {{8, 1}, {16, 1}, {24, 1}, {32, 1}, {40, 1}, {48, 1}, {64, 1}, {80, 1}, {128, 1}, {176, 1}, {512, 1}, {704, 1}, {1024, 1}, {1152, 2}, {2048, 1}, {2688, 2}, {3072, 3},
    {4096, 1}, {5376, 2}, {6784, 5}, {8192, 1}, {9472, 5}, {13568, 5}, {16384, 2}, {16384, 4}, {32768, 4}, {32768, 8}, {65536, 16}, {73728, 9}, {262144, 32}};
  auto t = T[small ? 14 + g(5) : g.chance(30) ? g(5) : g(sizeof(T) / sizeof(T[0]))];
  if (small && g.chance(30)) t = T[g.chance(50) ? 23 : 27];
  g_size = t.size; g_pages = Length(t.pages);
  g_move = 2 + g(t.size <= 1024 ? 31 : 7);
  for (char* p : g_all) free(p); g_all.clear(); g_free.clear();
  for (auto& s : g_sp) delete s.s; g_sp.clear(); g_at.clear(); g_now = 64 * 1000000ull; g_fail = g.chance(25) ? 1 + (int)g(50) : 0; g_rng = &g;
}
static void Seq(vt::Rng& g, std::vector<std::string>& h) {
  Setup(g, false); World w(h, g, 0, false); w.state(true);
  int bias = 50 + g(40), per = g_pages.in_bytes() / g_size, limit = std::max(2000, per * 3); if (g_pages.in_bytes() > 60000) limit = 60;
  for (int i = 60 + g(120); i > 0; --i) {
    if (g.chance(8)) bias = 20 + g(70);
    int mx = g.chance(60) ? (int)g_move : 128, n = g.chance(50) ? mx : 1 + (int)g(mx);
    if ((int)g(100) < bias && (int)w.own[0].size() < limit) for (int r = g.chance(20) ? g(30) : 1; r > 0 && (int)w.own[0].size() < limit; --r) w.rem(0, n, false);
    else { int how = g(3); for (int r = g.chance(20) ? g(30) : 1; r > 0; --r) w.ins(0, w.take(0, n, how), false); }
    if (g.chance(40)) g_now += 64 * (g.chance(50) ? g(3) : g.chance(50) ? g(200) : g(200000));
    w.state(g.chance(10) || i == 1);
  }
  while (!w.own[0].empty()) w.ins(0, w.take(0, 128, g(2)), false);
  w.state(true);
}

static void Quiet(const char*, int) {}
int main(int argc, char** argv) {
  log_message_writer = Quiet;   // span requests are made to fail on purpose
  std::string mode = argv[1]; vt::Rng g(atoll(argv[2])); long n = atol(argv[3]); vt::Trace t(argv[4]);
  std::unordered_set<std::string> seen; long execs = 0;
  auto emit = [&](std::vector<std::string>& h) { ++execs; std::string all; for (auto& s : h) { all += s; all += '\n'; } if (seen.insert(all).second) { fwrite(all.data(), 1, all.size(), t.f); ++t.n; } };
  for (long q = 0; q < n; ++q) {
    if (mode == "seq") { std::vector<std::string> h; H = &h; Seq(g, h); emit(h); continue; }
    int th = 2 + g(2); struct Op { char k; int n, how; }; std::vector<std::vector<Op>> prog(th);
    for (int i = 0; i < th; ++i) for (int k = 1 + g(4); k > 0; --k) prog[i].push_back({g.chance(55) ? 'i' : 'r', 1 + (int)g(4), (int)g(3)});
    int pre = g(14); bool plain = g.chance(40);
    auto run = [&](sched::Strategy* st, bool pl) {
      std::vector<std::string> h; H = &h; vt::Rng gg(atoll(argv[2]) * 977 + q); Setup(gg, true); World w(h, gg, th, true);
      for (int k = 0; k < pre; ++k) { w.rem(0, 1 + gg(3), false); if (gg.chance(30)) w.ins(0, w.take(0, 1 + gg(3), 1), false); }
      w.state(false);
      for (size_t i = 0; i < w.own[0].size(); ++i) w.own[1 + i % th].push_back(w.own[0][i]);
      w.own[0].clear();
      std::vector<std::function<void()>> fns;
      for (int i = 0; i < th; ++i) fns.push_back([&, i] { ++sched::g_quiet; for (Op o : prog[i]) if (o.k == 'i') w.ins(i + 1, w.take(i + 1, o.n, o.how), true); else w.rem(i + 1, o.n, true); --sched::g_quiet; });
      sched::g_quiet = 0; sched::Run(std::move(fns), st, pl);
      w.state(true);
      for (int i = 1; i <= th; ++i) { w.own[0].insert(w.own[0].end(), w.own[i].begin(), w.own[i].end()); w.own[i].clear(); }
      w.rem(0, 5, false); w.state(false); while (!w.own[0].empty()) w.ins(0, w.take(0, 7, 1), false); w.state(true); emit(h);
    };
    if (mode == "conc") for (int r = 0; r < 15; ++r) {
      if (g.chance(50)) { sched::RandomStrategy s(g, 3 + g(50)); run(&s, plain); } else { sched::PctStrategy s(g, th, 1 + g(4), plain ? 400 : 100); run(&s, plain); }
    } else { sched::DfsStrategy s(2); for (int c = 0; c < 1000; ++c) { s.begin(); run(&s, false); if (!s.next()) break; } }
  }
  fprintf(stderr, "execs %ld distinct %ld\n", execs, t.n);
}
