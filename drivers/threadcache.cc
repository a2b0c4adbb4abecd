// Conformance driver for the caches of threads.
//   threadcache <seed> <events> <trace>
// The program itself uses per-CPU caches; the threads here use their own caches through ThreadCache.
#include <pthread.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <random>
#include <set>
#include <thread>
#include <vector>
#include "tcmalloc/cpu_cache.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
#include "tcmalloc/thread_cache.h"
#include "tcmalloc/transfer_cache.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
using vt::J;

enum Cmd { kNone, kAlloc, kFree, kIdle, kExit };
struct Worker {
  pthread_t th; std::mutex m; std::condition_variable cv; Cmd cmd = kNone; size_t cl = 0; void* p = nullptr; bool up = false;
  static void* Main(void* a) {
    Worker* w = static_cast<Worker*>(a);
    for (;;) {
      std::unique_lock<std::mutex> l(w->m);
      w->cv.wait(l, [&] { return w->cmd != kNone; });
      Cmd c = w->cmd;
      if (c == kAlloc) { w->p = ThreadCache::GetCache()->Allocate(w->cl); if (w->p) memset(w->p, 0xa5, 64); }
      else if (c == kFree) ThreadCache::GetCache()->Deallocate(w->p, w->cl);
      else if (c == kIdle) ThreadCache::BecomeIdle();
      w->cmd = kNone; w->cv.notify_all();
      if (c == kExit) return nullptr;
    }
  }
  void Do(Cmd c) {
    if (!up) { if (pthread_create(&th, nullptr, Main, this)) exit(2); up = true; }
    { std::unique_lock<std::mutex> l(m); cmd = c; cv.notify_all(); cv.wait(l, [&] { return cmd == kNone; }); }
    if (c == kExit) { pthread_join(th, nullptr); up = false; }
  }
};
int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(100);
  (void)malloc(1);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  FILE* f = fopen(v[3], "w"); if (!f) return 2;
  static char buf[1 << 16]; setvbuf(f, buf, _IOFBF, sizeof(buf));
  MallocExtension::SetProfileSamplingInterval(0);
  if (!UsePerCpuCache(tc_globals)) { fprintf(stderr, "no per-CPU caches\n"); return 2; }
  // Little to go around and large objects in one history of three: budgets are taken from one another and run out.
  bool tight = seed % 3 == 0;
  auto& sm = tc_globals.sizemap();
  // Classes the program itself does not use.
  int nc = 1 + R(3); std::vector<size_t> cls;
  while ((int)cls.size() < nc) {
    size_t k = 1 + R(kNumBaseClasses - 1), z = sm.class_to_size(k);
    if (z < (tight ? 5000 : 600) || z == 1024 || z == 2048 || z == 4096 || z == 8192 || (z & (z - 1)) == 0 || sm.class_to_pages(k).in_bytes() < 2 * z || (R(4) && z > 40000)) continue;
    if (std::find(cls.begin(), cls.end(), k) == cls.end()) cls.push_back(k);
  }
  std::vector<long long> sz, ba; for (auto k : cls) { sz.push_back(sm.class_to_size(k)); ba.push_back(sm.num_objects_to_move(k)); }
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); };
  auto Put = [&](J& j) -> J& {
    static uint64_t cc[kNumClasses]; std::fill(cc, cc + kNumClasses, 0); uint64_t b = 0;
    ThreadCache::GetStats(&b, cc);
    std::vector<long long> n; for (auto k : cls) { n.push_back(cc[k]); cc[k] = 0; }
    uint64_t other = 0; for (auto x : cc) other += x;
    return j.kv("bytes", (long long)b).kv("other", (long long)other).raw("count", vt::Nums(n));
  };
  std::vector<long long> base(nc);
  auto Made = [&](int i) { return (long long)tc_globals.central_freelist(cls[i]).GetSpanStats().obj_capacity; };
  auto Shared = [&](int i) { return (long long)(tc_globals.central_freelist(cls[i]).length() + tc_globals.transfer_cache().tc_length(cls[i]) + tc_globals.cpu_cache().TotalObjectsOfClass(cls[i])); };
  for (int i = 0; i < nc; ++i) { static uint64_t cc[kNumClasses]; std::fill(cc, cc + kNumClasses, 0); uint64_t b = 0; ThreadCache::GetStats(&b, cc); base[i] = Made(i) - Shared(i) - (long long)cc[cls[i]]; }
  std::vector<long long> used(nc);
  auto Sums = [&] {
    std::vector<long long> m, s, u; for (int i = 0; i < nc; ++i) { m.push_back(Made(i)); s.push_back(Shared(i)); u.push_back(base[i] + used[i]); }
    J j; j.kv("op", "sums").raw("made", vt::Nums(m)).raw("shared", vt::Nums(s)).raw("used", vt::Nums(u)); W(Put(j));
  };
  { J j; j.kv("op", "init").kv("steal", kStealAmount).kv("minc", kMinThreadCacheSize).kv("maxc", kMaxThreadCacheSize).kv("maxover", kMaxOverages).kv("maxlen", (long long)kMaxDynamicFreeListLength).kv("total", kDefaultOverallThreadCacheSize).raw("size", vt::Nums(sz)).raw("batch", vt::Nums(ba)); W(Put(j)); }
  size_t total = kDefaultOverallThreadCacheSize;
  // What the main thread allocated before anything was set up left a cache behind that nobody will use again.
  bool left; { uint64_t b = 0; ThreadCache::GetStats(&b, nullptr); left = b > 0; }
  auto Check = [&] { return (long long)ThreadCache::overall_thread_cache_size(); };
  // Several threads at once first, so that what follows starts from what they left.
  if (R(2)) {
    size_t n = kMinThreadCacheSize << R(7); std::atomic<int> twice{0}; std::atomic<bool> stop{false};
    // Each block carries who holds it.
    auto body = [&](unsigned sd) {
      std::mt19937 r(sd); std::vector<std::pair<uint64_t*, int>> mine; mine.reserve(400);
      for (int i = 0; i < 4000; ++i) {
        if ((r() % 3 || mine.empty()) && mine.size() < 300) {
          int k = r() % nc; auto p = static_cast<uint64_t*>(ThreadCache::GetCache()->Allocate(cls[k])); if (!p) continue;
          std::atomic_ref<uint64_t> tag(p[1]); if (tag.exchange(0x5eed5eed5eed0001) == 0x5eed5eed5eed0001) ++twice;
          mine.push_back({p, k});
        } else if (!mine.empty()) {
          size_t j = r() % mine.size(); auto [p, k] = mine[j]; mine[j] = mine.back(); mine.pop_back();
          std::atomic_ref<uint64_t> tag(p[1]); if (tag.exchange(0) != 0x5eed5eed5eed0001) ++twice;
          ThreadCache::GetCache()->Deallocate(p, cls[k]);
        }
        if (r() % 500 == 0) ThreadCache::BecomeIdle();
      }
      for (auto [p, k] : mine) { p[1] = 0; ThreadCache::GetCache()->Deallocate(p, cls[k]); }
      if (r() % 2) ThreadCache::BecomeIdle();
    };
    { std::vector<std::thread> ts; for (int i = 0; i < 4; ++i) ts.emplace_back(body, seed * 16 + i);
      std::thread st([&] { std::mt19937 r(seed); while (!stop) { ThreadCache::set_overall_thread_cache_size(kMinThreadCacheSize << (r() % 7)); uint64_t b = 0; ThreadCache::GetStats(&b, nullptr); std::this_thread::yield(); } });
      for (auto& t : ts) t.join(); stop = true; st.join(); }
    for (int i = 0; i < 10; ++i) { ThreadCache::set_overall_thread_cache_size(kMaxThreadCacheSize); ThreadCache::set_overall_thread_cache_size(kMinThreadCacheSize); }
    MallocExtension::SetMaxTotalThreadCacheBytes(n); total = n;
    J j; j.kv("op", "stress").kv("n", n).kv("back", Check()).kv("twice", twice.load()); W(Put(j));
    Sums();
  }
  constexpr int kThreads = 4; static Worker w[kThreads]; bool has[kThreads] = {};
  struct B { void* p; int k; long long id; }; std::vector<B> live; live.reserve(20000); long long nid = 0;
  std::set<void*> held; std::vector<std::pair<void*, long long>> dummy;
  int phase = 0, who = 0, room = 100, kk = 0;
  for (int i = 0; i < events; ++i) {
    if (i % 60 == 0) { phase = R(6); who = R(kThreads); room = R(3) ? 50 + R(400) : 2000; kk = R(nc); }
    int r = R(1000); int t = R(8) ? who : R(kThreads), k = R(5) ? kk : R(nc);
    if (phase < 2 && r > 450 && r < 940 && R(10)) r = 0; if ((phase == 2 || phase == 3) && r < 450 && R(10)) r = 500;
    J j;
    if (r < 450 && (int)live.size() < room) {
      w[t].cl = cls[k]; w[t].Do(kAlloc); has[t] = true; void* p = w[t].p;
      // One the program has already is told by its own number.
      long long id = ++nid; if (!held.insert(p).second) for (auto& b : live) if (b.p == p) id = b.id;
      if (p) live.push_back({p, k, id}); else id = 0;
      ++used[k];
      j.kv("op", "alloc").kv("t", t + 1).kv("c", k + 1).kv("id", id);
    } else if (r < 960 && !live.empty()) {
      // mostly the newest or a random one
      size_t x = R(2) ? live.size() - 1 : R(live.size()); B b = live[x]; live[x] = live.back(); live.pop_back(); held.erase(b.p);
      w[t].cl = cls[b.k]; w[t].p = b.p; w[t].Do(kFree); has[t] = true; --used[b.k];
      j.kv("op", "free").kv("t", t + 1).kv("c", b.k + 1).kv("id", b.id);
    } else if (r < (tight ? 968 : 972)) { w[t].Do(R(2) ? kIdle : kExit); has[t] = false; j.kv("op", "end").kv("t", t + 1); }
    else if (r < 985) {
      // Shares are powers of two, so that budgets scale exactly.
      int nh = left; for (bool h : has) nh += h; size_t n = (kMinThreadCacheSize << R(6)) * std::max(nh, 1); if (R(5) == 0) n = R(2) ? R(kMinThreadCacheSize) : kMaxThreadCacheSize * (nh + 1 + R(8));
      if (tight && R(3)) n = R(3) ? kMinThreadCacheSize : kMinThreadCacheSize * 2;
      if (R(2)) MallocExtension::SetMaxTotalThreadCacheBytes(n); else ThreadCache::set_overall_thread_cache_size(n);
      total = n; j.kv("op", "total").kv("n", n).kv("back", Check());
    } else { Sums(); continue; }
    W(Put(j));
  }
  for (int t = 0; t < kThreads; ++t) if (w[t].up) { w[t].Do(kExit); J j; j.kv("op", "end").kv("t", t + 1); W(Put(j)); }
  Sums();
  fclose(f);
  return 0;
}
