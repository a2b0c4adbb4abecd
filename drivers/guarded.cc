// Conformance driver for the guarded page allocator.
//   guarded <seed> <events> own|whole <trace>
#include <malloc.h>
#include <fcntl.h>
#include <algorithm>
#include <new>
#include <random>
#include <thread>
#include "tcmalloc/allocation_sampling.h"
#include "tcmalloc/guarded_page_allocator.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
#include "death.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
using vt::J;

static GuardedPageAllocator own;
static GuardedPageAllocator* g;
static uintptr_t base; static size_t P, T;
struct Blk { char* p; size_t n; long long id; int kind; size_t al; unsigned char v; };
static std::vector<Blk> live, dead;
static int pfd[2];
static bool Readable(uintptr_t a) { char c; if (write(pfd[1], (void*)a, 1) != 1) return false; (void)!read(pfd[0], &c, 1); return true; }
static void OwnSegv(int, siginfo_t* si, void*) {
  GuardedAllocationsStackTrace *a, *d;
  void* x = si->si_addr;
  if (!own.PointerIsMine(x)) _exit(9);
  death::sh->info[0] = (int)own.GetStackTraces(x, &a, &d); death::sh->info[1] = a->depth ? (int)(uintptr_t)a->stack[0] : 0; death::sh->info[2] = d->depth > 0;
  death::sh->info[3] = (int)((uintptr_t)x - base);
  _exit(7);
}
static const char* Ty(int t) {
  using E = GuardedAllocationsErrorType;
  switch ((E)t) { case E::kUseAfterFree: return "uaf"; case E::kBufferUnderflow: return "under"; case E::kBufferOverflow: return "over"; case E::kDoubleFree: return "double_guarded"; case E::kBufferOverflowOnDealloc: return "over_free"; case E::kUnknown: return "unknown"; default: return "odd"; }
}
struct Num { long long succ, fail, nosl, filt, large, cur, max, high, touched, total, quar; };
static Num Stats() {
  static char buf[8192]; Printer out(buf, sizeof(buf)); g->Print(out);
  Num n{}; long long d;
  auto at = [&](const char* k) { const char* s = strstr(buf, k); return s ? s + strlen(k) : "-1"; };
  n.succ = atoll(at("Successful Allocations: ")); n.fail = atoll(at("Failed Allocations: ")); n.nosl = atoll(at("(No Slots): ")); n.filt = atoll(at("(Filtered): ")); n.large = atoll(at("(Too Large): "));
  sscanf(at("Currently Allocated: "), "%lld / %lld", &n.cur, &n.max); sscanf(at("High-Watermark: "), "%lld / %lld", &n.high, &d); sscanf(at("Pages Touched: "), "%lld / %lld", &n.touched, &n.total); n.quar = atoll(at("Quarantined: "));
  return n;
}
static J& Put(J& j) {
  Num n = Stats();
  return j.raw("s", vt::Nums(std::vector<long long>{n.succ, n.cur, n.high, n.touched, n.quar, n.nosl, n.filt, n.large, n.fail})).kv("avail", g->GetNumAvailablePages());
}

int main(int c, char** v) {
  if (c < 5) return 2;
  alarm(60);
  (void)malloc(1);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]); bool whole = !strcmp(v[3], "whole");
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  FILE* f = fopen(v[4], "w"); if (!f || pipe(pfd)) return 2;
  death::Start();
  live.reserve(4096); dead.reserve(4096);
  MallocExtension::SetProfileSamplingInterval(0);
  GetThreadSampler().RecordAllocation(1ull << 40);
  size_t max;
  if (whole) {
    MallocExtension::SetGuardedSamplingInterval(0); MallocExtension::ActivateGuardedSampling();
    g = &tc_globals.guardedpage_allocator();
  } else {
    static const int kT[] = {1, 2, 3, 5, 8, 16, 64, 128, 512};
    T = kT[R(R(4) ? 6 : 9)]; max = 1 + R(T); if (R(3) == 0) max = T;
    PageHeapSpinLockHolder l; own.Init(max, T); g = &own;
  }
  // The first block tells where the pool is.
  P = g->page_size();
  void* first;
  auto Arm = [&] { Parameters::set_profile_sampling_interval(1); GetThreadSampler().RecordAllocation(1ull << 40); };
  auto Disarm = [] { Parameters::set_profile_sampling_interval(0); };
  bool allowed = true;
  if (whole) { Arm(); first = malloc(1); Disarm(); }
  else {
    StackTrace st{}; st.depth = 1; st.stack[0] = (void*)1;
    // Nothing is handed out before it is allowed.
    allowed = own.Allocate(1, static_cast<std::align_val_t>(1), st).alloc == nullptr;
    own.AllowAllocations(); first = own.Allocate(1, static_cast<std::align_val_t>(1), st).alloc;
  }
  if (!first || !g->PointerIsMine(first)) return 2;
  base = (uintptr_t)first & ~(P - 1); while (g->PointerIsMine((void*)(base - 1))) base -= P;
  uintptr_t end = base; while (g->PointerIsMine((void*)end)) end += P;
  T = ((end - base) / P - 1) / 2; max = Stats().max;
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); };
  auto X = [&](const void* p) { return (long long)((uintptr_t)p - base); };
  { J j; j.kv("op", "init").kv("t", T).kv("max", max).kv("p", P).kv("whole", whole).kv("x", X(first)).kv("quiet", allowed).kv("odd", (end - base) / P % 2 == 1 && base % P == 0); W(Put(j)); }
  if (!whole) { struct sigaction sa{}; sa.sa_sigaction = OwnSegv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr); }
  live.push_back({(char*)first, 1, 1, 0, whole ? 16u : 1u, 7}); if (Readable((uintptr_t)first)) *(char*)first = 7;
  long long nid = 1;
  auto Fill = [&](Blk& b) { b.v = R(256); memset(b.p, b.v, b.n); };
  auto Same = [](const Blk& b) { for (size_t i = 0; i < b.n; ++i) if ((unsigned char)b.p[i] != b.v) return false; return true; };
  auto Del = [&](const Blk& b, char* p) { if (!whole) own.Deallocate(p); else switch (b.kind) { case 0: free(p); break; case 1: ::operator delete(p); break; case 2: ::operator delete(p, static_cast<std::align_val_t>(b.al)); break; case 3: ::operator delete(p, b.n); break; default: free(p); } };
  auto Size = [&]() -> size_t { switch (R(7)) { case 0: return R(20); case 1: return P - R(70); case 2: return 1 + R(P); case 3: return 1u << R(14); case 4: return 8 * R(100); case 5: return (1u << R(13)) + R(5); default: return R(600); } };
  auto Align = [&]() -> size_t { return R(3) ? 1u << R(5) : 1u << R(14); };
  int phase = 0;
  for (int i = 0; i < events; ++i) {
    if (i % 50 == 0) phase = R(3);
    int r = R(100);
    if (r < 30 && phase == 2 && R(3)) r = 40;
    if (r >= 30 && r < 50 && phase == 1 && R(3)) r = 0;
    if (r < 30) {
      size_t n = Size(), al = Align(); char* p; long long id = ++nid; int kind = R(5); bool zero = true; J j;
      if (n > P) n = P;
      if (!whole) {
        StackTrace st{}; st.depth = 1; st.stack[0] = (void*)id;
        if (R(6) == 0) al = 0;
        auto a = own.Allocate(n, static_cast<std::align_val_t>(al), st); p = (char*)a.alloc; kind = 0;
        j.kv("st", (int)a.status);
      } else {
        if (n == 0) n = 1;
        void* q = nullptr;
        Arm();
        switch (kind) {
          case 0: q = malloc(n); al = 16; break;
          case 1: case 3: q = ::operator new(n); al = 1; break;
          case 2: al = std::max<size_t>(al, 16); q = ::operator new(n, static_cast<std::align_val_t>(al)); break;
          default: q = calloc(1, n); al = 16; for (size_t k = 0; k < n; ++k) zero = zero && ((char*)q)[k] == 0; break;
        }
        Disarm();
        if (!g->PointerIsMine(q)) { Blk b{(char*)q, n, id, kind, al, 0}; Del(b, b.p); q = nullptr; }
        p = (char*)q;
        j.kv("st", 0);
      }
      j.kv("op", "alloc").kv("n", n).kv("id", id).kv("x", p ? X(p) : -1).kv("zero", zero).kv("al", al ? al : 1);
      if (p) j.kv("size", g->GetRequestedSize(p)).kv("at", g->PointerIsCorrectlyAligned(p)).kv("in", whole ? (long long)MallocExtension::GetAllocatedSize(p).value_or(0) : (long long)n); else j.kv("size", n).kv("at", true).kv("in", n);
      W(Put(j));
      if (p) { Blk b{p, n, id, kind, al, 0}; if (n && Readable((uintptr_t)p)) Fill(b); else b.n = n; live.push_back(b); dead.erase(std::remove_if(dead.begin(), dead.end(), [&](const Blk& d) { return ((uintptr_t)d.p & ~(P - 1)) == ((uintptr_t)p & ~(P - 1)); }), dead.end()); }
    } else if (r < 50) {
      if (live.empty()) continue;
      int k = R(live.size()); Blk b = live[k]; live[k] = live.back(); live.pop_back();
      bool ok = Same(b); Del(b, b.p);
      J j; j.kv("op", "free").kv("x", X(b.p)).kv("ok", ok); W(Put(j));
      dead.push_back(b);
    } else if (r < 62) {
      long long x = R(2) && !live.empty() ? X(live[R(live.size())].p) + R(300) - 150 : (long long)((rng() % (2 * T + 1)) * P + R(P));
      if (x < 0 || x >= (long long)((2 * T + 1) * P)) continue;
      W(J().kv("op", "probe").kv("x", x).kv("r", Readable(base + x)));
    } else if (r < 80) {
      long long x;
      if (R(3) == 0 && !dead.empty()) x = X(dead[R(dead.size())].p) + R(300) - 150;
      else if (R(2) && !live.empty()) { Blk& b = live[R(live.size())]; x = X(b.p) + (R(2) ? (long long)b.n + R(5) - 2 : (long long)R(2 * P) - (long long)P); }
      else x = (rng() % (2 * T + 1)) * P + R(P);
      if (x < 0 || x >= (long long)((2 * T + 1) * P)) continue;
      GuardedAllocationsStackTrace *a, *d; void* q = (void*)(base + x);
      int t = (int)g->GetStackTraces(q, &a, &d); auto [off, size] = g->GetAllocationOffsetAndSize(q);
      W(J().kv("op", "ask").kv("x", x).kv("ty", Ty(t)).kv("id", whole ? -1 : a->depth ? (long long)(uintptr_t)a->stack[0] : 0).kv("was", a->depth > 0).kv("del", a->depth > 0 && d->depth > 0)
          .kv("off", (long long)std::max<long long>(-(1 << 30), std::min<long long>(1 << 30, off))).kv("size", size).kv("at", g->PointerIsCorrectlyAligned(q)));
    } else if (r < 90 || whole) {
      // Something wrong, in a child.
      if (R(100) < 70 && R(2)) continue;
      bool isdead = R(3) == 0 && !dead.empty();
      if (!isdead && live.empty()) continue;
      Blk b = isdead ? dead[R(dead.size())] : live[R(live.size())];
      int what = R(5), wr = R(2), d = 0, val = R(256); long long x = X(b.p);
      if (whole && what == 3) continue;           // (pointers never given out: another property)
      const char* nm;
      switch (what) {
        case 0: nm = "touch"; x += R(3) == 0 ? -1 - R(200) : R(2) ? (long long)b.n + R(200) : (long long)R(b.n + 1); break;
        case 1: nm = "touch"; x += (long long)R(2 * P) - (long long)P; break;
        case 2: nm = "double"; break;
        case 3: nm = "interior"; d = 1 + R(b.n + 3); if (d % 2) d = -d; break;
        default: nm = "over"; d = R(3) ? R(4) : R(40); break;
      }
      if (what < 2 && (x < 0 || x >= (long long)((2 * T + 1) * P))) continue;
      if (what == 3 && ((X(b.p) + d) / (long long)P != X(b.p) / (long long)P || X(b.p) + d < 0)) continue;
      if (what == 4 && (X(b.p) + (long long)b.n + d) / (long long)P != X(b.p) / (long long)P) continue;
      if (isdead && what >= 3) continue;
      int rc = death::Run([&] {
        volatile char* q;
        switch (what) {
          case 0: case 1: q = (volatile char*)(base + x); if (wr) *q = val; else (void)*q; break;
          case 2: Del(b, b.p); if (!isdead) Del(b, b.p); break;
          case 3: Del(b, b.p + d); break;
          default: if (b.n) b.p[b.n + d] = val; Del(b, b.p); break;
        }
      });
      J j; j.kv("op", "bad").kv("what", nm).kv("x", x).kv("b", X(b.p)).kv("d", d).kv("wr", wr).kv("val", val).kv("rc", rc == 0 ? 0 : 1);
      if (whole) {
        long long off = 0, len = -1; const char* s = strstr(death::sh->text, ">>> Access at offset "); if (s) sscanf(s, ">>> Access at offset %lld into buffer of length %lld", &off, &len);
        j.kv("kind", death::Kind()).kv("off", off).kv("len", len).kv("id", -1).kv("sig", rc).kv("del", death::Said("memory was freed in"));
      } else {
        bool seg = rc == 207;
        j.kv("kind", seg ? Ty(death::sh->info[0]) : death::Kind()).kv("off", seg ? (long long)death::sh->info[3] : 0ll).kv("len", -1).kv("id", seg ? (long long)death::sh->info[1] : 0ll).kv("sig", seg ? SIGSEGV : rc).kv("del", seg && death::sh->info[2] == 1);
      }
      W(j);
    } else {
      // Whether a sample is guarded.
      long long id = R(4) && !live.empty() ? live[R(live.size())].id : ++nid; int np = R(6) ? 1 : 1 + R(3);
      long long gi = R(4) == 0 ? -1 - R(3) : R(4) == 0 ? 0 : R(R(2) ? 2000 : 20), pi = R(8) ? R(200) : -R(5), add = R(30);
      size_t n = 1 + R(200);
      StackTrace st{}; st.depth = 1; st.stack[0] = (void*)id;
      Parameters::set_guarded_sampling_interval(gi); tc_globals.total_sampled_count_.Add(add);
      long long tot = tc_globals.total_sampled_count_.value(), succ = g->successful_allocations();
      Parameters::set_profile_sampling_interval(pi); auto a = own.TrySample(n, static_cast<std::align_val_t>(8), Length(np), st); Parameters::set_profile_sampling_interval(0);
      J j; j.kv("op", "try").kv("n", n).kv("np", np).kv("gi", gi).kv("pi", pi).kv("tot", tot).kv("succ", succ).kv("id", id).kv("st", (int)a.status).kv("x", a.alloc ? X(a.alloc) : -1);
      W(Put(j));
      if (a.alloc) { Blk b{(char*)a.alloc, n, id, 0, 8, 0}; if (Readable((uintptr_t)a.alloc)) Fill(b); live.push_back(b); dead.erase(std::remove_if(dead.begin(), dead.end(), [&](const Blk& d) { return ((uintptr_t)d.p & ~(P - 1)) == ((uintptr_t)b.p & ~(P - 1)); }), dead.end()); }
    }
  }
  // Several threads at once.
  if (!whole) {
    while (!live.empty()) { Blk b = live.back(); live.pop_back(); bool ok = Same(b); Del(b, b.p); J j; j.kv("op", "free").kv("x", X(b.p)).kv("ok", ok); W(Put(j)); }
    std::vector<std::thread> th; std::atomic<int> bad{0}, got{0}, over{0}; std::atomic<int> cur{0};
    static std::atomic<int> owner[1024]; for (auto& o : owner) o = 0;
    for (int t = 0; t < 4; ++t) th.emplace_back([&, t] {
      std::mt19937 q(seed * 7 + t); std::vector<std::pair<char*, size_t>> my; my.reserve(600);
      for (int i = 0; i < 150; ++i) {
        if (my.empty() || q() % 2) {
          StackTrace st{}; st.depth = 1; st.stack[0] = (void*)(uintptr_t)(t + 1); size_t n = 1 + q() % 500;
          char* p = (char*)own.Allocate(n, static_cast<std::align_val_t>(8), st).alloc;
          if (p) { int s = X(p) / P; if (owner[s].exchange(t + 1) != 0) bad = 1; if (++cur > (int)max) over = 1; ++got; memset(p, t + 1, n); my.push_back({p, n}); }
        } else {
          int k = q() % my.size(); auto [p, n] = my[k]; my[k] = my.back(); my.pop_back();
          for (size_t k = 0; k < n; ++k) if (p[k] != t + 1) bad = 1;
          if (owner[X(p) / P].exchange(0) != t + 1) bad = 1;
          --cur; own.Deallocate(p);
        }
      }
      for (auto& [p, n] : my) { if (owner[X(p) / P].exchange(0) != t + 1) bad = 1; --cur; own.Deallocate(p); }
    });
    for (auto& t : th) t.join();
    J j; j.kv("op", "par").kv("bad", bad.load()).kv("over", over.load()).kv("got", got.load()); W(Put(j));
  }
  fclose(f);
  return 0;
}
