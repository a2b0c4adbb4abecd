// Conformance driver for allocation sampling.
//   sampler <seed> <events> <trace>
// First samplers of its own, then the sampler of this thread through the public allocation functions.  How many bytes
// are left before the next sample is found by asking WillRecordAllocation.
#include <malloc.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <new>
#include <random>
#include "tcmalloc/allocation_sampling.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/malloc_hook.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/sampler.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
using tcmalloc::MallocHook;
using vt::J;
typedef unsigned long long u64;

// 64-bit values as three digits of 24 bits.
static std::string D(u64 x) { return vt::Nums(std::vector<long long>{(long long)(x >> 48), (long long)((x >> 24) & 0xffffff), (long long)(x & 0xffffff)}); }
static u64 Left(Sampler& s) {
  u64 lo = 0, hi = (1ull << 63) - 2;
  if (!s.WillRecordAllocation(hi)) return hi + 1;
  while (lo < hi) { u64 m = lo + (hi - lo) / 2; if (s.WillRecordAllocation(m)) hi = m; else lo = m + 1; }
  return lo;
}
struct Ev { int kind; size_t k, al; u64 b, b2; long long iv; int hooks; size_t req, alloc, got; int hal; long long hali; double w; bool same, ok; bool sampled; };
static Ev evs[4000]; static int nev;
static Ev* cur;
static void OnNew(const MallocHook::SampledAlloc& a) {
  if (!cur) return;
  cur->hooks++; cur->req = a.requested_size; cur->alloc = a.allocated_size; cur->hal = a.requested_alignment.has_value();
  cur->hali = a.requested_alignment.has_value() ? (long long)*a.requested_alignment : 0; cur->w = a.weight; cur->same = true; cur->got = reinterpret_cast<uintptr_t>(a.ptr);
}
static constexpr int kN = 50000;
static u64 picks[kN];
static Sampler many[5000];

int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(120);
  (void)malloc(1);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  std::mt19937_64 rng(seed);
  auto R = [&](u64 n) { return rng() % n; };
  FILE* f = fopen(v[3], "w"); if (!f) return 2;
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); };
  MallocExtension::SetGuardedSamplingInterval(-1);
  auto Interval = [&](int mode) -> long long {
    switch (mode ? R(8) : R(11)) {
      case 0: return -1 - (long long)R(3000);
      case 1: return 0;
      case 2: return 1;
      case 3: return 2 + R(30);
      case 4: return 100 + R(5000);
      case 5: return 1 << 21;
      case 6: return 10000 + R(500000);
      case 7: return 1 + R(4);
      case 8: return (1ll << 40) + R(1 << 30);
      case 9: return (1ll << 61) + R(1ull << 61);
      default: return -(long long)R(1ull << 62);
    }
  };
  auto Set = [&](long long iv, bool pub) { if (pub) MallocExtension::SetProfileSamplingInterval(iv); else Parameters::set_profile_sampling_interval(iv); };
  long long iv = Interval(0);
  Set(iv, true);
  W(J().kv("op", "init").raw("iv", D(iv > 0 ? iv : 0)));
  // 1. Samplers of its own.
  {
    static Sampler ss[4]; int id = 0; bool ready[4] = {};
    for (int i = 0; i < events; ++i) {
      if (R(15) == 0) {
        iv = Interval(0); Set(iv, R(2));
        W(J().kv("op", "set").raw("iv", D(iv > 0 ? iv : 0)).kv("back", MallocExtension::GetProfileSamplingInterval() == iv && Sampler::GetSampleInterval() == iv));
        continue;
      }
      if (R(10) == 0) id = R(4);
      Sampler& s = ss[id];
      u64 b = Left(s), k;
      switch (R(10)) {
        case 0: k = 0; break;
        case 1: k = R(100); break;
        case 2: k = b ? b - 1 : 0; break;
        case 3: k = b; break;
        case 4: k = b + 1; break;
        case 5: k = b / 2; break;
        case 6: k = b + R(100000); break;
        case 7: k = R(4) ? b - b / 10 : (1ull << (20 + R(43))) + R(1000); break;
        case 8: k = R(5) ? R(1 << 20) : (1ull << 63) - 2 - R(1 << 22); break;
        default: k = iv > 0 ? iv : 7; break;
      }
      if (k > (1ull << 63) - 2) k = (1ull << 63) - 2;
      bool will = s.WillRecordAllocation(k), still = Left(s) == b; size_t w;
      if (R(2)) w = s.RecordAllocation(k);
      else w = s.TryRecordAllocationFast(k) ? 0 : s.RecordedAllocationFast(k);
      u64 b2 = Left(s);
      W(J().kv("op", "own").kv("id", id + 1).raw("k", D(k)).raw("b", D(b)).raw("w", D(w)).raw("b2", D(b2)).kv("will", will && ready[id]).kv("still", still));
      ready[id] = true;
      if (R(30) == 0) { StackTrace st{}; st.requested_size = R(1000); long long m = R(1000); st.weight = m * (st.requested_size + 1); st.allocated_size = R(10000);
        W(J().kv("op", "bytes").kv("m", m).kv("a", st.allocated_size).kv("got", (long long)std::llround(AllocatedBytes(st)))); }
    }
  }
  // 2. How the points are spread.
  for (int n = 0; n < 2; ++n) {
    static const long long kT[] = {200, 4096, 30011, 1 << 21, 1ll << 33, 1ll << 45};
    long long t = kT[R(6)]; Set(t, true);
    static Sampler st[2]; Sampler& s = st[n];
    s.RecordAllocation(0); s.RecordAllocation(Left(s));
    double sum = 0; int half = 0, tail = 0, pair = 0;
    for (int i = 0; i < kN; ++i) { u64 b = Left(s); picks[i] = b + 1; s.RecordAllocation(b); sum += (double)picks[i] / t; }
    for (int i = 0; i < kN; ++i) { bool h = picks[i] <= t * std::log(2.0); half += h; tail += picks[i] > t * std::log(100.0); if (i && h && picks[i - 1] <= t * std::log(2.0)) pair++; }
    double first = 0; int m = 0;
    if (n == 0) for (auto& x : many) { x.RecordAllocation(0); first += (double)(Left(x) + 1) / t; ++m; }
    W(J().kv("op", "spread").kv("mean", (long long)(1e4 * sum / kN)).kv("half", 10000ll * half / kN).kv("tail", 100000ll * tail / kN).kv("pair", 10000ll * pair / kN)
        .kv("first", m ? (long long)(1e4 * first / m) : 10000ll));
  }
  // 3. The allocator.  (Nothing else is allocated meanwhile.)
  if (!MallocHook::AddSampledNewHook(OnNew)) return 2;
  Sampler& s = GetThreadSampler();
  Set(1000, false);
  s.RecordAllocation(Left(s));
  int n = std::min(events, 3000);
  for (int i = 0; i < n; ++i) {
    Ev& e = evs[nev++]; e = Ev{};
    if (i == 0 || R(25) == 0) { e.kind = -1; e.iv = Interval(1); Set(e.iv, R(2)); iv = e.iv; continue; }
    static const int kSh[] = {3, 4, 5, 6, 8, 12, 13, 14, 21};
    e.kind = R(9); e.al = 1ull << kSh[R(R(8) ? 6 : 9)];
    e.b = Left(s);
    switch (R(6)) {
      case 0: e.k = R(100); break;
      case 1: e.k = R(20000); break;
      case 2: e.k = e.b < (64 << 20) ? e.b : 9; break;
      case 3: e.k = e.b && e.b < (64 << 20) ? e.b - 1 : 100; break;
      case 4: e.k = R(1 << 20); break;
      default: e.k = R(R(10) ? 9000 : 8 << 20); break;
    }
    void* p = nullptr; size_t k = e.k; cur = &e;
    switch (e.kind) {
      case 0: p = malloc(k); e.al = 0; break;
      case 1: p = calloc(1, k); e.al = 0; break;
      case 2: p = ::operator new(k); e.al = 0; break;
      case 3: p = ::operator new[](k, std::nothrow); e.al = 0; break;
      case 4: p = ::operator new(k, static_cast<std::align_val_t>(e.al)); break;
      case 5: if (posix_memalign(&p, std::max<size_t>(e.al, sizeof(void*)), k)) p = nullptr; break;
      case 6: p = memalign(e.al, k); break;
      case 7: { auto r = tcmalloc_size_returning_operator_new(k); p = r.p; e.al = 0; break; }
      case 8: p = ::operator new[](k, static_cast<std::align_val_t>(e.al), std::nothrow); break;
    }
    cur = nullptr;
    e.b2 = Left(s);
    auto got = MallocExtension::GetAllocatedSize(p); bool same = e.got == reinterpret_cast<uintptr_t>(p);
    e.same = same; e.got = got.value_or(0); e.ok = p && (e.al == 0 || reinterpret_cast<uintptr_t>(p) % e.al == 0);
    if (p) switch (e.kind) {
      case 0: case 1: case 5: case 6: free(p); break;
      case 2: case 7: ::operator delete(p); break;
      case 3: ::operator delete[](p); break;
      case 4: ::operator delete(p, static_cast<std::align_val_t>(e.al)); break;
      case 8: ::operator delete[](p, static_cast<std::align_val_t>(e.al)); break;
    }
  }
  (void)MallocHook::RemoveSampledNewHook(OnNew);
  Set(0, false);
  W(J().kv("op", "whole"));
  for (int i = 0; i < nev; ++i) {
    Ev& e = evs[i];
    if (e.kind < 0) { W(J().kv("op", "set").raw("iv", D(e.iv > 0 ? e.iv : 0)).kv("back", true)); continue; }
    J j; j.kv("op", "alloc").kv("kind", e.kind).raw("k", D(e.k)).raw("b", D(e.b)).raw("b2", D(e.b2)).kv("al", e.al).kv("hooks", e.hooks).kv("got", e.got).kv("size", e.k).kv("ok", e.ok);
    if (e.hooks) j.kv("req", e.req).kv("alloc", e.alloc).kv("hal", e.hal).kv("hali", e.hali).raw("w", D(std::llround(e.w * (e.k + 1)))).kv("same", e.same);
    else j.kv("req", 0).kv("alloc", 0).kv("hal", 0).kv("hali", 0).raw("w", D(0)).kv("same", true);
    W(j);
  }
  W(J().kv("op", "end"));
  fclose(f);
  return 0;
}
