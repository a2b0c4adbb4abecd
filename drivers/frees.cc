// Conformance driver for the detection of invalid deallocations.
//   frees <seed> <events> <trace>
// Each misuse happens in a child; the parent then frees the block correctly.
#include <malloc.h>
#include <algorithm>
#include <new>
#include <random>
#include "tcmalloc/allocation_sampling.h"
#include "tcmalloc/central_freelist.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/parameters.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
#include "death.h"
using namespace tcmalloc::tcmalloc_internal;
using tcmalloc::MallocExtension;
using vt::J;

struct Blk { char* p; size_t n, cap, al; int fn; bool sampled, guarded, sr, isnew; };
struct Fr { bool isnew, sized; size_t size, al; };
static void Do(char* p, const Fr& f, int v) {
  if (f.isnew) {
    if (f.sized && f.al) { if (v & 1) ::operator delete[](p, f.size, static_cast<std::align_val_t>(f.al)); else ::operator delete(p, f.size, static_cast<std::align_val_t>(f.al)); }
    else if (f.sized) { if (v & 1) ::operator delete[](p, f.size); else ::operator delete(p, f.size); }
    else if (f.al) { if (v & 1) ::operator delete[](p, static_cast<std::align_val_t>(f.al)); else ::operator delete(p, static_cast<std::align_val_t>(f.al), std::nothrow); }
    else { if (v & 1) ::operator delete[](p); else ::operator delete(p, std::nothrow); }
  } else {
    if (f.sized && f.al) { if (v & 1) free_aligned_sized(p, f.al, f.size); else sdallocx(p, f.size, __builtin_ctzll(f.al)); }
    else if (f.sized) { if (v & 1) free_sized(p, f.size); else sdallocx(p, f.size, 0); }
    else free(p);
  }
}
int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(100);
  (void)malloc(1);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  FILE* f = fopen(v[3], "w"); if (!f) return 2;
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); fflush(f); };
  death::Start();
  MallocExtension::SetProfileSamplingInterval(0); GetThreadSampler().RecordAllocation(1ull << 40);
  MallocExtension::ActivateGuardedSampling();
#ifdef NDEBUG
  const bool dbg = false;
#else
  const bool dbg = true;
#endif
  W(J().kv("op", "init").kv("dbg", dbg).kv("p", kPageSize).kv("kmax", kMaxSize));
  auto& sm = tc_globals.sizemap();
  std::vector<Blk> live; live.reserve(1000);
  for (int i = 0; i < events; ++i) {
    // Pages that small blocks have been cut from come back to the page heap, for larger blocks to take.
    if (R(8) == 0) {
      size_t z = (R(2) ? 20000 : 70000) + R(190000); void* q[12]; for (auto& x : q) x = malloc(z);
      for (auto& x : q) free(x);
      for (int x = 0; x < NumCPUs(); ++x) MallocExtension::ReleaseCpuMemory(x);
      MallocExtension::MarkThreadIdle();
      for (int x = 0; x < 4; ++x) tc_globals.transfer_cache().TryPlunder();
    }
    Blk b{}; b.fn = R(7);
    switch (R(6)) { case 0: b.n = 1 + R(64); break; case 1: b.n = 1 + R(2000); break; case 2: b.n = 1 + R(40000); break; case 3: b.n = 1 + R(300000); break; case 4: b.n = kMaxSize - 3 + R(8); break; default: b.n = 1 + R(3 << 20); break; }
    b.al = 1ull << (R(3) ? 3 + R(6) : 3 + R(13));
    bool arm = R(2); int gi = R(2) ? 0 : -1;
    if (arm) { Parameters::set_guarded_sampling_interval(gi); Parameters::set_profile_sampling_interval(1); GetThreadSampler().RecordAllocation(1ull << 40); }
    void* p = nullptr;
    switch (b.fn) {
      case 0: p = malloc(b.n); b.al = 0; break;
      case 1: p = calloc(1, b.n); b.al = 0; break;
      case 2: p = ::operator new(b.n); b.al = 0; b.isnew = true; break;
      case 3: p = ::operator new(b.n, static_cast<std::align_val_t>(b.al)); b.isnew = true; break;
      case 4: p = aligned_alloc(b.al, b.n); break;
      case 5: { auto r = tcmalloc_size_returning_operator_new(b.n); p = r.p; b.cap = r.n; b.al = 0; b.sr = b.isnew = true; break; }
      default: p = ::operator new(b.n, static_cast<tcmalloc::hot_cold_t>(R(2) ? 0 : 200)); b.al = 0; b.isnew = true; break;
    }
    Parameters::set_profile_sampling_interval(0);
    b.p = (char*)p; b.sampled = arm; b.guarded = tc_globals.guardedpage_allocator().PointerIsMine(p);
    if (!b.sr) b.cap = MallocExtension::GetAllocatedSize(p).value_or(0);
    size_t cl = tc_globals.pagemap().sizeclass(PageIdContaining(p));
    size_t lo = 0, hi = 0; if (cl) { auto [a, z] = sm.class_to_size_range(cl); lo = a; hi = z; }
    // Whether blocks of this much more or less would come from the same class.
    Fr ok{b.isnew, R(2) == 1, b.n, 0};
    if (b.isnew) ok.al = b.al; else if (ok.sized) ok.al = b.al;
    if (b.sr && ok.sized) ok.size = b.n + rng() % (b.cap - b.n + 1);
    Fr w = ok; int d = 0, again = 0; const char* what; long long hb = 0; int var = R(2); bool flush = false;
    switch (R(8)) {
      case 0: what = "again"; again = 1; break;
      case 1: case 2: {
        what = "inside"; if (b.cap < 2) { what = "ok"; break; }
        switch (R(4)) { case 0: d = 1 + R(std::min<size_t>(b.cap - 1, 40)); break; case 1: d = 8 * R(1 + (b.cap - 1) / 8); break; case 2: d = 1 + rng() % (b.cap - 1); break; default: d = kPageSize * R(1 + (b.cap - 1) / kPageSize); break; }
        if (d == 0) what = "ok";
        if (b.guarded && (((uintptr_t)b.p + d) & ~(kPageSize - 1)) != ((uintptr_t)b.p & ~(kPageSize - 1))) { d = 0; what = "ok"; }
        break; }
      case 3: case 4: what = "size"; w.sized = true; w.al = b.al; switch (R(5)) { case 0: w.size = b.n + 1; break; case 1: w.size = b.n - 1; break; case 2: w.size = b.n / 2; break; case 3: w.size = b.n * 2 + R(100); break; default: w.size = 1 + R(R(2) ? 1 << 20 : 20000); break; }
        if (w.size == 0) w.size = b.n + 9;
        break;
      case 5: what = "type"; w.isnew = !w.isnew; if (!w.isnew && !w.sized) w.al = 0; if (w.isnew && !w.sized) w.al = b.al; break;
      case 6: what = "align"; w.al = 1ull << (R(2) ? 3 + R(6) : 3 + R(12)); if (R(4) == 0) w.al = 0; if (!w.isnew && !w.sized && w.al) w.sized = true; if (w.al == b.al) what = "ok"; break;
      default: if (R(3)) what = "ok"; else { what = "never"; hb = 1ll << (48 + R(15)); } break;
    }
    // The same class under the wrong size?
    bool same = true;
    // (outside operator new, no alignment means 16)
    if (w.sized && cl && w.size <= kMaxSize) { size_t es = (w.al ? w.al : w.isnew ? 1 : 16) > 8 && w.size <= 8 ? 16 : w.size; same = es >= lo && es <= hi; }
    int rc = death::Run([&] {
      if (again) { Do(b.p, ok, var); death::sh->info[0] = 1; Do(b.p, ok, var); death::sh->info[0] = 2; }
      else if (hb) { Do((char*)((uintptr_t)b.p | hb), w, var); death::sh->info[0] = 2; }
      else { Do(b.p + d, w, var); death::sh->info[0] = 2; }
    });
    W(J().kv("op", "free").kv("what", what).kv("small", cl != 0).kv("tagged", IsSampledMemory(b.p)).kv("sampled", b.sampled).kv("guarded", b.guarded).kv("sr", b.sr).kv("n", b.n).kv("cap", b.cap).kv("al", b.al).kv("new", b.isnew)
        .kv("mal", b.fn < 2).kv("d", d).kv("wnew", w.isnew).kv("sized", w.sized).kv("size", w.size).kv("wal", w.al).kv("same", same).kv("at", (long long)((uintptr_t)b.p % (1 << 20)))
        .kv("low", cl ? (long long)std::min<size_t>(hi & -hi, kPageSize) : (long long)kPageSize).kv("fn", b.fn).kv("rc", rc).kv("kind", death::Kind()).kv("step", (int)death::sh->info[0]));
    // Blocks that reach the central free list.
    if (cl && R(4) == 0) {
      int what = R(3); size_t o = 0; bool bitmap = Span::UseBitmapForSize(hi), first = false;
      void* other = nullptr; int more = R(7), at = R(100);
      if (what == 0) { do { o = 1 + R(kNumClasses - 1); } while (sm.class_to_size(o) == 0 || o == cl); }
      if (what == 2) { other = ::operator new(b.n > kMaxSize ? b.n : kMaxSize + 1 + R(1 << 20)); }
      int rc = death::Run([&] {
        // The wrong one anywhere in a batch.
        void* q[8]; int n = 0; const size_t k = what == 0 ? o : cl;
        for (int x = 0; x < std::min<int>(more, sm.num_objects_to_move(k) - 1); ++x) { void* y = ::operator new(sm.class_to_size(k)); if (tc_globals.pagemap().sizeclass(PageIdContaining(y)) == k) q[n++] = y; }
        auto Batch = [&](void* bad) {
          int z = at % (n + 1); q[n] = q[z]; q[z] = bad;
          tc_globals.central_freelist(k).InsertRange(absl::Span<void*>(q, n + 1));
        };
        if (what == 0) { Batch(b.p); death::sh->info[0] = 2; }
        else if (what == 1) { void* q = b.p; tc_globals.central_freelist(cl).InsertRange(absl::Span<void*>(&q, 1)); death::sh->info[0] = 1; tc_globals.central_freelist(cl).InsertRange(absl::Span<void*>(&q, 1)); death::sh->info[0] = 2; }
        else { ::operator delete(other); death::sh->info[0] = 1; Batch(other); death::sh->info[0] = 2; }
      });
      if (other) ::operator delete(other);
      W(J().kv("op", "central").kv("what", what == 0 ? "class" : what == 1 ? "again" : "gone").kv("bitmap", bitmap).kv("rc", rc).kv("kind", death::Kind()).kv("step", (int)death::sh->info[0]).kv("first", first));
    }
    // Reallocation looks the block up as well.
    if (!b.isnew && !b.guarded && R(4) == 0) {
      int what = cl ? 2 : R(3); int d = 0; if (what == 1) { d = kPageSize * R(1 + (b.cap - 1) / kPageSize); if (d == 0) what = 2; }
      size_t m = R(3) ? 1 + R(400000) : 1 + rng() % b.cap;
      int rc = death::Run([&] {
        if (what == 0) { free(b.p); death::sh->info[0] = 1; void* volatile q = realloc(b.p, m); (void)q; death::sh->info[0] = 2; }
        else { char* volatile q = (char*)realloc(b.p + d, m);
          // What the caller was told is what it may say: the block goes back as one of the new size, and from there to the page heap.
          free_sized(q, m);
          {
            MallocExtension::ReleaseCpuMemory(0); for (int x = 0; x < NumCPUs(); ++x) MallocExtension::ReleaseCpuMemory(x);
            MallocExtension::MarkThreadIdle();
          }
          death::sh->info[0] = 2; }
      });
      W(J().kv("op", "realloc").kv("what", what == 0 ? "gone" : what == 1 ? "inside" : "ok").kv("rc", rc).kv("kind", death::Kind()).kv("step", (int)death::sh->info[0]));
    }
    live.push_back(b);
    if (live.size() > 40 || R(2)) { int k = R(live.size()); Blk x = live[k]; live[k] = live.back(); live.pop_back(); Do(x.p, Fr{x.isnew, false, 0, x.isnew ? x.al : 0}, 0); }
  }
  for (auto& x : live) Do(x.p, Fr{x.isnew, true, x.n, x.al}, 0);
  W(J().kv("op", "end"));
  fclose(f);
  return 0;
}
