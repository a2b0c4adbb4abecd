// Conformance driver for the metadata arena and the object allocator on top of it.
//   arena <seed> <events> <trace>
#include <unistd.h>
#include <algorithm>
#include <random>
#include <thread>
#include "tcmalloc/arena.h"
#include "tcmalloc/metadata_object_allocator.h"
#include "tcmalloc/span.h"
#include "tcmalloc/static_vars.h"
#include "trace.h"
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static Arena arena;
template <int N, int A> struct alignas(A) Obj { unsigned char b[N]; };
static MetadataObjectAllocator<Obj<8, 8>> o0(arena);
static MetadataObjectAllocator<Obj<48, 16>> o1(arena);
static MetadataObjectAllocator<Obj<192, 64>> o2(arena);

struct Blk { unsigned char* p; size_t n; unsigned char v; int oa; };
static std::vector<Blk> blks;         // live
struct Reg { char* b; size_t n; };
static std::vector<Reg> regs;
static unsigned char next_v = 1;
// (of a large block only both ends)
static void Fill(Blk& b) { b.v = next_v++; if (b.n <= 65536) memset(b.p, b.v, b.n); else { memset(b.p, b.v, 8192); memset(b.p + b.n - 8192, b.v, 8192); } }
static bool Intact(const Blk& b) { for (size_t i = 0; i < b.n; ++i) { if (b.n > 65536 && i == 8192) i = b.n - 8192; if (b.p[i] != b.v) return false; } return true; }

int main(int c, char** v) {
  if (c < 4) return 2;
  alarm(120);
  (void)malloc(1);
  unsigned seed = atoi(v[1]); int events = atoi(v[2]);
  std::mt19937 rng(seed);
  auto R = [&](int n) { return static_cast<int>(rng() % n); };
  FILE* f = fopen(v[3], "w"); if (!f) return 2;
  auto W = [&](const J& j) { fprintf(f, "%s\n", j.str().c_str()); };
  W(J().kv("op", "init").kv("span", std::max(sizeof(Span), 2 * sizeof(void*))));
  auto Stats = [&](J& j, const ArenaStats& s) -> J& {
    return j.raw("s", vt::Nums(std::vector<long long>{(long long)s.bytes_allocated, (long long)s.bytes_unallocated, (long long)s.bytes_unavailable, (long long)s.bytes_nonresident, (long long)s.blocks, (long long)s.freelist_blocks}));
  };
  auto Total = [](const ArenaStats& s) { return s.bytes_allocated + s.bytes_unallocated + s.bytes_unavailable + s.bytes_nonresident; };
  // The region an address lies in.
  auto Where = [&](unsigned char* p) { for (size_t i = 0; i < regs.size(); ++i) if ((char*)p >= regs[i].b && (char*)p < regs[i].b + regs[i].n) return (int)i; return -1; };
  auto Place = [&](J& j, unsigned char* p, size_t n, size_t al, const ArenaStats& a, const ArenaStats& b) -> J& {
    long long grown = 0;
    if (b.blocks != a.blocks) {
      grown = (long long)(Total(b) - Total(a));
      // A new region begins with the block that needed it.
      bool apart = true; for (auto& r : regs) if ((char*)p < r.b + r.n && r.b < (char*)p + (grown > 0 ? grown : 0)) apart = false;
      if (grown > 0 && apart) regs.push_back({(char*)p, (size_t)grown}); else grown = -1;
    }
    int r = Where(p);
    j.kv("n", n).kv("al", al).kv("mis", (long long)(reinterpret_cast<uintptr_t>(p) % al)).kv("reg", r + 1)
     .kv("off", r < 0 ? 0ll : (long long)((char*)p - regs[r].b)).kv("base", r < 0 ? 0ll : (long long)(reinterpret_cast<uintptr_t>(regs[r].b) % (2 << 20))).kv("len", r < 0 ? 0ll : (long long)regs[r].n).kv("grown", grown);
    return Stats(j, b);
  };
  long long nonres = 0;
  static const size_t kAl[] = {1, 2, 4, 8, 8, 8, 8, 16, 16, 64, 256, 4096, 8192, 65536, 2097152};
  int style = R(4), phase = 0;
  for (int i = 0; i < events; ++i) {
    if (i % 100 == 0) phase = R(3);
    int r = R(100);
    if (phase == 1 && r >= 60 && r < 94) r = 60;      // objects are mostly made
    if (phase == 2 && r >= 30 && r < 94) r = 90;      // objects are mostly deleted
    if (style == 3) r = R(10) ? 0 : r;
    ArenaStats a = arena.stats();
    if (r < 50) {
      size_t n;
      switch (style == 3 ? (R(3) ? 5 : R(8)) : R(style == 0 ? 4 : 8)) {
        case 0: n = 1 + R(64); break;
        case 1: n = sizeof(Span); break;
        case 2: n = 8 * (1 + R(60)); break;
        case 3: n = R(4000); break;
        case 4: n = 4096 + R(60000); break;
        case 5: n = (style == 3 ? 2 << 20 : 128 << 10) - R(300); break;
        case 6: n = (100 << 10) + R(28 << 10); break;
        default: n = R(4) ? 10000 + R(30000) : (128 << 10) + R(400 << 10); break;
      }
      size_t al = kAl[R(style == 2 ? 15 : 11)];
      auto* p = static_cast<unsigned char*>(arena.Alloc(n, static_cast<std::align_val_t>(al)));
      ArenaStats b = arena.stats();
      J j; j.kv("op", "alloc"); Place(j, p, n, al, a, b);
      Blk k{p, n, 0, -1}; if (Where(p) >= 0 || n == 0) { Fill(k); blks.push_back(k); }
      W(j);
    } else if (r < 75) {
      int o = R(3); unsigned char* p; size_t n, al; AllocatorStats os;
      switch (o) {
        case 0: p = (unsigned char*)o0.New(); n = sizeof(Obj<8, 8>); al = 8; os = o0.stats(); break;
        case 1: p = (unsigned char*)o1.New(); n = sizeof(Obj<48, 16>); al = 16; os = o1.stats(); break;
        default: p = (unsigned char*)o2.New(); n = sizeof(Obj<192, 64>); al = 64; os = o2.stats(); break;
      }
      ArenaStats b = arena.stats();
      J j; j.kv("op", "new").kv("o", o + 1).kv("use", os.in_use).kv("tot", os.total); Place(j, p, n, al, a, b);
      Blk k{p, n, 0, o}; if (Where(p) >= 0) { Fill(k); blks.push_back(k); }
      W(j);
    } else if (r < 94) {
      std::vector<int> cand; for (size_t k = 0; k < blks.size(); ++k) if (blks[k].oa >= 0) cand.push_back(k);
      if (cand.empty()) continue;
      int k = cand[R(cand.size())]; Blk b = blks[k]; blks[k] = blks.back(); blks.pop_back();
      bool ok = Intact(b); AllocatorStats os;
      switch (b.oa) {
        case 0: o0.Delete((Obj<8, 8>*)b.p); os = o0.stats(); break;
        case 1: o1.Delete((Obj<48, 16>*)b.p); os = o1.stats(); break;
        default: o2.Delete((Obj<192, 64>*)b.p); os = o2.stats(); break;
      }
      J j; int w = Where(b.p);
      j.kv("op", "delete").kv("o", b.oa + 1).kv("reg", w + 1).kv("off", w < 0 ? 0ll : (long long)((char*)b.p - regs[w].b)).kv("n", b.n)
       .kv("ok", ok).kv("use", os.in_use).kv("tot", os.total);
      W(Stats(j, arena.stats()));
    } else {
      long long da = 0, dn = 0;
      if (nonres > 0 && R(2)) { dn = -(1 + R(nonres)); da = R(2) ? -dn : 0; da = -dn; }
      else { long long m = 1 + R(2000); if ((long long)a.bytes_allocated > m) { da = -m; dn = m; } }
      arena.UpdateAllocatedAndNonresident(da, dn); nonres += dn;
      J j; j.kv("op", "upd").kv("da", da).kv("dn", dn);
      W(Stats(j, arena.stats()));
    }
  }
  // Several threads at once.
  {
    ArenaStats a = arena.stats();
    std::vector<std::vector<Blk>> got(4); std::vector<std::thread> th;
    for (int t = 0; t < 4; ++t) th.emplace_back([&, t] {
      std::mt19937 g(seed * 10 + t); got[t].reserve(200);
      for (int i = 0; i < 100; ++i) { size_t n = 8 + g() % 1500; auto* p = (unsigned char*)arena.Alloc(n, static_cast<std::align_val_t>(8u << (g() % 3))); Blk b{p, n, (unsigned char)(1 + t * 60 + i % 60), -1}; memset(p, b.v, n); got[t].push_back(b); }
    });
    for (auto& t : th) t.join();
    ArenaStats b = arena.stats();
    std::vector<Blk> all; bool ok = true; size_t sum = 0;
    for (auto& g : got) for (auto& x : g) { all.push_back(x); sum += x.n; ok = ok && Intact(x); }
    std::sort(all.begin(), all.end(), [](const Blk& x, const Blk& y) { return x.p < y.p; });
    bool apart = true; for (size_t i = 1; i < all.size(); ++i) if (all[i - 1].p + all[i - 1].n > all[i].p) apart = false;
    J j; j.kv("op", "par").kv("n", sum).kv("apart", apart).kv("ok", ok).kv("grown", (long long)(Total(b) - Total(a))).kv("more", (long long)b.blocks - (long long)a.blocks).kv("cnt", all.size());
    W(Stats(j, b));
  }
  bool ok = true; for (auto& b : blks) ok = ok && Intact(b);
  J j; j.kv("op", "end").kv("ok", ok); W(Stats(j, arena.stats()));
  fclose(f);
  return 0;
}
