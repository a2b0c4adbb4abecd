// Conformance driver for Bitmap and RangeTracker.
//   range_tracker <mode> <seed> <events> <trace>   mode: exh | bexh | rand | brand
#include "tcmalloc/internal/range_tracker.h"
#include "trace.h"
#include <map>
#include <memory>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
static long g_events;

template <class B, size_t N>
static std::string BitRuns(const B& b) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < N) {
    if (!b.GetBit(i)) { ++i; continue; }
    size_t j = i;
    while (j < N && b.GetBit(j)) ++j;
    v.push_back("[" + std::to_string(i) + "," + std::to_string(j - i) + "]");
    i = j;
  }
  return vt::Arr(v);
}

template <size_t N>
static void Obs(J& j, const RangeTracker<N>& t) {
  Bitmap<N> b = t.bits();
  j.raw("bits", BitRuns<Bitmap<N>, N>(b)).kv("used", t.used()).kv("longest", t.longest_free()).kv("allocs", t.allocs());
}
template <size_t N>
static void BObs(J& j, const Bitmap<N>& b) {
  j.raw("bits", BitRuns<Bitmap<N>, N>(b)).kv("cnt", b.CountBits()).kv("zero", b.IsZero());
}

// every subset of a small tracker, every applicable operation
template <size_t N>
static void Exhaustive(vt::Trace& t) {
  auto load = [&](RangeTracker<N>& r, unsigned set) {
    t.put([&] { J j; j.kv("op", "new").kv("size", (int)N); r.Clear(); Obs<N>(j, r); return j; }());
    for (size_t i = 0; i < N;) {
      if (!(set >> i & 1)) { ++i; continue; }
      size_t k = i; while (k < N && (set >> k & 1)) ++k;
      r.Mark(i, k - i);
      J j; j.kv("op", "mark").kv("i", i).kv("n", k - i); Obs<N>(j, r); t.put(j);
      i = k;
    }
  };
  for (unsigned set = 0; set < (1u << N); ++set) {
    RangeTracker<N> base;
    load(base, set);
    size_t maxn = base.longest_free();
    for (size_t n = 1; n <= maxn && n <= N; ++n) {
      RangeTracker<N> r; load(r, set);
      size_t i = r.FindAndMark(n);
      J j; j.kv("op", "find").kv("n", n).kv("i", i); Obs<N>(j, r); t.put(j);
      r.Unmark(i, n);
      J k; k.kv("op", "unmark").kv("n", n).kv("i", i); Obs<N>(k, r); t.put(k);
    }
    for (size_t i = 0; i < N;) {
      if (!(set >> i & 1)) { ++i; continue; }
      size_t k = i; while (k < N && (set >> k & 1)) ++k;
      RangeTracker<N> r; load(r, set);
      r.Unmark(i, k - i);
      J j; j.kv("op", "unmark").kv("i", i).kv("n", k - i); Obs<N>(j, r); t.put(j);
      i = k;
    }
  }
}

template <size_t N>
static void Rand(vt::Trace& t, vt::Rng& g, long upto) {
  while (t.n < upto) {
    std::unique_ptr<RangeTracker<N>> rp(new RangeTracker<N>); auto& r = *rp;
    J j; j.kv("op", "new").kv("size", (int)N); Obs<N>(j, r); t.put(j);
    std::vector<std::pair<size_t, size_t>> live;
    size_t maxn = 1 + g(g.chance(50) ? 6 : N);
    int bias = 30 + g(60);
    for (long k = 20 + g(200); k > 0 && t.n < upto; --k) {
      if (g.chance(bias) || live.empty()) {
        size_t n = 1 + g(maxn);
        if (g.chance(15)) {
          size_t i = g(N); if (i + n > N) continue;
          bool ok = true; auto b = r.bits();
          for (size_t x = i; x < i + n; ++x) ok &= !b.GetBit(x);
          if (!ok) continue;
          r.Mark(i, n); live.push_back({i, n});
          J q; q.kv("op", "mark").kv("n", n).kv("i", i); Obs<N>(q, r); t.put(q);
          continue;
        }
        if (n > r.longest_free()) { n = r.longest_free(); if (!n) { bias = 10; continue; } }
        size_t i = r.FindAndMark(n); live.push_back({i, n});
        J q; q.kv("op", "find").kv("n", n).kv("i", i); Obs<N>(q, r); t.put(q);
      } else if (g.chance(1)) {
        r.Clear(); live.clear();
        J q; q.kv("op", "clear"); Obs<N>(q, r); t.put(q);
      } else {
        size_t x = g(live.size()); auto [i, n] = live[x]; live.erase(live.begin() + x);
        r.Unmark(i, n);
        J q; q.kv("op", "unmark").kv("n", n).kv("i", i); Obs<N>(q, r); t.put(q);
      }
    }
  }
}

template <size_t N>
static void Sweep(vt::Trace& t, const Bitmap<N>& b, vt::Rng& g) {
  std::vector<long> get, fs, fc, fsb, fcb, nfi, nfl;
  for (size_t i = 0; i < N; ++i) {
    get.push_back(b.GetBit(i)); fs.push_back(b.FindSet(i)); fc.push_back(b.FindClear(i));
    fsb.push_back(b.FindSetBackwards(i)); fcb.push_back(b.FindClearBackwards(i));
    size_t x = 0, n = 0; bool ok = b.NextFreeRange(i, &x, &n);
    nfi.push_back(ok ? (long)x : -1); nfl.push_back(ok ? (long)n : 0);
  }
  std::vector<std::string> c;
  for (int k = 0; k < 24; ++k) {
    size_t i = g(N), n = g(N - i + 1);
    c.push_back("[" + std::to_string(i) + "," + std::to_string(n) + "," + std::to_string(b.CountBits(i, n)) + "]");
  }
  size_t x, n;
  J j; j.kv("op", "sweep").arr("get", get).arr("fs", fs).arr("fc", fc).arr("fsb", fsb).arr("fcb", fcb).arr("nfi", nfi).arr("nfl", nfl)
      .raw("counts", vt::Arr(c)).kv("size", b.size()).kv("nfend", b.NextFreeRange(N, &x, &n));
  t.put(j);
}

template <size_t N>
static Bitmap<N> RandBits(vt::Rng& g) {
  Bitmap<N> b;
  int mode = g(5);
  if (mode == 0) { for (size_t i = 0; i < N; ++i) if (g.chance(50)) b.SetBit(i); }
  else if (mode == 1) { for (size_t i = 0; i < N; ++i) b.SetBit(i); for (int k = g(4); k > 0; --k) b.ClearBit(g(N)); }
  else if (mode == 2) { for (int k = g(4); k > 0; --k) b.SetBit(g(N)); }
  else { for (int k = 1 + g(4); k > 0; --k) { size_t i = g(N), n = 1 + g(N - i); for (size_t x = i; x < i + n; ++x) if (mode == 3) b.SetBit(x); else b.ClearBit(x);
           if (mode == 4) { size_t y = g(N); for (size_t x = y; x < N && x < y + 70; ++x) b.SetBit(x); } } }
  return b;
}

template <size_t N, size_t M>
static void ScaleTo(vt::Trace& t, const Bitmap<N>& b, vt::Rng& g) {
  // contraction/expansion/identity of the first len bits
  std::vector<size_t> lens;
  for (size_t len = 1; len <= N; ++len) if (len % M == 0 || M % len == 0) lens.push_back(len);
  size_t len = lens[g(lens.size())];
  bool all = g.chance(50);
  Bitmap<M> r = Scale<M, N>(b, len, all ? ReductionOp::kAll : ReductionOp::kAny);
  J j; j.kv("op", "scale").kv("m", (int)M).kv("len", len).kv("all", all).raw("res", BitRuns<Bitmap<M>, M>(r)); t.put(j);
}

template <size_t N, size_t SN>
static void CopyFrom(vt::Trace& t, Bitmap<N>& b, vt::Rng& g) {
  Bitmap<SN> o = RandBits<SN>(g);
  size_t d = g(N + 1), s = g(SN + 1), n = g(std::min(N - d, SN - s) + 1);
  CopyBits(b, d, o, s, n);
  J j; j.kv("op", "copy").kv("d", d).kv("s", s).kv("n", n).raw("src", BitRuns<Bitmap<SN>, SN>(o)); BObs<N>(j, b); t.put(j);
}

template <size_t N>
static void BRand(vt::Trace& t, vt::Rng& g, long upto) {
  while (t.n < upto) {
    Bitmap<N> b = RandBits<N>(g);
    { J j; j.kv("op", "bnew").kv("size", (int)N).raw("set", BitRuns<Bitmap<N>, N>(b)); BObs<N>(j, b); t.put(j); }
    Sweep<N>(t, b, g);
    for (int k = 0; k < 6; ++k) {
      J j; size_t i = g(N);
      switch (g(10)) {
        case 0: { bool r = b.SetBit(i); j.kv("op", "setbit").kv("i", i).kv("r", r); break; }
        case 1: { bool r = b.ClearBit(i); j.kv("op", "clearbit").kv("i", i).kv("r", r); break; }
        case 2: { size_t n = 1 + g(N - i); b.SetRange(i, n); j.kv("op", "setrange").kv("i", i).kv("n", n); break; }
        case 3: { size_t n = 1 + g(N - i); b.ClearRange(i, n); j.kv("op", "clearrange").kv("i", i).kv("n", n); break; }
        case 4: b.ClearLowestBit(); j.kv("op", "clearlowest"); break;
        case 5: { std::vector<size_t> got; size_t lim = g(N + 2); size_t r = b.PopBatch([&](size_t x) { got.push_back(x); }, lim);
                  j.kv("op", "pop").kv("limit", lim).kv("r", r).arr("got", got); break; }
        case 6: { Bitmap<N> o = RandBits<N>(g); int m = g(4); const char* nm[] = {"and", "or", "xor", "not"};
                  b = m == 0 ? (b & o) : m == 1 ? (b | o) : m == 2 ? (b ^ o) : ~b;
                  j.kv("op", "binop").kv("k", nm[m]).raw("other", BitRuns<Bitmap<N>, N>(o)); break; }
        case 7: switch (g(3)) { case 0: CopyFrom<N, 70>(t, b, g); break; case 1: CopyFrom<N, 512>(t, b, g); break; default: CopyFrom<N, N>(t, b, g); } continue;
        case 8: switch (g(4)) { case 0: ScaleTo<N, 64>(t, b, g); break; case 1: ScaleTo<N, 16>(t, b, g); break; case 2: ScaleTo<N, 256>(t, b, g); break; default: ScaleTo<N, 1>(t, b, g); } continue;
        default: Sweep<N>(t, b, g); continue;
      }
      BObs<N>(j, b); t.put(j);
      if (g.chance(50)) Sweep<N>(t, b, g);
    }
  }
}

// all one-run and complementary bitmaps with end points around word boundaries
template <size_t N>
static void BExh(vt::Trace& t, vt::Rng& g) {
  std::vector<size_t> pts;
  for (size_t p = 0; p <= N; ++p) if (p % 64 <= 1 || p % 64 >= 63 || p + 1 >= N) pts.push_back(p);
  for (size_t a : pts) for (size_t z : pts) if (a < z) for (int comp = 0; comp < 2; ++comp) {
    Bitmap<N> b;
    b.SetRange(a, z - a);
    if (comp) b = ~b;
    { J j; j.kv("op", "bnew").kv("size", (int)N).raw("set", comp ? (std::string("[") + (a ? "[0," + std::to_string(a) + "]" : "") + (a && z < N ? "," : "") +
         (z < N ? "[" + std::to_string(z) + "," + std::to_string(N - z) + "]" : "") + "]") : "[[" + std::to_string(a) + "," + std::to_string(z - a) + "]]");
      BObs<N>(j, b); t.put(j); }
    Sweep<N>(t, b, g);
  }
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  vt::Rng g(atoll(argv[2])); long ev = atol(argv[3]);
  vt::Trace t(argv[4]);
  if (mode == "exh") { Exhaustive<1>(t); Exhaustive<2>(t); Exhaustive<3>(t); Exhaustive<5>(t); Exhaustive<7>(t); if (ev) Exhaustive<9>(t); }
  if (mode == "bexh") { BExh<64>(t, g); BExh<65>(t, g); BExh<63>(t, g); BExh<128>(t, g); BExh<130>(t, g); }
  if (mode == "rand") {
    long q = ev / 7;
    Rand<13>(t, g, t.n + q); Rand<63>(t, g, t.n + q); Rand<64>(t, g, t.n + q); Rand<65>(t, g, t.n + q);
    Rand<130>(t, g, t.n + q); Rand<256>(t, g, t.n + q); Rand<300>(t, g, t.n + q);
  }
  if (mode == "brand") {
    long q = ev / 6;
    BRand<7>(t, g, t.n + q); BRand<63>(t, g, t.n + q); BRand<64>(t, g, t.n + q); BRand<65>(t, g, t.n + q);
    BRand<127>(t, g, t.n + q); BRand<256>(t, g, t.n + q);
  }
}
