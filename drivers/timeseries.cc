// Conformance driver for the sliding-window statistics: TimeSeriesTracker, MinMaxTracker, the
// subrelease statistics and the bookkeeping of skipped subreleases, under a mocked clock.
//   timeseries <kind> <seed> <events> <trace>       kind: ts4 | ts16 | mm16 | mm600 | skip | sub
#include "tcmalloc/huge_cache.h"
#include "tcmalloc/huge_page_subrelease.h"
#include "tcmalloc/internal/timeseries_tracker.h"
#include "trace.h"
#include <memory>
using namespace tcmalloc;
using namespace tcmalloc::tcmalloc_internal;
using vt::J;

static int64_t g_now;
static double g_freq;
static int64_t FakeNow() { return g_now; }
static double FakeFreq() { return g_freq; }
static Clock FakeClock() { return Clock{.now = FakeNow, .freq = FakeFreq}; }

struct Time {                     // epochs relative to a base, exact in ticks
  int64_t d, base, q;
  vt::Rng& r;
  void Set() {
    int64_t rem = r(4) == 0 ? 0 : r(3) == 0 ? d - 1 : (int64_t)r(d);
    g_now = (base + q) * d + rem;
  }
  void Pass(int K) {
    switch (r(14)) {
      case 0: case 1: case 2: case 3: case 4: break;
      case 5: case 6: case 7: case 8: q += 1; break;
      case 9: q += 2; break;
      case 10: q += 1 + r(K); break;
      case 11: q += r(5) == 0 ? K * 3 + r(7) : 1; break;
      case 12: q += r(10) == 0 ? 100000 + r(3) : 1; break;
      case 13: if (r(8) == 0) { q -= 1 + r(2 * K); if (q < 0) q = 0; } break;
    }
    if (q > 100000000) q = 0;
    Set();
  }
};

// An interval that covers exactly <need> epochs (rounded up), -1: infinite.
static absl::Duration Interval(vt::Rng& r, absl::Duration epoch, int need, bool exact) {
  if (need < 0) return absl::InfiniteDuration();
  if (need == 0) return absl::ZeroDuration();
  if (exact && r(2)) return epoch * need;
  return epoch * (need - 1) + epoch / (r(2) ? 2 : 16);
}
static int PickNeed(vt::Rng& r, int K) {
  switch (r(6)) {
    case 0: return -1;
    case 1: return 0;
    case 2: return 1;
    case 3: return K;
    case 4: return K + 1 + r(K);
    default: return 1 + r(K);
  }
}

struct Payload {
  long n = 0, first = 0, last = 0, mn = 0, mx = 0;
  static Payload Nil() { return {}; }
  bool empty() const { return n == 0; }
  void Report(int v) {
    if (!n) first = mn = mx = v;
    ++n; last = v; mn = std::min<long>(mn, v); mx = std::max<long>(mx, v);
  }
  std::string str() const { return vt::Nums(std::vector<long>{n, first, last, mn, mx}); }
};

struct Units { int64_t d; double freq; absl::Duration epoch; bool exact; };
// ticks per epoch d = epoch length * frequency, exactly
static Units Pick(vt::Rng& r) {
  switch (r(7)) {
    case 0: return {1000, 1000, absl::Seconds(1), true};
    case 1: return {37500000000, 1e9, absl::Milliseconds(37500), true};
    case 2: return {125000000, 1e9, absl::Milliseconds(125), true};
    case 3: return {int64_t{1} << 20, double(1 << 20), absl::Seconds(1), true};      // a power of two
    case 4: return {int64_t{1} << 27, double(1 << 30), absl::Milliseconds(125), true};
    case 5: return {3 * 7 * 11, 77, absl::Seconds(3), true};
    default: return {2399999963, 2399999963, absl::Seconds(1), true};
  }
}

template <size_t K>
static void RunTs(vt::Rng& r, vt::Trace& t, long N) {
  Units u = Pick(r);
  g_freq = u.freq;
  Time tm{u.d, (int64_t)(r(3) == 0 ? 0 : r(1000000)), 0, r};
  tm.Set();
  TimeSeriesTracker<Payload, int, K> ts(FakeClock(), u.epoch);
  t.put(J().kv("op", "new").kv("kind", "ts").kv("K", K).kv("q", tm.q));
  for (long i = 0; i < N; ++i) {
    int what = r(10);
    if (what < 5) {
      tm.Pass(K);
      int v = r(50);
      bool m = ts.Report(v);
      t.put(J().kv("op", "rep").kv("q", tm.q).kv("v", v).kv("moved", m));
    } else if (what == 5) {
      tm.Pass(K);
      ts.UpdateTimeBase();
      t.put(J().kv("op", "base").kv("q", tm.q));
    } else if (what == 6) {
      std::vector<std::string> s;
      ts.Iter([&](size_t n, size_t delta, const Payload& p) { s.push_back("[" + std::to_string(n) + "," + std::to_string(delta) + "," + p.str() + "]"); });
      t.put(J().kv("op", "iter").raw("r", vt::Arr(s)));
    } else if (what == 7) {
      auto rec = ts.GetMostRecentRecord();
      t.put(J().kv("op", "recent").kv("ago", rec.epoch_taken).raw("r", rec.data.str()));
    } else {
      int need = PickNeed(r, K);
      std::vector<std::string> s;
      ts.IterBackwards([&](size_t n, size_t delta, const Payload& p) { s.push_back("[" + std::to_string(n) + "," + std::to_string(delta) + "," + p.str() + "]"); },
                       Interval(r, u.epoch, need, u.exact));
      t.put(J().kv("op", "back").kv("need", need).raw("r", vt::Arr(s)));
    }
  }
}

template <size_t K>
static void RunMm(vt::Rng& r, vt::Trace& t, long N) {
  Units u = Pick(r);
  g_freq = u.freq;
  Time tm{u.d, (int64_t)r(1000), 0, r};
  tm.Set();
  MinMaxTracker<K> mm(FakeClock(), u.epoch * K);
  t.put(J().kv("op", "new").kv("kind", "mm").kv("K", K).kv("q", tm.q));
  for (long i = 0; i < N; ++i) {
    if (r(2)) {
      tm.Pass(K);
      size_t v = r(3) == 0 ? r(3) : r(1000);
      mm.Report(NHugePages(v));
      t.put(J().kv("op", "mrep").kv("q", tm.q).kv("v", v));
    } else {
      int need = PickNeed(r, K);
      absl::Duration w = Interval(r, u.epoch, need, u.exact);
      if (r(2)) t.put(J().kv("op", "max").kv("need", need).kv("r", mm.MaxOverTime(w).raw_num()));
      else t.put(J().kv("op", "min").kv("need", need).kv("r", mm.MinOverTime(w).raw_num()));
    }
  }
}

template <class T>
static J& SkipObs(J& j, const T& x) {
  return j.kv("tp", x.total_skipped().pages.raw_num()).kv("tc", x.total_skipped().count)
      .kv("cp", x.correctly_skipped().pages.raw_num()).kv("cc", x.correctly_skipped().count)
      .kv("pp", x.pending_skipped().pages.raw_num()).kv("pc", x.pending_skipped().count);
}

template <size_t K>
static void RunSkip(vt::Rng& r, vt::Trace& t, long N) {
  Units u = Pick(r);
  g_freq = u.freq;
  Time tm{u.d, (int64_t)r(1000), 0, r};
  tm.Set();
  int ci = r.range(1, K);
  SkippedSubreleaseCorrectnessTracker<K> sk(FakeClock(), u.epoch * K, u.epoch * ci - (r(2) ? absl::ZeroDuration() : u.epoch / 2));
  t.put(J().kv("op", "new").kv("kind", "skip").kv("K", K).kv("q", tm.q).kv("ci", ci));
  for (long i = 0; i < N; ++i) {
    tm.Pass(K);
    J j;
    if (r(2)) {
      int pages = r.range(1, 20), at = 1 + r(12);
      sk.ReportSkippedSubreleasePages(Length(pages), Length(at));
      j.kv("op", "skip").kv("q", tm.q).kv("pages", pages).kv("at", at);
    } else {
      int peak = r(14);
      sk.ReportUpdatedPeak(Length(peak));
      j.kv("op", "upd").kv("q", tm.q).kv("peak", peak);
    }
    t.put(SkipObs(j, sk));
  }
}

template <size_t K>
static void RunSub(vt::Rng& r, vt::Trace& t, long N) {
  Units u = Pick(r);
  g_freq = u.freq;
  Time tm{u.d, (int64_t)r(1000), 0, r};
  tm.Set();
  int ci = r.range(1, K), cap = r.range(1, K);
  bool half = r(2);
  SubreleaseStatsTracker<K> st(FakeClock(), u.epoch * K, u.epoch * ci - (half ? u.epoch / 2 : absl::ZeroDuration()), u.epoch * cap);
  t.put(J().kv("op", "new").kv("kind", "sub").kv("K", K).kv("q", tm.q).kv("ci", ci).kv("se", half ? ci - 1 : ci).kv("cap", cap));
  for (long i = 0; i < N; ++i) {
    int what = 1 + r(12);
    J j;
    if (what < 4) {
      tm.Pass(K);
      typename SubreleaseStatsTracker<K>::SubreleaseStats s;
      int a = r(r(3) ? 12 : 1000), f = r(30), un = r(30), sr = r(5);
      s.num_pages = Length(a); s.free_pages = Length(f); s.unmapped_pages = Length(un); s.num_pages_subreleased = Length(sr);
      st.Report(s);
      j.kv("op", "srep").kv("q", tm.q).kv("a", a).kv("f", f).kv("u", un);
      t.put(SkipObs(j, st));
    } else if (what < 6) {
      tm.Pass(K);
      int pages = r(10), at = 1 + r(r(3) ? 12 : 1000);
      st.ReportSkippedSubreleasePages(Length(pages), Length(at));
      j.kv("op", "sskip").kv("q", tm.q).kv("pages", pages).kv("at", at);
      t.put(SkipObs(j, st));
    } else if (what == 6) {
      int need = PickNeed(r, K);
      t.put(j.kv("op", "peak").kv("need", need).kv("r", st.GetRecentPeak(Interval(r, u.epoch, need, u.exact)).raw_num()));
    } else if (what < 9) {
      int s = PickNeed(r, K), l = PickNeed(r, K), p = PickNeed(r, K);
      absl::Duration si = Interval(r, u.epoch, s, u.exact), li = Interval(r, u.epoch, l, u.exact);
      if (r(2)) {
        size_t v = st.GetRecentDemand(si, li, Interval(r, u.epoch, p, u.exact)).raw_num();
        t.put(j.kv("op", "demand").kv("s", s).kv("l", l).kv("p", p).kv("r", v));
      } else {
        size_t v = st.GetRecentDemand(si, li).raw_num();
        t.put(j.kv("op", "demand").kv("s", s).kv("l", l).kv("p", -2).kv("r", v));
      }
    } else if (what < 11) {
      int need = PickNeed(r, K);
      auto m = st.min_free_pages(Interval(r, u.epoch, need, u.exact));
      t.put(j.kv("op", "minfree").kv("need", need).kv("f", m.free.raw_num()).kv("b", m.free_backed.raw_num()));
    } else {
      t.put(j.kv("op", "frag").kv("r", st.RealizedFragmentation().raw_num()));
    }
  }
}

int main(int argc, char** argv) {
  if (argc != 5) return 99;
  std::string kind = argv[1];
  vt::Rng r(strtoull(argv[2], 0, 10));
  long N = atol(argv[3]);
  vt::Trace t(argv[4]);
  while (t.n < N) {
    long k = 200 + r(400);
    if (kind == "ts4") RunTs<4>(r, t, k);
    else if (kind == "ts16") RunTs<16>(r, t, k);
    else if (kind == "mm16") RunMm<16>(r, t, k);
    else if (kind == "mm600") RunMm<600>(r, t, 3 * k);
    else if (kind == "skip") { if (r(2)) RunSkip<16>(r, t, k); else RunSkip<4>(r, t, k); }
    else if (kind == "sub") { if (r(2)) RunSub<16>(r, t, k); else RunSub<4>(r, t, k); }
    else return 99;
  }
  return 0;
}
