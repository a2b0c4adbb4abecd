// Conformance driver for LinkedList, TList and HintedTrackerLists.  lists <seed> <histories> <trace>
#include "tcmalloc/internal/linked_list.h"
#include "tcmalloc/hinted_tracker_lists.h"
#include "trace.h"
#include <algorithm>
#include <memory>
using namespace tcmalloc::tcmalloc_internal;
using vt::J;
struct E : TList<E>::Elem { int id = 0; };
static vt::Trace* T;

static void LL(vt::Rng& g) {
  const int NE = 1 + g(40);
  LinkedList l; std::vector<void*> cell(NE * 2 + 2); std::vector<int> in, out;
  auto id = [&](void* p) { long d = (void**)p - cell.data(); return d >= 2 && d % 2 == 0 && d / 2 <= NE ? (int)(d / 2) : 0; };
  for (int i = 1; i <= NE; ++i) out.push_back(i);
  T->put(J().kv("op", "reset").kv("kind", "ll").kv("n", 0));
  auto fin = [&](J& j) { j.kv("len", l.length()).kv("empty", l.empty()); T->put(j); };
  auto ret = [&](int x) { auto it = std::find(in.begin(), in.end(), x); if (it != in.end()) in.erase(it), out.push_back(x); };
  for (int k = 20 + g(80); k > 0; --k) {
    int o = g(10); J j;
    if (o < 3 && !out.empty()) { int q = g(out.size()), x = out[q]; out.erase(out.begin() + q); l.Push(&cell[2 * x]); in.push_back(x); j.kv("op", "push").kv("x", x); fin(j); }
    else if (o < 5 && !out.empty()) {
      int n = 1 + g(out.size()); std::vector<void*> v; std::vector<int> xs;
      for (int i = 0; i < n; ++i) { int q = g(out.size()), x = out[q]; out.erase(out.begin() + q); v.push_back(&cell[2 * x]); xs.push_back(x); in.push_back(x); }
      l.PushBatch(n, v.data()); j.kv("op", "pushbatch").arr("xs", xs); fin(j);
    } else if (o < 8) { void* p = nullptr; bool ok = l.TryPop(&p); int x = ok ? id(p) : 0; if (ok) ret(x); j.kv("op", "trypop").kv("ok", ok).kv("x", x); fin(j); }
    else if (l.length() > 0 && l.length() <= 100) {
      int n = g.chance(30) ? l.length() : 1 + g(l.length()); std::vector<void*> v(n, nullptr); std::vector<int> xs;
      l.PopBatch(n, v.data()); for (void* p : v) { xs.push_back(id(p)); ret(xs.back()); }
      j.kv("op", "popbatch").kv("n", n).arr("xs", xs); fin(j);
    }
  }
}
template <class L> static void Dump(const L& l, int i) {
  std::vector<int> fw, bw; int c = 0;
  for (auto it = l.begin(); it != l.end() && c < 500; ++it, ++c) fw.push_back((*it)->id);
  c = 0; for (auto it = l.rbegin(); it != l.rend() && c < 500; ++it, ++c) bw.push_back((*it)->id);
  J j; j.kv("op", "list").kv("i", i).arr("fw", fw).arr("bw", bw).kv("len", l.length()).kv("empty", l.empty());
  j.kv("first", l.empty() ? 0 : l.first()->id).kv("last", l.empty() ? 0 : l.last()->id);
  T->put(j);
}
static void TL(vt::Rng& g) {
  const int NE = 1 + g(12), NB = 1 + g(3);
  std::vector<TList<E>> b(NB); std::vector<E> e(NE + 1); std::vector<int> at(NE + 1, -1);
  for (int i = 0; i <= NE; ++i) e[i].id = i;
  T->put(J().kv("op", "reset").kv("kind", "tl").kv("n", NB));
  for (int k = 20 + g(60); k > 0; --k) {
    int x = 1 + g(NE), y = 1 + g(NE), i = g(NB);
    if (at[x] >= 0) { i = at[x]; bool r = b[i].remove(&e[x]); at[x] = -1; T->put(J().kv("op", "remove").kv("x", x).kv("i", i + 1).kv("empty", r)); }
    else if (g.chance(50) && at[y] >= 0) { i = at[y]; bool pre = g.chance(50); if (pre) b[i].prepend(&e[y], &e[x]); else b[i].append(&e[y], &e[x]); at[x] = i; T->put(J().kv("op", pre ? "prependto" : "appendto").kv("x", x).kv("y", y).kv("i", i + 1)); }
    else { bool pre = g.chance(50); if (pre) b[i].prepend(&e[x]); else b[i].append(&e[x]); at[x] = i; T->put(J().kv("op", pre ? "prepend" : "append").kv("x", x).kv("i", i + 1)); }
    for (int q = 0; q < NB; ++q) Dump(b[q], q + 1);
  }
}
template <int N> static void HT(vt::Rng& g) {
  const int NE = 1 + g(16);
  auto h = std::make_unique<HintedTrackerLists<E, N>>(); std::vector<E> e(NE + 1); std::vector<int> at(NE + 1, -1);
  for (int i = 0; i <= NE; ++i) e[i].id = i;
  T->put(J().kv("op", "reset").kv("kind", "ht").kv("n", N));
  auto bucket = [&] { switch (g(4)) { case 0: return (int)g(N); case 1: return (int)(g(4) * 64 + g(2) * 63) % N; case 2: return N - 1 - (int)g(std::min(3, N)); default: return (int)g(std::min(4, N)); } };
  auto check = [&] {
    std::vector<int> xs; int s = g.chance(50) ? 0 : bucket(); int c = 0;
    h->Iter([&](E& x) { if (++c < 500) xs.push_back(x.id); }, s);
    T->put(J().kv("op", "iter").kv("n", s + 1).arr("xs", xs).kv("size", h->size()));
    int p = bucket(); auto r = h->PeekLeast(p); T->put(J().kv("op", "peekleast").kv("n", p + 1).kv("x", r.tracker ? r.tracker->id : 0).kv("i", r.index + 1));
    int q = bucket(); if (h->SizeOfList(q) != (*h)[q].length()) T->put(J().kv("op", "sizemismatch")); Dump((*h)[q], q + 1);
  };
  for (int k = 20 + g(80); k > 0; --k) {
    int x = 1 + g(NE), i = bucket(), j = bucket();
    if (g.chance(15)) { E* p = h->GetLeast(j); if (p) at[p->id] = -1; T->put(J().kv("op", "getleast").kv("n", j + 1).kv("x", p ? p->id : 0)); }
    else if (at[x] < 0) { h->Add(&e[x], i); at[x] = i; T->put(J().kv("op", "prepend").kv("x", x).kv("i", i + 1)); }
    else if (g.chance(50) && at[x] != j) { h->Move(&e[x], at[x], j); T->put(J().kv("op", "move").kv("x", x).kv("i", at[x] + 1).kv("j", j + 1)); at[x] = j; }
    else { h->Remove(&e[x], at[x]); T->put(J().kv("op", "remove").kv("x", x).kv("i", at[x] + 1)); at[x] = -1; }
    check();
  }
}
int main(int argc, char** argv) {
  vt::Rng g(atoll(argv[1])); long n = atol(argv[2]); vt::Trace t(argv[3]); T = &t;
  for (long k = 0; k < n; ++k) {
    switch (g(7)) { case 0: case 1: LL(g); break; case 2: case 3: TL(g); break; case 4: HT<3>(g); break; case 5: HT<70>(g); break; case 6: HT<256>(g); break; }
  }
}
