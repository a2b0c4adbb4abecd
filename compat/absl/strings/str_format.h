// A small stand-in for absl/strings/str_format.h with %v / AbslStringify, which
// the installed abseil 20220623 lacks.  Never allocates in SNPrintF.
#ifndef VERIF_COMPAT_ABSL_STR_FORMAT_H_
#define VERIF_COMPAT_ABSL_STR_FORMAT_H_
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>

#include "absl/strings/string_view.h"
#include "absl/time/time.h"

namespace absl {
namespace verif_fmt {

struct Sink {
  void (*put)(void* ctx, const char* p, size_t n);
  void* ctx;
  void Append(std::string_view s) { put(ctx, s.data(), s.size()); }
  void Append(size_t n, char c) { while (n--) put(ctx, &c, 1); }
  friend void AbslFormatFlush(Sink* s, std::string_view v) { s->Append(v); }
};

template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};

struct Arg {
  enum K { kI, kU, kD, kP, kS, kC, kB, kF } k;
  union { long long i; unsigned long long u; double d; const volatile void* p; struct { const char* s; size_t n; } s; struct { const void* o; void (*f)(Sink&, const void*); } f; };
};

inline void PutDur(Sink& s, absl::Duration d) {
  char b[64]; int n = snprintf(b, sizeof(b), "%gs", absl::ToDoubleSeconds(d));
  s.Append({b, (size_t)n});
}

template <typename T>
Arg Make(const T& v) {
  Arg a;
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) { a.k = Arg::kB; a.u = v; }
  else if constexpr (std::is_same_v<D, char>) { a.k = Arg::kC; a.i = v; }
  else if constexpr (HasStringify<T>::value) {
    a.k = Arg::kF; a.f.o = &v; a.f.f = [](Sink& s, const void* o) { AbslStringify(s, *static_cast<const T*>(o)); };
  }
  else if constexpr (std::is_same_v<D, absl::Duration>) {
    a.k = Arg::kF; a.f.o = &v; a.f.f = [](Sink& s, const void* o) { PutDur(s, *static_cast<const absl::Duration*>(o)); };
  }
  else if constexpr (std::is_enum_v<D>) return Make(static_cast<std::underlying_type_t<D>>(v));
  else if constexpr (std::is_integral_v<D>) { if constexpr (std::is_signed_v<D>) { a.k = Arg::kI; a.i = v; } else { a.k = Arg::kU; a.u = v; } }
  else if constexpr (std::is_floating_point_v<D>) { a.k = Arg::kD; a.d = v; }
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view s = v; a.k = Arg::kS; a.s.s = s.data(); a.s.n = s.size(); }
  else if constexpr (std::is_convertible_v<const T&, absl::string_view>) { absl::string_view s = v; a.k = Arg::kS; a.s.s = s.data(); a.s.n = s.size(); }
  else if constexpr (std::is_pointer_v<D>) { a.k = Arg::kP; a.p = (const volatile void*)v; }
  else if constexpr (std::is_same_v<D, std::nullptr_t>) { a.k = Arg::kP; a.p = nullptr; }
  else { a.k = Arg::kS; a.s.s = "<?>"; a.s.n = 3; }
  return a;
}

inline void Run(Sink& out, std::string_view f, const Arg* args, size_t nargs) {
  size_t ai = 0;
  for (size_t i = 0; i < f.size();) {
    size_t j = f.find('%', i);
    if (j == std::string_view::npos) j = f.size();
    if (j > i) out.Append(f.substr(i, j - i));
    i = j;
    if (i >= f.size()) break;
    ++i;
    if (i < f.size() && f[i] == '%') { out.Append("%"); ++i; continue; }
    char flags[32]; int fn = 0; flags[fn++] = '%';
    while (i < f.size() && fn < 24 && strchr("-+ #0", f[i])) flags[fn++] = f[i++];
    bool had_width_or_prec = false;
    while (i < f.size() && fn < 24 && (strchr("0123456789.", f[i]) || f[i] == '*')) {
      had_width_or_prec = true;
      if (f[i] == '*') { fn += snprintf(flags + fn, sizeof(flags) - fn, "%lld", ai < nargs ? args[ai].i : 0); ++ai; ++i; }
      else flags[fn++] = f[i++];
    }
    while (i < f.size() && strchr("hlLqjzt", f[i])) ++i;
    if (i >= f.size()) break;
    char c = f[i++];
    if (ai >= nargs) { out.Append("<missing>"); continue; }
    const Arg& a = args[ai++];
    char b[400]; int n = 0;
    auto emit = [&](const char* suf, auto v) { strcpy(flags + fn, suf); n = snprintf(b, sizeof(b), flags, v); if (n > (int)sizeof(b) - 1) n = sizeof(b) - 1; out.Append({b, (size_t)n}); };
    switch (a.k) {
      case Arg::kI: if (c == 'v' || c == 'd' || c == 'i') emit("lld", a.i); else if (c == 'c') emit("c", (int)a.i); else if (strchr("fgeFGE", c)) { char s[2] = {c, 0}; emit(s, (double)a.i); } else { char s[4] = {'l', 'l', c, 0}; emit(s, a.i); } break;
      case Arg::kU: if (c == 'v' || c == 'd' || c == 'i' || c == 'u') emit("llu", a.u); else if (c == 'c') emit("c", (int)a.u); else if (strchr("fgeFGE", c)) { char s[2] = {c, 0}; emit(s, (double)a.u); } else { char s[4] = {'l', 'l', c, 0}; emit(s, a.u); } break;
      case Arg::kD: { char s[2] = {c == 'v' ? 'g' : c, 0}; if (!strchr("aAeEfFgG", s[0])) s[0] = 'g'; emit(s, a.d); break; }
      case Arg::kB: if (c == 'v') out.Append(a.u ? "true" : "false"); else if (c == 's') out.Append(a.u ? "true" : "false"); else emit("llu", a.u); break;
      case Arg::kC: if (c == 'c' || c == 'v') emit("c", (int)a.i); else emit("lld", a.i); break;
      case Arg::kP: emit("p", const_cast<const void*>(a.p)); break;
      case Arg::kS: if (!had_width_or_prec && fn == 1) out.Append({a.s.s, a.s.n}); else { char t[256]; size_t k = a.s.n < 255 ? a.s.n : 255; memcpy(t, a.s.s, k); t[k] = 0; emit("s", (const char*)t); } break;
      case Arg::kF: a.f.f(out, a.f.o); break;
    }
  }
}

template <typename... A>
void RunArgs(Sink& out, std::string_view f, const A&... a) {
  const Arg arr[sizeof...(A) + 1] = {Make(a)..., Arg{}};
  Run(out, f, arr, sizeof...(A));
}

}  // namespace verif_fmt

struct FormatSpecImpl {
  std::string_view f;
  constexpr FormatSpecImpl(const char* s) : f(s) {}
  constexpr FormatSpecImpl(std::string_view s) : f(s) {}
};
namespace verif_fmt {
template <typename... A>
struct SpecOf { using type = FormatSpecImpl; };
}
// Non-deduced, as in abseil, when used as a parameter beside the arguments.
template <typename... A>
using FormatSpec = typename verif_fmt::SpecOf<A...>::type;

template <typename... A>
int SNPrintF(char* buf, size_t size, FormatSpecImpl spec, const A&... a) {
  std::string_view f = spec.f;
  struct C { char* b; size_t cap; size_t n; } c{buf, size, 0};
  verif_fmt::Sink s{[](void* x, const char* p, size_t n) { C* c = (C*)x; for (size_t i = 0; i < n; ++i, ++c->n) if (c->n + 1 < c->cap) c->b[c->n] = p[i]; }, &c};
  verif_fmt::RunArgs(s, f, a...);
  if (size) buf[c.n < size ? c.n : size - 1] = 0;
  return (int)c.n;
}
template <typename... A>
std::string& StrAppendFormat(std::string* d, std::string_view f, const A&... a) {
  verif_fmt::Sink s{[](void* x, const char* p, size_t n) { ((std::string*)x)->append(p, n); }, d};
  verif_fmt::RunArgs(s, f, a...);
  return *d;
}
template <typename... A>
[[nodiscard]] std::string StrFormat(std::string_view f, const A&... a) { std::string r; StrAppendFormat(&r, f, a...); return r; }
template <typename... A>
[[nodiscard]] std::string StreamFormat(std::string_view f, const A&... a) { std::string r; StrAppendFormat(&r, f, a...); return r; }
template <typename S, typename... A>
bool Format(S* sink, std::string_view f, const A&... a) {
  verif_fmt::Sink s{[](void* x, const char* p, size_t n) {
    if constexpr (std::is_same_v<S, std::string>) ((S*)x)->append(p, n); else ((S*)x)->Append(std::string_view(p, n)); }, sink};
  verif_fmt::RunArgs(s, f, a...);
  return true;
}
template <typename... A>
int FPrintF(FILE* o, std::string_view f, const A&... a) {
  verif_fmt::Sink s{[](void* x, const char* p, size_t n) { fwrite(p, 1, n, (FILE*)x); }, o};
  verif_fmt::RunArgs(s, f, a...);
  return 0;
}
template <typename... A>
int PrintF(std::string_view f, const A&... a) { return FPrintF(stdout, f, a...); }

}  // namespace absl
#endif
