// Minimal ndjson trace writer and script reader shared by the conformance drivers.
#ifndef VERIF_DRIVERS_TRACE_H_
#define VERIF_DRIVERS_TRACE_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace vt {

// One JSON object under construction.
struct J {
  std::string s = "{";
  bool first = true;
  void key(const char* k) {
    if (!first) s += ',';
    first = false;
    s += '"';
    s += k;
    s += "\":";
  }
  J& kv(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  J& kv(const char* k, unsigned long long v) { return kv(k, (long long)v); }
  J& kv(const char* k, long v) { return kv(k, (long long)v); }
  J& kv(const char* k, unsigned long v) { return kv(k, (long long)v); }
  J& kv(const char* k, int v) { return kv(k, (long long)v); }
  J& kv(const char* k, unsigned v) { return kv(k, (long long)v); }
  J& kv(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& kv(const char* k, const char* v) { key(k); s += '"'; s += v; s += '"'; return *this; }
  J& kv(const char* k, const std::string& v) { return kv(k, v.c_str()); }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  template <typename T>
  J& arr(const char* k, const std::vector<T>& v) {
    key(k);
    s += '[';
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) s += ',';
      s += std::to_string(v[i]);
    }
    s += ']';
    return *this;
  }
  std::string str() const { return s + "}"; }
};

inline std::string Arr(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) s += ',';
    s += v[i];
  }
  return s + "]";
}
template <typename T>
inline std::string Nums(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) s += ',';
    s += std::to_string(v[i]);
  }
  return s + "]";
}

struct Trace {
  FILE* f = nullptr;
  long n = 0;
  explicit Trace(const char* path) {
    f = fopen(path, "w");
    if (!f) { perror("trace"); _exit(99); }
    setvbuf(f, nullptr, _IOFBF, 1 << 20);
  }
  void put(const J& j) {
    std::string s = j.str();
    s += '\n';
    fwrite(s.data(), 1, s.size(), f);
    ++n;
  }
  void flush() { fflush(f); }
  ~Trace() { fclose(f); }
  static void _exit(int c) { ::exit(c); }
};

// Deterministic generator (splitmix64).
struct Rng {
  uint64_t x;
  explicit Rng(uint64_t s) : x(s) { x = next() ^ (s << 32); x = next(); }  // scramble: consecutive seeds must not give shifted streams
  uint64_t next() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + (*this)(hi - lo + 1); }
  bool chance(int pct) { return (int)(*this)(100) < pct; }
};

// A script: lines of blank-separated words.
inline std::vector<std::vector<std::string>> ReadScript(const char* path) {
  std::vector<std::vector<std::string>> r;
  std::ifstream in(path);
  if (!in) { fprintf(stderr, "cannot read %s\n", path); exit(99); }
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::vector<std::string> w;
    std::string x;
    while (is >> x) w.push_back(x);
    if (!w.empty()) r.push_back(w);
  }
  return r;
}

}  // namespace vt
#endif
