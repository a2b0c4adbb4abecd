#ifndef VERIF_COMPAT_ABSL_LOG_LOG_H_
#define VERIF_COMPAT_ABSL_LOG_LOG_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace verif_log {
struct Msg { bool fatal; bool on; std::ostringstream s;
  Msg(bool f, bool o = true) : fatal(f), on(o) {}
  ~Msg() { if (!on) return; std::cerr << s.str() << std::endl; if (fatal) abort(); }
  template <typename T> Msg& operator<<(const T& v) { if constexpr (requires { s << v; }) s << v; else s << "<?>"; return *this; } };
struct Voidify { void operator&(Msg&) {} void operator&(Msg&&) {} };
}
#define VERIF_LOG_INFO verif_log::Msg(false, false)
#define VERIF_LOG_WARNING verif_log::Msg(false)
#define VERIF_LOG_ERROR verif_log::Msg(false)
#define VERIF_LOG_FATAL verif_log::Msg(true)
#define LOG(x) VERIF_LOG_##x
#define PLOG(x) VERIF_LOG_##x
#define CHECK(c) (c) ? (void)0 : verif_log::Voidify() & verif_log::Msg(true) << "CHECK failed: " #c " " << __FILE__ << ":" << __LINE__ << " "
#define VERIF_CHK(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) VERIF_CHK(a, ==, b)
#define CHECK_NE(a, b) VERIF_CHK(a, !=, b)
#define CHECK_LT(a, b) VERIF_CHK(a, <, b)
#define CHECK_LE(a, b) VERIF_CHK(a, <=, b)
#define CHECK_GT(a, b) VERIF_CHK(a, >, b)
#define CHECK_GE(a, b) VERIF_CHK(a, >=, b)
#define CHECK_OK(s) CHECK((s).ok())
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define ABSL_CHECK_GE CHECK_GE
#endif
