#ifndef VERIF_COMPAT_ABSL_NO_DESTRUCTOR_H_
#define VERIF_COMPAT_ABSL_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit constexpr NoDestructor(A&&... a) { new (&s_) T(std::forward<A>(a)...); }
  NoDestructor(const NoDestructor&) = delete;
  T& operator*() { return *get(); }
  T* operator->() { return get(); }
  T* get() { return reinterpret_cast<T*>(&s_); }
 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
}
#endif
