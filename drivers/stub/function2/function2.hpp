// Stand-in for the header of the same name, which is not installed here: a move-only owner of one callable, which is what the library
// uses of it.  Its behaviour is an assumed contract of that dependency; none of google/cpp-async-rpc's own code is in here.
#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
namespace fu2 {
template <typename S> class unique_function;
template <typename R, typename... A> class unique_function<R(A...)> {
  void* object_ = nullptr;
  R (*call_)(void*, A...) = nullptr;
  void (*drop_)(void*) = nullptr;
  void drop() { if (object_) drop_(object_); object_ = nullptr; call_ = nullptr; drop_ = nullptr; }
  void take(unique_function& o) { object_ = o.object_; call_ = o.call_; drop_ = o.drop_; o.object_ = nullptr; o.call_ = nullptr; o.drop_ = nullptr; }
 public:
  unique_function() {}
  unique_function(std::nullptr_t) {}
  unique_function(const unique_function&) = delete;
  unique_function(unique_function&& o) { take(o); }
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, unique_function>>> unique_function(F&& f) {
    using T = std::decay_t<F>;
    object_ = new T(std::forward<F>(f));
    call_ = [](void* o, A... a) -> R { if constexpr (std::is_void_v<R>) { (*static_cast<T*>(o))(std::forward<A>(a)...); } else { return (*static_cast<T*>(o))(std::forward<A>(a)...); } };
    drop_ = [](void* o) { delete static_cast<T*>(o); };
  }
  ~unique_function() { drop(); }
  unique_function& operator=(unique_function&& o) { if (this != &o) { drop(); take(o); } return *this; }
  R operator()(A... a) { return call_(object_, std::forward<A>(a)...); }
  explicit operator bool() const { return object_ != nullptr; }
};
}
