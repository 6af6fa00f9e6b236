// Stand-in for Emscripten's binding layer: what a module exports is recorded by name, and called by the harness with
// dynamically typed values, as JavaScript would.
#pragma once
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>
#include <stdexcept>
namespace verif_js {
struct Val { uint64_t i = 0; std::string s; std::vector<uint8_t> b; void *p = nullptr; Val() {} Val(int x) : i((uint64_t)(int64_t)x) {} Val(unsigned x) : i(x) {} Val(const std::string &x) : s(x) {} Val(const std::vector<uint8_t> &x) : b(x) {} };
template <class T, class = void> struct Conv { static T &from(const Val &v) { return *(T *)v.p; } };
template <class T> struct Conv<T, std::enable_if_t<std::is_integral<T>::value || std::is_enum<T>::value>> { static T from(const Val &v) { return (T)v.i; } static Val to(T x) { Val v; v.i = (uint64_t)x; return v; } };
template <> struct Conv<std::string> { static const std::string &from(const Val &v) { return v.s; } static Val to(const std::string &x) { return Val(x); } };
template <> struct Conv<std::vector<uint8_t>> { static const std::vector<uint8_t> &from(const Val &v) { return v.b; } static Val to(const std::vector<uint8_t> &x) { return Val(x); } };
template <class R> struct Ret { template <class F> static Val call(F f) { if constexpr (std::is_void<R>::value) { f(); return Val(); } else if constexpr (std::is_class<R>::value && !std::is_same<R, std::string>::value && !std::is_same<R, std::vector<uint8_t>>::value) { Val v; v.p = new R(f()); return v; } else return Conv<R>::to(f()); } };
struct Fn { const char *cls, *name; bool member; Fn *next; virtual Val call(void *self, const Val *a) = 0; virtual ~Fn() {} };
inline Fn *&head() { static Fn *h = nullptr; return h; }
template <class T> using D = std::decay_t<T>;
template <class R, class... A> struct Free : Fn { R (*f)(A...); template <size_t... I> Val go(const Val *a, std::index_sequence<I...>) { return Ret<D<R>>::call([&]() -> R { return f(Conv<D<A>>::from(a[I])...); }); } Val call(void *, const Val *a) override { return go(a, std::index_sequence_for<A...>()); } };
template <class T, class M, class R, class... A> struct Meth : Fn { M f; template <size_t... I> Val go(void *o, const Val *a, std::index_sequence<I...>) { return Ret<D<R>>::call([&]() -> R { return (((T *)o)->*f)(Conv<D<A>>::from(a[I])...); }); } Val call(void *o, const Val *a) override { return go(o, a, std::index_sequence_for<A...>()); } };
inline void reg(Fn *x, const char *c, const char *n, bool m) { x->cls = c; x->name = n; x->member = m; x->next = head(); head() = x; }
inline Fn *find(const char *c, const char *n) { for (Fn *x = head(); x; x = x->next) if (!strcmp(x->cls, c) && !strcmp(x->name, n)) return x; return nullptr; }
}
namespace emscripten {
template <class R, class... A> void function(const char *n, R (*f)(A...)) { auto x = new verif_js::Free<R, A...>; x->f = f; verif_js::reg(x, "", n, false); }
template <class T> struct class_ {
  const char *c; explicit class_(const char *n) : c(n) {}
  template <class R, class... A> const class_ &class_function(const char *n, R (*f)(A...)) const { auto x = new verif_js::Free<R, A...>; x->f = f; verif_js::reg(x, c, n, false); return *this; }
  template <class R, class... A> const class_ &function(const char *n, R (T::*f)(A...)) const { auto x = new verif_js::Meth<T, R (T::*)(A...), R, A...>; x->f = f; verif_js::reg(x, c, n, true); return *this; }
  template <class R, class... A> const class_ &function(const char *n, R (T::*f)(A...) const) const { auto x = new verif_js::Meth<T, R (T::*)(A...) const, R, A...>; x->f = f; verif_js::reg(x, c, n, true); return *this; }
};
template <class T> void register_vector(const char *) {}
inline std::vector<std::pair<std::string, uint64_t>> &verif_enums() { static std::vector<std::pair<std::string, uint64_t>> v; return v; }
template <class E> struct enum_ { std::string n; explicit enum_(const char *x) : n(x) {} const enum_ &value(const char *k, E e) const { verif_enums().push_back({n + "." + k, (uint64_t)e}); return *this; } };
}
#define EMSCRIPTEN_BINDINGS(n) static struct verif_bind_##n { verif_bind_##n(); } verif_bind_inst_##n; verif_bind_##n::verif_bind_##n()
