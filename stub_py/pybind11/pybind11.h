// Stand-in for pybind11 used only to extract the bindings' code: registrations become calls the verifier records,
// conversions of Python objects stay opaque calls whose meaning is an assumed contract (vcg/contracts/py.py).
#pragma once
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <array>
extern "C" {
  void verif_py_function(const char* cls, const char* name, const void* fn);
  void verif_py_init(const char* cls, int nargs);
  void verif_py_keep(const char* cls, const char* name, int nurse, int patient);
  void verif_py_arg(const char* cls, const char* name, const char* arg);
  void verif_py_default(const char* cls, const char* name, const char* arg, int value);
  void verif_py_value(const char* cls, const char* name, int value);
}
namespace pybind11 {
struct handle { void* ptr; };
struct object : handle { object(const object&); ~object(); template <class T> T cast() const; };
struct int_ : object {}; struct float_ : object {}; struct str : object {}; struct bool_ : object {};
template <class T> bool isinstance(const object& o);
struct index_error : std::runtime_error { index_error(); explicit index_error(const char*); };
struct value_error : std::runtime_error { value_error(); explicit value_error(const char*); };
struct key_error : std::runtime_error { key_error(); explicit key_error(const char*); };
struct type_error : std::runtime_error { type_error(); explicit type_error(const char*); };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <int N, int P> struct keep_alive {};
template <class... A> struct init {};
struct arg_v { const char* name; int value; };
struct arg { const char* name; explicit arg(const char* n) : name(n) {} template <class T> arg_v operator=(const T& v) const { return arg_v{name, (int) v}; } };
namespace detail {
template <int N, int P> inline void extra(const char* c, const char* n, const keep_alive<N, P>&) { verif_py_keep(c, n, N, P); }
inline void extra(const char*, const char*, const return_value_policy&) {}
inline void extra(const char*, const char*, const char*) {}
inline void extra(const char* c, const char* n, const arg& a) { verif_py_arg(c, n, a.name); }
inline void extra(const char* c, const char* n, const arg_v& a) { verif_py_arg(c, n, a.name); verif_py_default(c, n, a.name, a.value); }
inline void extras(const char*, const char*) {}
template <class X, class... Y> inline void extras(const char* c, const char* n, const X& x, const Y&... y) { extra(c, n, x); extras(c, n, y...); }
template <class F, class = std::enable_if_t<!std::is_member_function_pointer<F>::value>> inline const void* address(const F& f) { return (const void*) +f; }
template <class F, class = std::enable_if_t<std::is_member_function_pointer<F>::value>, class = void> inline const void* address(const F& f) { union { F f; const void* p; } u; u.f = f; return u.p; }
}
struct doc_attr { void operator=(const char*) {} };
struct module_ {
  doc_attr doc() { return {}; }
  template <class F, class... X> module_& def(const char* name, const F& f, const X&... x) { verif_py_function("", name, detail::address(f)); detail::extras("", name, x...); return *this; }
};
template <class T, class... O> struct class_ {
  const char* cls;
  class_(module_&, const char* n) : cls(n) {}
  template <class F, class... X> class_& def(const char* name, const F& f, const X&... x) { verif_py_function(cls, name, detail::address(f)); detail::extras(cls, name, x...); return *this; }
  template <class... A, class... X> class_& def(init<A...>, const X&...) { verif_py_init(cls, (int) sizeof...(A)); return *this; }
};
template <class T> struct enum_ {
  const char* cls;
  enum_(module_&, const char* n) : cls(n) {}
  enum_& value(const char* name, T v, const char* = nullptr) { verif_py_value(cls, name, (int) v); return *this; }
  enum_& export_values() { return *this; }
};
}
#define PYBIND11_MODULE(name, var) void pybind11_init_##name(pybind11::module_& var)
