// Declarations standing in for pybind11 so that the bindings can be type-checked without it.
#pragma once
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct object {}; struct handle {}; struct none {};
struct arg_v { const char* name; };
struct arg {
    const char* name;
    constexpr explicit arg(const char* n = nullptr) : name(n) {}
    template <class T> arg_v operator=(T&&) const;
    arg& noconvert(bool = true); arg& none(bool = true);
};
namespace literals { arg operator""_a(const char*, std::size_t); }
struct module_local { explicit module_local(bool = true) {} };
struct doc { explicit doc(const char*) {} };
struct name { explicit name(const char*) {} };
struct dynamic_attr {}; struct buffer_protocol {}; struct is_operator {}; struct arithmetic {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <std::size_t, std::size_t> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <class... A> struct init_t {};
template <class... A> init_t<A...> init();
template <class F> struct factory_t {};
template <class F> factory_t<F> init(F&&);
template <class... A> struct overload_cast_t {
    template <class R> constexpr auto operator()(R (*f)(A...)) const -> R (*)(A...) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> R (C::*)(A...) { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> R (C::*)(A...) const { return f; }
};
template <class... A> static constexpr overload_cast_t<A...> overload_cast = {};
static constexpr std::true_type const_ = {};
class module_ {
public:
    template <class F, class... X> module_& def(const char*, F&&, const X&...);
    module_ def_submodule(const char*, const char* = nullptr);
    object attr(const char*); object& doc();
};
typedef module_ module;
template <class T, class... O> class class_ {
public:
    template <class S, class... X> class_(S&, const char*, const X&...);
    template <class... A, class... X> class_& def(init_t<A...>, const X&...) { static_assert(std::is_constructible<T, A...>::value, "slsm: no such constructor"); return *this; }
    template <class F, class... X> class_& def(factory_t<F>, const X&...);
    template <class F, class... X> class_& def(const char*, F&&, const X&...);
    template <class F, class... X> class_& def_static(const char*, F&&, const X&...);
    template <class D, class C, class... X> class_& def_readwrite(const char*, D C::*, const X&...) { static_assert(std::is_base_of<C, T>::value, "slsm: member of another class"); return *this; }
    template <class D, class C, class... X> class_& def_readonly(const char*, const D C::*, const X&...) { static_assert(std::is_base_of<C, T>::value, "slsm: member of another class"); return *this; }
    template <class F, class... X> class_& def_property_readonly(const char*, F&&, const X&...);
    template <class F, class G, class... X> class_& def_property(const char*, F&&, G&&, const X&...);
    template <class X> class_& def(const X&);
};
template <class E> class enum_ : public class_<E> {
public:
    template <class S, class... X> enum_(S& s, const char* n, const X&... x) : class_<E>(s, n, x...) {}
    enum_& value(const char*, E, const char* = nullptr); enum_& export_values();
};
}
#define PYBIND11_MODULE(NAME, VAR) void pybind11_init_##NAME(::pybind11::module_& VAR)
#define PYBIND11_PLUGIN(NAME) ::pybind11::object* pybind11_init_##NAME()
#define PYBIND11_MAKE_OPAQUE(...) namespace pybind11 { typedef __VA_ARGS__ PYBIND11_CAT_(opaque_, __LINE__); }
#define PYBIND11_CAT_(A, B) PYBIND11_CAT2_(A, B)
#define PYBIND11_CAT2_(A, B) A##B
