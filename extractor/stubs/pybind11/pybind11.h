// Stand-in for pybind11, declarations only: lets the extractor type-check the binding sources.
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
namespace pybind11 {
struct handle {};
struct object : handle {};
struct tuple : object {};
struct list : object {};
struct dict : object {};
struct module_ : object {
    const char* doc();
    template <class... A> module_& def(const char*, A&&...) { return *this; }
    module_ def_submodule(const char*, const char* = nullptr);
};
typedef module_ module;
template <class... A> tuple make_tuple(A&&...) { return tuple(); }
template <class T> T cast(const handle&);
template <class T> object cast(const T&);
struct arg_v {};
struct arg {
    explicit arg(const char* = nullptr);
    template <class T> arg_v operator=(T&&) const;
    arg& noconvert(bool = true);
};
struct module_local { module_local(bool = true); };
struct is_operator {};
struct dynamic_attr {};
struct arithmetic {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... A> struct keep_alive_ {};
template <class... A> struct init_ {};
template <class... A> init_<A...> init();
template <class F> init_<F> init(F) { return init_<F>(); }
template <class... A> struct overload_cast_ {
    template <class R> auto operator()(R (*f)(A...)) const -> R (*)(A...);
    template <class R, class C> auto operator()(R (C::*f)(A...)) const -> R (C::*)(A...);
    template <class R, class C> auto operator()(R (C::*f)(A...) const) const -> R (C::*)(A...) const;
    template <class R, class C> auto operator()(R (C::*f)(A...) const, bool) const -> R (C::*)(A...) const;
};
template <class... A> constexpr overload_cast_<A...> overload_cast{};
constexpr bool const_ = true;
template <class T, class... O> struct class_ : object {
    template <class... E> class_(handle, const char*, E&&...) {}
    template <class F, class... E> class_& def(const char*, F&&, E&&...) { return *this; }
    template <class... A, class... E> class_& def(init_<A...>, E&&...) { return *this; }
    template <class Op, class... E> class_& def(const Op&, E&&...) { return *this; }
    template <class F, class... E> class_& def_static(const char*, F&&, E&&...) { return *this; }
    template <class G, class S, class... E> class_& def_property(const char*, G&&, S&&, E&&...) { return *this; }
    template <class G, class... E> class_& def_property_readonly(const char*, G&&, E&&...) { return *this; }
    template <class C, class D, class... E> class_& def_readwrite(const char*, D C::*, E&&...) { return *this; }
    template <class C, class D, class... E> class_& def_readonly(const char*, D C::*, E&&...) { return *this; }
    template <class D, class... E> class_& def_readonly_static(const char*, D*, E&&...) { return *this; }
};
template <class T> struct enum_ : object {
    template <class... E> enum_(handle, const char*, E&&...);
    enum_& value(const char*, T, const char* = nullptr);
    enum_& export_values();
};
}
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(::pybind11::module_& m)
