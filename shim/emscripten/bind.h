// Stand-in for embind (no emscripten offline): records every binding in a table and makes it callable with
// type-erased arguments, so that a monitor can use the JavaScript modules as JavaScript would.
#ifndef VERIF_SHIM_BIND_H
#define VERIF_SHIM_BIND_H
#include <any>
#include <cstdint>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace emscripten {
namespace reg {
typedef std::vector<std::any> Args;                       // numbers, booleans and enumerators travel as long long
typedef std::function<std::any(Args &)> Fn;
struct Class { std::map<std::string, Fn> statics, methods; };
struct Module {
    std::map<std::string, Fn> functions;
    std::map<std::string, std::map<std::string, long long>> enums;
    std::map<std::string, Class> classes;
    std::vector<std::string> vectors;
    std::vector<std::string> clashes;                     // a name bound twice
};
inline std::map<std::string, Module> &modules() { static std::map<std::string, Module> m; return m; }
inline Module *&current() { static Module *m = nullptr; return m; }
inline Module &enter(const char *file) {
    std::string f = file;
    size_t s = f.rfind('/');
    if (s != std::string::npos) f = f.substr(s + 1);
    return modules()[f];
}
struct TypeError : std::logic_error { using std::logic_error::logic_error; };

template <class T> decltype(auto) from(std::any &a) {
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type D;
    if constexpr (std::is_integral<D>::value || std::is_enum<D>::value) {
        if (!std::any_cast<long long>(&a)) throw TypeError("a number was expected");
        return static_cast<D>(*std::any_cast<long long>(&a));
    } else {
        D *p = std::any_cast<D>(&a);
        if (!p) throw TypeError("argument of another type");
        return static_cast<D &>(*p);
    }
}
template <class R> std::any back(R &&r) {
    typedef typename std::remove_cv<typename std::remove_reference<R>::type>::type D;
    if constexpr (std::is_integral<D>::value || std::is_enum<D>::value) return std::any((long long) r);
    else return std::any(D(std::forward<R>(r)));
}
template <class R, class F, class... A, size_t... I> std::any call(F &f, Args &a, std::index_sequence<I...>) {
    if (a.size() != sizeof...(A)) throw TypeError("wrong number of arguments");
    if constexpr (std::is_void<R>::value) { f(from<A>(a[I])...); return std::any(); }
    else return back<R>(f(from<A>(a[I])...));
}
template <class R, class... A> Fn wrap(R (*f)(A...)) {
    return [f](Args &a) { auto g = f; return call<R, decltype(g), A...>(g, a, std::index_sequence_for<A...>()); };
}
template <class C, class R, class... A> Fn wrap(R (C::*f)(A...)) {
    return [f](Args &a) {
        auto g = [f](C &c, A... x) -> R { return (c.*f)(std::forward<A>(x)...); };
        return call<R, decltype(g), C &, A...>(g, a, std::index_sequence_for<C, A...>());
    };
}
template <class C, class R, class... A> Fn wrap(R (C::*f)(A...) const) {
    return [f](Args &a) {
        auto g = [f](C &c, A... x) -> R { return (c.*f)(std::forward<A>(x)...); };
        return call<R, decltype(g), C &, A...>(g, a, std::index_sequence_for<C, A...>());
    };
}
template <class F> auto wrap(const F &f) -> decltype(+f, Fn()) { return wrap(+f); }
template <class M> void put(M &m, const std::string &scope, const char *name, Fn f) {
    if (m.count(name)) current()->clashes.push_back(scope + name);
    m[name] = f;
}
}  // namespace reg

struct allow_raw_pointers {};
template <class T> void register_vector(const char *name) { reg::current()->vectors.push_back(name); }
template <class F, class... P> void function(const char *name, F f, P...) { reg::put(reg::current()->functions, "", name, reg::wrap(f)); }
template <class S> S select_overload(S s) { return s; }
template <class F> F optional_override(F f) { return f; }

template <class E> struct enum_ {
    std::map<std::string, long long> *m;
    explicit enum_(const char *name) : m(&reg::current()->enums[name]) {}
    enum_ &value(const char *name, E v) { (*m)[name] = (long long) v; return *this; }
};
template <class C> struct class_ {
    std::string name;
    reg::Class *c;
    explicit class_(const char *n) : name(n), c(&reg::current()->classes[n]) {}
    template <class F, class... P> class_ &class_function(const char *n, F f, P...) { reg::put(c->statics, name + ".", n, reg::wrap(f)); return *this; }
    template <class F, class... P> class_ &function(const char *n, F f, P...) { reg::put(c->methods, name + "#", n, reg::wrap(f)); return *this; }
    template <class... A> class_ &constructor() {
        C (*f)(A...) = [](A... a) -> C { return C(a...); };
        reg::put(c->statics, name + ".", "new", reg::wrap(f));
        return *this;
    }
};
}  // namespace emscripten

#define EMSCRIPTEN_BINDINGS(name)                                                             \
    static void verif_bind_##name();                                                          \
    static const int verif_bound_##name = (emscripten::reg::current() = &emscripten::reg::enter(__FILE__), verif_bind_##name(), 0); \
    static void verif_bind_##name()
#endif
