// Stand-in of embind: records what is bound, with the types.
#pragma once

#include <any>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <vector>

#include <emscripten/val.h>

namespace emscripten
{
struct allow_raw_pointers {};
template <class T> struct base { using type = T; };

struct Bound
{
    std::any ptr;
    std::string kind;                       // f - function of an object, c - class function, p - property
    std::vector<std::type_index> types;     // as written without const, references and pointers
};

struct Class
{
    std::string name, parent, subclass;
    std::type_index type = typeid(void);
    std::type_index base = typeid(void);
    std::multimap<std::string, Bound> fns;
    std::vector<std::string> ctors;
};

struct Registry
{
    std::multimap<std::string, std::shared_ptr<Class>> classes;
    std::multimap<std::string, std::pair<std::type_index, std::vector<std::pair<std::string, long long>>>> enums;
    std::multimap<std::string, Bound> functions;
    std::function<void (const void*, const char*, const val&)> call;
    static Registry& get() { static Registry r; return r; }
};

template <class T>
using Bare = std::remove_cv_t<std::remove_pointer_t<std::remove_cvref_t<T>>>;

template <bool TRaw, class... A>
void types(Bound& b)
{
    static_assert(TRaw || !(std::is_pointer_v<std::remove_cvref_t<A>> || ...), "Implicitly binding raw pointers is illegal.  Specify allow_raw_pointer<arg<?>>");
    (b.types.push_back(typeid(Bare<A>)), ...);
}

template <bool TRaw, class R, class... A> Bound bound(R (*f)(A...)) { Bound b; b.ptr = f; b.kind = "c"; types<TRaw, R, A...>(b); return b; }
template <bool TRaw, class R, class C, class... A> Bound bound(R (C::*f)(A...)) { Bound b; b.ptr = f; b.kind = "f"; types<TRaw, R, A...>(b); return b; }
template <bool TRaw, class R, class C, class... A> Bound bound(R (C::*f)(A...) const) { Bound b; b.ptr = f; b.kind = "f"; types<TRaw, R, A...>(b); return b; }
template <class F, class R, class C, class... A> auto plain(F f, R (C::*)(A...) const) { return static_cast<R (*)(A...)>(f); }
template <class F> auto optional_override(F f) { return plain(f, &F::operator()); }

template <class... P>
constexpr bool raw() { return (std::is_same_v<P, allow_raw_pointers> || ...); }

template <class F, class... P>
void function(const char* name, F f, P...) { Registry::get().functions.emplace(name, bound<raw<P...>()>(f)); }

template <class T>
struct enum_
{
    explicit enum_(const char* name) { static_assert(std::is_enum_v<T>); it = Registry::get().enums.emplace(name, std::make_pair(std::type_index(typeid(T)), std::vector<std::pair<std::string, long long>>())); }
    enum_& value(const char* name, T v) { it->second.second.emplace_back(name, static_cast<long long>(v)); return *this; }
    std::multimap<std::string, std::pair<std::type_index, std::vector<std::pair<std::string, long long>>>>::iterator it;
};

template <class T, class B = void>
struct class_
{
    explicit class_(const char* name)
    {
        c = std::make_shared<Class>();
        c->name = name;
        c->type = typeid(T);
        if constexpr (!std::is_void_v<B>) { static_assert(std::is_base_of_v<typename B::type, T>); c->base = typeid(typename B::type); }
        Registry::get().classes.emplace(name, c);
    }
    template <class... A> class_& constructor()
    {
        static_assert(std::is_constructible_v<T, A...>);
        c->ctors.push_back(sizeof...(A) ? "copy" : "");
        return *this;
    }
    // a function taking the object itself is a function of the object
    template <class F, class... P> class_& function(const char* name, F f, P...) { auto b = bound<raw<P...>()>(f); b.kind = "f"; c->fns.emplace(name, b); return *this; }
    template <class F, class... P> class_& class_function(const char* name, F f, P...) { static_assert(!std::is_member_function_pointer_v<F>); c->fns.emplace(name, bound<raw<P...>()>(f)); return *this; }
    template <class F> class_& property(const char* name, F f) { auto b = bound<false>(f); b.kind = "p"; c->fns.emplace(name, b); return *this; }
    template <class F, class G> class_& property(const char* name, F f, G g) { auto b = bound<false>(f); bound<false>(g); b.kind = "p"; b.ptr = std::make_pair(f, g); c->fns.emplace(name, b); return *this; }
    template <class W> class_& allow_subclass(const char* name) { static_assert(std::is_base_of_v<T, W>); c->subclass = name; return *this; }
    std::shared_ptr<Class> c;
};

template <class T>
void register_vector(const char* name) { class_<std::vector<T>> c(name); c.c->ctors.push_back(""); }

template <class T>
struct wrapper : T
{
    wrapper() = default;
    template <class R, class... A>
    R call(const char* name, const A&... a) { auto& f = Registry::get().call; if (f) (f(this, name, a), ...); }
};
}

#define EMSCRIPTEN_WRAPPER(T) T() = default
#define EMSCRIPTEN_BINDINGS(name) static struct EmBind_##name { EmBind_##name(); } emBind_##name##_; EmBind_##name::EmBind_##name()
