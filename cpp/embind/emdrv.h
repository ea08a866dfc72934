// Support of the programs which use the classes through what emscripten was told about.
#pragma once
#include <emscripten/bind.h>
#include <iostream>
#include <set>
#include <sstream>
namespace em
{
template <class F> std::string wire(const F& f) { std::vector<std::uint8_t> b; auto it = std::back_inserter(b); f.write(it, b.max_size()); return drv::hex(b.data(), b.size()); }

struct Unbound : std::runtime_error { using std::runtime_error::runtime_error; };

template <class T> T fn(const char* cls, const char* name)
{
    auto& r = emscripten::Registry::get();
    auto c = r.classes.find(cls);
    if (c == r.classes.end()) throw Unbound(std::string(cls) + " is not bound");
    auto f = c->second->fns.find(name);
    if (f == c->second->fns.end()) throw Unbound(std::string(cls) + "::" + name + " is not bound");
    auto* p = std::any_cast<T>(&f->second.ptr);
    if (!p) throw Unbound(std::string(cls) + "::" + name + " is bound to a function of another type");
    return *p;
}
template <class T> T glob(const char* name)
{
    auto& r = emscripten::Registry::get();
    auto f = r.functions.find(name);
    if (f == r.functions.end()) throw Unbound(std::string(name) + " is not bound");
    auto* p = std::any_cast<T>(&f->second.ptr);
    if (!p) throw Unbound(std::string(name) + " is bound to a function of another type");
    return *p;
}
#define EB(C_, F_) em::fn<decltype(&C_::F_)>(#C_, #F_)
#define EBN(C_, N_, F_) em::fn<decltype(&C_::F_)>(#C_, N_)
#define CALL(C_, F_, O_, ...) std::invoke(EB(C_, F_), O_ __VA_OPT__(,) __VA_ARGS__)
#define CALLN(C_, N_, F_, O_, ...) std::invoke(EBN(C_, N_, F_), O_ __VA_OPT__(,) __VA_ARGS__)
#define PROP(C_, N_, G_, S_) em::fn<std::pair<decltype(&C_::G_), decltype(&C_::S_)>>(#C_, N_)

// value of an enumerator given to the script, by name
inline bool enumerator(const char* e, const char* name, unsigned long long v)
{
    auto& r = emscripten::Registry::get();
    auto i = r.enums.find(e);
    if (i == r.enums.end()) throw Unbound(std::string("enum ") + e + " is not bound");
    int n = 0;
    bool same = false;
    for (auto& x : i->second.second) if (x.first == name) { ++n; same = static_cast<unsigned long long>(x.second) == v; }
    if (n != 1) throw Unbound(std::string(e) + "." + name + " is bound " + std::to_string(n) + " times");
    return same;
}

template <class E> void bytes(std::ostream& o, E es, const std::vector<std::uint8_t>& b) { o << " w" << static_cast<int>(es); if (static_cast<int>(es) == 0) o << "x" << drv::hex(b.data(), b.size()); }
template <class F> void xcommon(std::ostream& o, const F& f)
{
    o << " [" << f.length() << (f.valid() ? " v" : " -");
    std::vector<std::uint8_t> b{7};
    auto it = std::back_inserter(b);
    auto es = f.write(it, b.max_size());
    bytes(o, es, b);
    o << "]";
}
template <class F> void xread(std::ostream& o, cdrv::Rng& r, F& f)
{
    auto s = r.bytes(12);
    std::vector<std::uint8_t> v(s.begin(), s.end());
    r.below(2);
    const std::uint8_t* it = v.data();
    o << " r" << static_cast<int>(f.read(it, v.size()));
}

// what is wrong with the set of the bound classes
inline void lint(std::ostream& o)
{
    auto& r = emscripten::Registry::get();
    std::map<std::type_index, std::string> known;
    for (auto t : {std::type_index(typeid(void)), std::type_index(typeid(bool)), std::type_index(typeid(char)), std::type_index(typeid(signed char)), std::type_index(typeid(unsigned char)),
                   std::type_index(typeid(short)), std::type_index(typeid(unsigned short)), std::type_index(typeid(int)), std::type_index(typeid(unsigned)), std::type_index(typeid(long)),
                   std::type_index(typeid(unsigned long)), std::type_index(typeid(long long)), std::type_index(typeid(unsigned long long)), std::type_index(typeid(float)), std::type_index(typeid(double)),
                   std::type_index(typeid(std::string)), std::type_index(typeid(emscripten::val))}) known[t] = "";
    std::set<std::string> names;
    auto add = [&](const std::string& n, std::type_index t) {
        if (!names.insert(n).second) o << "name\t" << n << "\n";
        auto p = known.emplace(t, n);
        if (!p.second) o << "type\t" << n << "\t" << p.first->second << "\n";
    };
    for (auto& c : r.classes) add(c.first, c.second->type);
    for (auto& e : r.enums) {
        add(e.first, e.second.first);
        std::set<std::string> vs;
        for (auto& v : e.second.second) if (!vs.insert(v.first).second) o << "enumerator\t" << e.first << "\t" << v.first << "\n";
    }
    auto check = [&](const std::string& n, const emscripten::Bound& b) { for (auto& t : b.types) if (!known.count(t)) o << "unbound\t" << n << "\t" << t.name() << "\n"; };
    for (auto& c : r.classes) {
        if (c.second->base != std::type_index(typeid(void)) && !known.count(c.second->base)) o << "base\t" << c.first << "\n";
        std::set<std::string> fs;
        for (auto& f : c.second->fns) { if (!fs.insert(f.first).second) o << "function\t" << c.first << "\t" << f.first << "\n"; check(c.first + "::" + f.first, f.second); }
    }
    for (auto& f : r.functions) { if (!names.insert(f.first).second) o << "name\t" << f.first << "\n"; check(f.first, f.second); }
    for (auto& c : r.classes) {
        o << "class\t" << c.first << "\t";
        for (auto& x : c.second->ctors) o << "(" << x << ")";
        o << "\n";
    }
}
} // namespace em
