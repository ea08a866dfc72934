// Generic test driver for the code generated by commsdsl2comms: values as token trees, commands on the standard input.
#pragma once
#include "comms/mini.h"
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>

namespace drv
{
using comms::Cat;
using comms::ErrorStatus;

inline std::string hex(const void* p, std::size_t n)
{
    static const char D[] = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < n; ++i) { auto b = static_cast<const unsigned char*>(p)[i]; r += D[b >> 4]; r += D[b & 15]; }
    return r;
}
inline std::string hexs(const std::string& s) { return "x" + hex(s.data(), s.size()); }
inline std::string hexc(const char* s) { return s ? hexs(s) : std::string("null"); }
inline std::vector<std::uint8_t> unhex(const std::string& s)
{
    auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::vector<std::uint8_t> r;
    for (std::size_t i = 1; i + 1 < s.size(); i += 2) r.push_back(static_cast<std::uint8_t>(d(s[i]) * 16 + d(s[i + 1])));
    return r;
}

// ---------------------------------------------------------------------------------------------------------------- dump
template <class F> void dump(const F& f, std::ostream& o);
template <class T> void dumpTuple(const T& t, std::ostream& o)
{
    o << " b " << std::tuple_size_v<T>;
    std::apply([&](auto&... m) { (dump(m, o), ...); }, t);
}
template <class F> void dump(const F& f, std::ostream& o)
{
    if constexpr (F::category == Cat::Int || F::category == Cat::Enum) {
        using N = typename F::NumType;
        auto v = static_cast<N>(f.getValue());
        if constexpr (std::is_signed_v<N>) o << " i " << static_cast<std::int64_t>(v); else o << " i " << static_cast<std::uint64_t>(v);
    }
    else if constexpr (F::category == Cat::Bitmask) o << " i " << static_cast<std::uint64_t>(f.getValue());
    else if constexpr (F::category == Cat::Float) {
        std::conditional_t<sizeof(f.getValue()) == 4, std::uint32_t, std::uint64_t> raw;
        auto v = f.getValue();
        std::memcpy(&raw, &v, sizeof raw);
        if (v != v) o << " f nan"; else o << " f " << raw;
    }
    else if constexpr (F::category == Cat::String || F::category == Cat::Raw) o << " x" << hex(f.getValue().data(), f.getValue().size());
    else if constexpr (F::category == Cat::List) { o << " l " << f.getValue().size(); for (auto& e : f.getValue()) dump(e, o); }
    else if constexpr (F::category == Cat::Bundle || F::category == Cat::Bitfield) dumpTuple(f.value(), o);
    else if constexpr (F::category == Cat::Optional) { o << " o " << static_cast<int>(f.getMode()); dump(f.field(), o); }
    else {
        if (!f.currentFieldValid()) { o << " v -"; return; }
        o << " v " << f.currentField();
        f.currentFieldExec([&]<std::size_t I>(auto& m) { dump(m, o); });
    }
}

// -------------------------------------------------------------------------------------------------------------- assign
struct Tok
{
    std::istringstream in;
    explicit Tok(const std::string& s) : in(s) {}
    std::string next() { std::string s; if (!(in >> s)) { std::cout << "bad-tokens" << std::endl; std::exit(3); } return s; }
    bool more() { in >> std::ws; return in.good(); }
};
template <class F> void assign(F& f, Tok& t);
template <class T> void assignTuple(T& v, Tok& t)
{
    t.next(); t.next();
    std::apply([&](auto&... m) { (assign(m, t), ...); }, v);
}
template <class F> void assign(F& f, Tok& t)
{
    if constexpr (F::category == Cat::Int || F::category == Cat::Enum || F::category == Cat::Bitmask) {
        using N = typename F::NumType;
        t.next();
        auto s = t.next();
        if constexpr (std::is_signed_v<N>) f.setValue(static_cast<typename F::ValueType>(static_cast<N>(std::strtoll(s.c_str(), nullptr, 10))));
        else f.setValue(static_cast<typename F::ValueType>(static_cast<N>(std::strtoull(s.c_str(), nullptr, 10))));
    }
    else if constexpr (F::category == Cat::Float) {
        t.next();
        auto s = t.next();
        typename F::ValueType v;
        if (s == "nan") v = std::numeric_limits<typename F::ValueType>::quiet_NaN();
        else {
            auto x = std::strtoull(s.c_str(), nullptr, 10);
            std::conditional_t<sizeof(v) == 4, std::uint32_t, std::uint64_t> raw = static_cast<decltype(raw)>(x);
            std::memcpy(&v, &raw, sizeof v);
        }
        f.setValue(v);
    }
    else if constexpr (F::category == Cat::String || F::category == Cat::Raw) {
        auto b = unhex(t.next());
        f.value().assign(b.begin(), b.end());
    }
    else if constexpr (F::category == Cat::List) {
        t.next();
        auto n = std::strtoul(t.next().c_str(), nullptr, 10);
        f.value().clear();
        for (unsigned long i = 0; i < n; ++i) {
            f.value().emplace_back();
            comms::field::setVersionOf(f.value().back(), f.getVersion());
            assign(f.value().back(), t);
        }
    }
    else if constexpr (F::category == Cat::Bundle || F::category == Cat::Bitfield) assignTuple(f.value(), t);
    else if constexpr (F::category == Cat::Optional) {
        t.next();
        f.setMode(static_cast<comms::field::OptionalMode>(std::strtol(t.next().c_str(), nullptr, 10)));
        assign(f.field(), t);
    }
    else {
        t.next();
        auto s = t.next();
        if (s == "-") { f.reset(); return; }
        f.selectField(std::strtoul(s.c_str(), nullptr, 10));
        f.currentFieldExec([&]<std::size_t I>(auto& m) { assign(m, t); });
    }
}

// ---------------------------------------------------------------------------------------------------------- static info
template <class L> struct UnitsOf { static std::string get() { using U = comms::det::find<comms::kind::Units, L>; if constexpr (std::is_void_v<U>) return "-"; else return U::unitName(); } };

template <class F> void info(std::ostream& o);
template <class T, std::size_t... I> void infoTuple(std::ostream& o, std::index_sequence<I...>) { (info<std::tuple_element_t<I, T>>(o), ...); }
template <class T> void infoAll(std::ostream& o) { o << " " << std::tuple_size_v<T>; infoTuple<T>(o, std::make_index_sequence<std::tuple_size_v<T>>()); }
template <class F> void info(std::ostream& o)
{
    o << " {";
    o << " name ";
    if constexpr (requires { F::name(); }) o << hexc(F::name()); else o << "-";
    o << " len " << F::minLength() << " " << F::maxLength() << " vd " << F::isVersionDependent();
    if constexpr (F::category == Cat::Int) {
        using N = typename F::NumType;
        o << " int " << sizeof(N) << std::is_signed_v<N> << " sc " << F::scaleNum() << " " << F::scaleDen() << " doff " << F::displayOffset();
    }
    if constexpr (F::category == Cat::Enum) o << " enum " << sizeof(typename F::NumType) << std::is_signed_v<typename F::NumType>;
    if constexpr (F::category == Cat::Bitmask) o << " set " << sizeof(typename F::NumType);
    if constexpr (F::category == Cat::Float) o << " float " << sizeof(typename F::NumType);
    if constexpr (F::category == Cat::Int || F::category == Cat::Float) {
        o << " units " << UnitsOf<typename F::AllOpts>::get();
        if constexpr (requires { F::displayDecimals(); }) o << " dd " << F::displayDecimals(); else o << " dd -";
        if constexpr (requires { F::specialNamesMap(); }) {
            auto m = F::specialNamesMap();
            o << " sp " << F::hasSpecials() << " " << m.second;
            for (std::size_t i = 0; i < m.second; ++i) {
                F tmp;
                tmp.forceValue(static_cast<typename F::ValueType>(m.first[i].first));
                dump(tmp, o);
                o << " " << hexc(m.first[i].second);
            }
        }
        else if constexpr (requires { F::hasSpecials(); }) o << " sp " << F::hasSpecials() << " 0";
        else o << " sp -";
    }
    if constexpr (F::category == Cat::Enum) {
        auto m = F::valueNamesMap();
        o << " en " << m.second;
        for (std::size_t i = 0; i < m.second; ++i) {
            if constexpr (requires { m.first[i].first; }) {
                F tmp;
                tmp.forceValue(m.first[i].first);
                dump(tmp, o);
                o << " " << hexc(m.first[i].second) << " " << hexc(F::valueName(m.first[i].first));
            } else {
                F tmp;
                tmp.forceValue(static_cast<typename F::ValueType>(i));
                dump(tmp, o);
                o << " " << hexc(m.first[i]) << " " << hexc(F::valueName(static_cast<typename F::ValueType>(i)));
            }
        }
    }
    if constexpr (F::category == Cat::Bitmask) {
        o << " bits";
        if constexpr (requires { F::bitName(static_cast<std::size_t>(0)); }) {
            for (std::size_t i = 0; i < sizeof(typename F::NumType) * 8 + 1; ++i) if (auto n = F::bitName(i)) o << " " << i << " " << hexc(n);
            o << " .";
        } else o << " -";
    }
    if constexpr (F::category == Cat::List) { o << " list"; if constexpr (requires { typename F::ElementType; }) info<typename F::ElementType>(o); }
    if constexpr (F::category == Cat::Bundle) { o << " bundle"; infoAll<typename F::ValueType>(o); }
    if constexpr (F::category == Cat::Bitfield) { o << " bitfield"; infoAll<typename F::ValueType>(o); }
    if constexpr (F::category == Cat::Optional) { o << " optional"; info<typename F::Field>(o); }
    if constexpr (F::category == Cat::String) o << " string";
    if constexpr (F::category == Cat::Raw) o << " data";
    if constexpr (F::category == Cat::Variant) {
        o << " variant";
        if constexpr (requires { F::memberName(static_cast<std::size_t>(0)); }) {
            for (std::size_t i = 0; i < F::totalFields() + 1; ++i) o << " " << hexc(F::memberName(i));
        }
        infoAll<typename F::Members>(o);
    }
    o << " }";
}

// ------------------------------------------------------------------------------------------------------------- storage
template <class F> void storage(std::ostream& o);
template <class T> void storageAll(std::ostream& o)
{
    o << " (";
    [&]<std::size_t... I>(std::index_sequence<I...>) { (storage<std::tuple_element_t<I, T>>(o), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
    o << " )";
}
template <class F> void storage(std::ostream& o)
{
    if constexpr (F::category == Cat::String || F::category == Cat::Raw || F::category == Cat::List) {
        o << " s";
        if constexpr (comms::det::has<comms::kind::DataView, typename F::AllOpts>) o << "v";
        if constexpr (comms::det::has<comms::kind::FixedStorage, typename F::AllOpts>) o << "f" << comms::det::find<comms::kind::FixedStorage, typename F::AllOpts>::Size;
        if constexpr (comms::det::has<comms::kind::FixedSizeStorage, typename F::AllOpts>) o << "x";
        if constexpr (F::category == Cat::List) storage<typename F::ElementType>(o);
    }
    else if constexpr (F::category == Cat::Bundle || F::category == Cat::Bitfield) storageAll<typename F::ValueType>(o);
    else if constexpr (F::category == Cat::Optional) storage<typename F::Field>(o);
    else if constexpr (F::category == Cat::Variant) storageAll<typename F::Members>(o);
    else o << " .";
}

// ------------------------------------------------------------------------------------------------------------ messages
template <class Msg> std::vector<std::uint8_t> writeMsg(const Msg& m, ErrorStatus& es)
{
    std::vector<std::uint8_t> buf(m.length() + 8, 0xee);
    typename Msg::WriteIterator it = buf.data();
    es = m.write(it, m.length());
    auto n = static_cast<std::size_t>(it - buf.data());
    for (auto i = n; i < buf.size(); ++i) if (buf[i] != 0xee) { std::cout << "overrun" << std::endl; std::exit(3); }
    buf.resize(n);
    return buf;
}
template <class Msg> void state(const Msg& m, std::ostream& o)
{
    dumpTuple(m.fields(), o);
    o << " T"; dumpTuple(m.transportFields(), o);
    ErrorStatus es;
    auto n = m.length();
    auto b = writeMsg(m, es);
    o << " S " << m.valid() << " " << n << " " << static_cast<int>(es) << " x" << hex(b.data(), b.size());
    // the non virtual functions
    std::vector<std::uint8_t> b2(n + 1);
    auto* p = b2.data();
    auto es2 = m.doWrite(p, n);
    if (m.doLength() != n || m.doValid() != m.valid() || es2 != es || std::vector<std::uint8_t>(b2.data(), p) != b) o << " MISMATCH";
}

template <class Iface, class Msg> struct MsgOps
{
    static void run(char cmd, Tok& t, std::ostream& o)
    {
        if (cmd == 'I') {
            o << " id " << static_cast<std::uintmax_t>(Msg::doGetId()) << " name " << hexc(Msg::doName()) << " len " << Msg::doMinLength() << " " << Msg::doMaxLength()
              << " fields";
            infoAll<typename Msg::AllFields>(o);
            return;
        }
        if (cmd == 'O') {
            using K = typename Msg::ImplOpts;
            o << (comms::det::has<comms::kind::NoRead, K> ? "R" : "") << (comms::det::has<comms::kind::NoDispatch, K> ? "D" : "")
              << (comms::det::has<comms::kind::NoWrite, K> ? "W" : "") << (comms::det::has<comms::kind::NoRefresh, K> ? "F" : "") << "-";
            storageAll<typename Msg::AllFields>(o);
            return;
        }
        Msg m;
        if (cmd == 'D') {
            o << " id " << static_cast<std::uintmax_t>(static_cast<Iface&>(m).getId()) << " name " << hexc(static_cast<Iface&>(m).name());
            state(m, o);
            o << " R " << m.refresh(); state(m, o);
            return;
        }
        if (t.next() == "T") assignTuple(m.transportFields(), t);
        m.doFieldsVersionUpdate();
        if (cmd == 'W') {
            assignTuple(m.fields(), t);
            state(m, o);
            o << " R " << m.refresh(); state(m, o);
            return;
        }
        if (cmd == 'R') {
            auto b = unhex(t.next());
            std::vector<std::uint8_t> copy(b);      // exact allocation: an overrun is visible to the sanitizers
            typename Msg::ReadIterator it = copy.data();
            auto es = m.read(it, copy.size());
            o << " " << static_cast<int>(es) << " " << (it - copy.data());
            state(m, o);
            o << " R " << m.refresh(); state(m, o);
            return;
        }
        if (cmd == 'P') {       // all the prefixes of the data: statuses
            auto b = unhex(t.next());
            for (std::size_t n = 0; n < b.size(); ++n) {
                Msg m2;
                m2.transportFields() = m.transportFields();
                std::vector<std::uint8_t> copy(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(n));
                typename Msg::ReadIterator it = copy.data();
                o << " " << static_cast<int>(m2.read(it, copy.size()));
            }
        }
    }
};

// -------------------------------------------------------------------------------------------------------------- frames
template <class AllMsgs, std::size_t I = 0, class Iface> void dumpDyn(const Iface& m, std::ostream& o)
{
    if constexpr (I < std::tuple_size_v<AllMsgs>) {
        using M = std::tuple_element_t<I, AllMsgs>;
        if (auto* p = dynamic_cast<const M*>(&m)) { o << " M " << I; dumpTuple(p->fields(), o); o << " T"; dumpTuple(p->transportFields(), o); return; }
        dumpDyn<AllMsgs, I + 1>(m, o);
    }
    else o << " M ?";
}
template <class T, class F> void tupleDump(const T& t, std::ostream& o, F&&) { dumpTuple(t, o); }

template <class Frame, class AllMsgs> void frameRead(const std::vector<std::uint8_t>& b, std::ostream& o)
{
    Frame fr;
    typename Frame::MsgPtr msg;
    std::vector<std::uint8_t> copy(b);
    const std::uint8_t* it = copy.data();
    auto es = fr.read(msg, it, copy.size());
    o << " " << static_cast<int>(es) << " " << (it - copy.data());
    if (msg) dumpDyn<AllMsgs>(*msg, o); else o << " M -";
}
template <class Frame, class AllMsgs, class Msg> void frameWrite(Tok& t, std::ostream& o)
{
    Msg m;
    t.next();
    assignTuple(m.transportFields(), t);
    m.doFieldsVersionUpdate();
    assignTuple(m.fields(), t);
    Frame fr;
    auto n = fr.length(m);
    std::vector<std::uint8_t> buf(n + 8, 0xee);
    std::uint8_t* it = buf.data();
    auto es = fr.write(m, it, n);
    o << " " << static_cast<int>(es) << " " << n << " x" << hex(buf.data(), static_cast<std::size_t>(it - buf.data()));
}
template <class Frame, class AllMsgs> void frameCmd(char cmd, Tok& t, std::ostream& o)
{
    if (cmd == 'r') { frameRead<Frame, AllMsgs>(unhex(t.next()), o); return; }
    if (cmd == 'p') {
        auto b = unhex(t.next());
        for (std::size_t n = 0; n < b.size(); ++n) {
            Frame fr;
            typename Frame::MsgPtr msg;
            std::vector<std::uint8_t> copy(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(n));
            const std::uint8_t* it = copy.data();
            auto es = fr.read(msg, it, copy.size());
            o << " " << static_cast<int>(es) << (msg ? "!" : "");
        }
        return;
    }
    if (cmd == 'o') { o << (Frame::inPlace() ? "P" : "-"); storageAll<typename Frame::AllFields>(o); return; }
    if (cmd == 'l') { Frame fr; o << " " << fr.length(); typename Frame::AllFields f; dumpTuple(f, o); return; }
    auto idx = std::strtoul(t.next().c_str(), nullptr, 10);
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((I == idx ? frameWrite<Frame, AllMsgs, std::tuple_element_t<I, AllMsgs>>(t, o) : void()), ...);
    }(std::make_index_sequence<std::tuple_size_v<AllMsgs>>());
}

// ------------------------------------------------------------------------------------------------- bundles, factories
template <class All> void bundle(std::ostream& o)
{
    o << " " << std::tuple_size_v<All>;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((o << " " << static_cast<std::uintmax_t>(std::tuple_element_t<I, All>::doGetId()) << " " << hexc(std::tuple_element_t<I, All>::doName())), ...);
    }(std::make_index_sequence<std::tuple_size_v<All>>());
}
template <class Ref, std::size_t I = 0, class Iface> void which(const Iface& m, std::ostream& o)
{
    if constexpr (I < std::tuple_size_v<Ref>) {
        if (dynamic_cast<const std::tuple_element_t<I, Ref>*>(&m)) o << " " << I; else which<Ref, I + 1>(m, o);
    }
    else o << " ?";
}
template <class Ref, class M> constexpr int indexOf()
{
    int r = -1;
    [&]<std::size_t... I>(std::index_sequence<I...>) { ((std::is_same_v<std::tuple_element_t<I, Ref>, M> ? (r = static_cast<int>(I)) : 0), ...); }(std::make_index_sequence<std::tuple_size_v<Ref>>());
    return r;
}
template <class Ref, class Iface> struct Handler
{
    std::ostream& o;
    void handle(Iface&) { o << " generic"; }
    template <class M> void handle(M& m) { o << " " << indexOf<Ref, M>(); which<Ref>(static_cast<const Iface&>(m), o); }
};
template <class Ref, class Factory> void factory(Tok& t, std::ostream& o)
{
    Factory f;
    auto id = std::strtoull(t.next().c_str(), nullptr, 10);
    auto idx = std::strtoul(t.next().c_str(), nullptr, 10);
    comms::MsgFactoryCreateFailureReason why = comms::MsgFactoryCreateFailureReason::NumOfValues;
    auto p = f.createMsg(static_cast<typename Factory::MsgIdType>(id), static_cast<unsigned>(idx), &why);
    if (p) which<Ref>(*p, o); else o << " -";
    o << " " << static_cast<int>(why);
    if constexpr (requires { f.canAllocate(); }) o << " c" << f.canAllocate();
    if constexpr (requires { f.msgCount(static_cast<typename Factory::MsgIdType>(id)); }) o << " n" << f.msgCount(static_cast<typename Factory::MsgIdType>(id));
}

template <class Ref, class Iface> std::unique_ptr<Iface> make(std::size_t idx)
{
    std::unique_ptr<Iface> p;
    [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == idx ? (p.reset(new std::tuple_element_t<I, Ref>), 0) : 0), ...); }(std::make_index_sequence<std::tuple_size_v<Ref>>());
    return p;
}
template <class F> int loop(F&& f)
{
    std::string line;
    while (std::getline(std::cin, line)) {
        Tok t(line);
        std::ostringstream o;
        f(t, o);
        std::cout << o.str() << "\n";
    }
    std::cout << "end" << std::endl;
    return 0;
}
} // namespace drv
