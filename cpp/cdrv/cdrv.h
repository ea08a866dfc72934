// Support of the programs which compare the C interface of a protocol with its C++ classes.
#pragma once
#include <cstring>
namespace cdrv
{
struct Rng
{
    std::uint64_t s;
    std::uint64_t next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (s >> 29) ^ (s >> 7); }
    std::size_t below(std::size_t n) { return static_cast<std::size_t>(next() % n); }
    std::string bytes(std::size_t max)
    {
        std::string r(below(max + 1), '\0');
        for (auto& c : r) { auto x = below(6); c = static_cast<char>(x == 0 ? 0 : x == 1 ? 0xff : x == 2 ? below(256) : 'a' + below(26)); }
        return r;
    }
    std::uint64_t num()
    {
        auto m = below(6);
        if (m == 0) return below(4);
        if (m == 1) return ~static_cast<std::uint64_t>(0) - below(3);
        if (m == 2) return (1ULL << below(64)) - below(2);
        if (m == 3) return below(300);
        return next() ^ (next() << 31);
    }
};

struct Cmp { std::string a, b; };       // outputs of the C interface and of the C++ classes

template <class T> void num(std::ostream& o, T v)
{
    if constexpr (std::is_floating_point_v<T>) {
        if (v != v) { o << " nan"; return; }
        std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t> b;
        std::memcpy(&b, &v, sizeof(b));
        o << " f" << b;
    }
    else if constexpr (std::is_signed_v<T>) o << " " << static_cast<long long>(v);
    else o << " " << static_cast<unsigned long long>(v);
    o << (std::is_signed_v<T> ? "s" : "u") << sizeof(T);
}
inline std::string str(const char* s) { return s ? drv::hexs(s) : std::string("null"); }
template <class S> std::string blob(const S& s) { return s.empty() ? std::string("x") : "x" + drv::hex(&*s.begin(), s.size()); }

// functions which all the fields have
template <class ES, class H> void ccommon(std::ostream& o, const H* f, ES (*wr)(const H*, std::uint8_t**, size_t), size_t (*len)(const H*), const char* (*name)(const H*), bool (*valid)(const H*))
{
    auto n = len(f);
    o << " [" << n << (valid(f) ? " v " : " - ") << str(name(f));
    for (auto room : {n, n ? n - 1 : 0}) {
        std::vector<std::uint8_t> buf(room + 8, 0xee);
        auto* it = buf.data();
        auto es = wr(f, &it, room);
        o << " w" << static_cast<int>(es);
        if (es == 0) o << "+" << (it - buf.data()) << "x" << drv::hex(buf.data(), buf.size());
    }
    o << "]";
}
template <class F> void xcommon(std::ostream& o, const F& f)
{
    auto n = f.length();
    o << " [" << n << (f.valid() ? " v " : " - ") << str(f.name());
    for (auto room : {n, n ? n - 1 : 0}) {
        std::vector<std::uint8_t> buf(room + 8, 0xee);
        auto* it = buf.data();
        auto es = f.write(it, room);
        o << " w" << static_cast<int>(es);
        if (static_cast<int>(es) == 0) o << "+" << (it - buf.data()) << "x" << drv::hex(buf.data(), buf.size());
    }
    o << "]";
}
template <class ES, class H> void cread(std::ostream& o, Rng& r, H* f, ES (*rd)(H*, const std::uint8_t**, size_t))
{
    auto b = r.bytes(12);
    std::vector<std::uint8_t> v(b.begin(), b.end());
    const std::uint8_t* it = v.data();
    auto es = rd(f, &it, v.size());
    o << " r" << static_cast<int>(es);
    if (es == 0) o << "+" << (it - v.data());
}
template <class F> void xread(std::ostream& o, Rng& r, F& f)
{
    auto b = r.bytes(12);
    std::vector<std::uint8_t> v(b.begin(), b.end());
    const std::uint8_t* it = v.data();
    auto es = f.read(it, v.size());
    o << " r" << static_cast<int>(es);
    if (static_cast<int>(es) == 0) o << "+" << (it - v.data());
}
// strings and data
template <class Ch, class H> void cbytes(std::ostream& o, const H* f, size_t (*get)(const H*, Ch*, size_t), size_t (*size)(const H*))
{
    auto n = size(f);
    o << " " << n;
    for (auto room : {n, n + 3, n / 2}) {
        std::vector<Ch> buf(room + 4, static_cast<Ch>(0x7e));
        auto got = get(f, buf.data(), room);
        o << " " << got << "x" << drv::hex(buf.data(), buf.size());
    }
}
template <class Ch, class F> void xbytes(std::ostream& o, const F& f)
{
    auto& v = f.value();
    auto n = v.size();
    o << " " << n;
    for (auto room : {n, n + 3, n / 2}) {
        std::vector<Ch> buf(room + 4, static_cast<Ch>(0x7e));
        auto got = std::min(room, n);
        std::copy_n(v.begin(), got, buf.begin());
        o << " " << got << "x" << drv::hex(buf.data(), buf.size());
    }
}
} // namespace cdrv
