// libFuzzer target: parse, validate and read back everything. A structure aware mutator works on the tags and
// attributes of the document, plain byte mutations are used as well.
#include "dump_model.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <random>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

using namespace commsdsl::parse;
extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* data, std::size_t size, std::size_t maxSize);

namespace
{
const char Sep[] = "<!--NEXT-->";    // several input files in one test case

void put(const std::string& s, std::string& path, int& fd)
{
    fd = memfd_create("in", 0);
    path = "/proc/self/fd/" + std::to_string(fd);
    std::size_t off = 0;
    while (off < s.size()) { auto n = write(fd, s.data() + off, s.size() - off); if (n <= 0) break; off += static_cast<std::size_t>(n); }
}

const char* Values[] = {
    "", "0", "1", "-1", "2", "3", "7", "8", "9", "16", "63", "64", "65", "127", "128", "255", "256", "65535", "65536", "2147483647", "2147483648", "-2147483648",
    "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
    "18446744073709551616", "0x", "0xff", "-0x1", "1/0", "0/1", "1/2", "-1/3", "1e400", "1e-400", "nan", "inf", "-inf", "0.5", "1.", ".", "..", "a.", ".a", "a.b",
    "a.b.c", "^", "^a", "^^a", "\\^", "@", "@a", "@a.b", "^@a.b", "@.a", "$", "$a", "$a.b", "$.", "%a", "%", "!$a", "!%a", "$a=1", "$a != $b", "$a>-1", "$a=", "=1", "$a=^b",
    "?$a", "!?$a", "#$a=1", "$a=#$b", "[", "]", "[1,2]", "[2,1]", "[,]", "[1", "1,2", "[1,2,3]", "[-5, 5]", "[nan,1]", "[min,max]", "true", "false", "yes", "int8", "uint8", "int16", "uint16",
    "int32", "uint32", "int64", "uint64", "intvar", "uintvar", "float", "double", "big", "little", "+a", "-a", "+", "-", "a,b", "+a,b", "+a a", "ab", "abc", "f", "ff", "0g",
    "version", "messageId", "length", "none", "replace", "extend", "any", "both", "client", "server", "exists", "missing", "tentative", "sum", "crc-16", "crc-32", "crc-ccitt", "xor", "custom",
    "ms", "km/h", "mhz", "a", "b", "c", "d", "e", "n1", "public", "1a", "a b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\xff\xfe",
};

const char* Names[] = {
#include "dsl_names.inc"
};

struct Tag { std::size_t b, e; bool open, close, self; };

std::vector<Tag> scan(const std::string& s)
{
    std::vector<Tag> res;
    std::size_t i = 0;
    while ((i = s.find('<', i)) != std::string::npos) {
        if (s.compare(i, 4, "<!--") == 0) { auto e = s.find("-->", i); if (e == std::string::npos) break; i = e + 3; continue; }
        auto e = s.find('>', i);
        if (e == std::string::npos) break;
        if (i + 1 < s.size() && s[i + 1] != '?' && s[i + 1] != '!') {
            bool close = s[i + 1] == '/', self = s[e - 1] == '/';
            res.push_back({i, e + 1, !close, close || self, self});
        }
        i = e + 1;
    }
    return res;
}

// end of the element starting with the tag n (position behind its closing tag)
std::size_t elemEnd(const std::vector<Tag>& t, std::size_t n)
{
    if (t[n].self) return t[n].e;
    int depth = 0;
    for (auto k = n; k < t.size(); ++k) {
        if (t[k].open && !t[k].self) ++depth;
        else if (!t[k].open) { if (--depth == 0) return t[k].e; }
    }
    return t[n].e;
}

struct Attr { std::size_t b, nameEnd, vb, ve, e; };

std::vector<Attr> attrs(const std::string& s, const Tag& t)
{
    std::vector<Attr> res;
    auto i = t.b + 1;
    while (i < t.e && !isspace(static_cast<unsigned char>(s[i])) && s[i] != '>' && s[i] != '/') ++i;
    while (i < t.e) {
        auto b = i;
        while (i < t.e && isspace(static_cast<unsigned char>(s[i]))) ++i;
        auto nb = i;
        while (i < t.e && s[i] != '=' && s[i] != '>' && s[i] != '/' && !isspace(static_cast<unsigned char>(s[i]))) ++i;
        auto ne = i;
        while (i < t.e && (s[i] == '=' || isspace(static_cast<unsigned char>(s[i])))) ++i;
        if (i >= t.e || (s[i] != '"' && s[i] != '\'') || nb == ne) break;
        auto q = s[i];
        auto vb = i + 1;
        auto ve = s.find(q, vb);
        if (ve == std::string::npos || ve >= t.e) break;
        res.push_back({b, ne, vb, ve, ve + 1});
        i = ve + 1;
    }
    return res;
}

template <typename T, std::size_t N>
std::string anyOf(T (&a)[N], std::mt19937& r) { return a[r() % N]; }

std::string escaped(const std::string& v)
{
    std::string o;
    for (auto c : v) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c; }
    return o;
}

std::string anyValue(const std::string& s, const std::vector<Tag>& tags, std::mt19937& r)
{
    auto m = r() % 4;
    if (m == 0 && !tags.empty()) {
        for (int k = 0; k < 6; ++k) {
            auto a = attrs(s, tags[r() % tags.size()]);
            if (!a.empty()) { auto& x = a[r() % a.size()]; return s.substr(x.vb, x.ve - x.vb); }
        }
    }
    return escaped(anyOf(Values, r));
}

bool mutateOnce(std::string& s, std::mt19937& r)
{
    auto t = scan(s);
    if (t.empty()) return false;
    std::vector<std::size_t> opens;
    for (std::size_t i = 0; i < t.size(); ++i) if (t[i].open) opens.push_back(i);
    if (opens.empty()) return false;
    auto n = opens[r() % opens.size()];
    auto a = attrs(s, t[n]);
    switch (r() % 14) {
    case 0: case 1: case 2: case 3: // other value
        if (a.empty()) return false;
        { auto& x = a[r() % a.size()]; s.replace(x.vb, x.ve - x.vb, anyValue(s, t, r)); }
        return true;
    case 4: case 5: { // new attribute
        auto pos = t[n].e - (t[n].self ? 2 : 1);
        s.insert(pos, " " + anyOf(Names, r) + "=\"" + anyValue(s, t, r) + "\" ");
        return true; }
    case 6: // without attribute
        if (a.empty()) return false;
        { auto& x = a[r() % a.size()]; s.erase(x.b, x.e - x.b); }
        return true;
    case 7: { // element deleted
        auto e = elemEnd(t, n);
        s.erase(t[n].b, e - t[n].b);
        return true; }
    case 8: case 9: { // element copied
        auto e = elemEnd(t, n);
        if (e - t[n].b > 4096) return false;
        auto x = s.substr(t[n].b, e - t[n].b);
        auto& d = t[r() % t.size()];
        s.insert(r() % 2 ? d.b : d.e, x);
        return true; }
    case 10: { // tag renamed
        auto e = elemEnd(t, n);
        std::size_t len = 0;
        while (t[n].b + 1 + len < t[n].e && (isalnum(static_cast<unsigned char>(s[t[n].b + 1 + len])) || s[t[n].b + 1 + len] == '_')) ++len;
        auto name = anyOf(Names, r);
        if (!t[n].self && e > t[n].e) {
            auto c = s.rfind("</", e);
            if (c != std::string::npos && c > t[n].b) s.replace(c, e - c, "</" + name + ">");
        }
        s.replace(t[n].b + 1, len, name);
        return true; }
    case 11: { // new element
        auto& d = t[r() % t.size()];
        auto name = anyOf(Names, r);
        auto v = anyValue(s, t, r);
        auto k = r() % 4;
        auto x = k == 0 ? "<" + name + " value=\"" + v + "\"/>" : k == 1 ? "<" + name + ">" + v + "</" + name + ">" : k == 2 ? "<" + name + "/>" :
            "<" + name + " name=\"" + v + "\"/>";
        s.insert(r() % 2 ? d.b : d.e, x);
        return true; }
    case 12: { // attribute into child
        if (a.empty()) return false;
        auto x = a[r() % a.size()];
        auto nb = x.b;
        while (isspace(static_cast<unsigned char>(s[nb]))) ++nb;
        auto name = s.substr(nb, x.nameEnd - nb), v = s.substr(x.vb, x.ve - x.vb);
        if (t[n].self) return false;
        s.insert(t[n].e, "<" + name + " value=\"" + v + "\"/>");
        if (r() % 4) s.erase(x.b, x.e - x.b);
        return true; }
    default: { // wrapped
        auto e = elemEnd(t, n);
        auto name = anyOf(Names, r);
        s.insert(e, "</" + name + ">");
        s.insert(t[n].b, "<" + name + ">");
        return true; }
    }
}
} // namespace

extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* data, std::size_t size, std::size_t maxSize, unsigned seed)
{
    std::mt19937 r(seed);
    if (r() % 16 == 0) return LLVMFuzzerMutate(data, size, maxSize);
    std::string s(reinterpret_cast<const char*>(data), size);
    if (size < 8) s = "<schema name=\"s\" endian=\"big\"><fields><int name=\"a\" type=\"uint8\"/></fields></schema>";
    auto n = 1 + r() % 3;
    for (unsigned i = 0; i < n; ++i) {
        for (int k = 0; k < 5 && !mutateOnce(s, r); ++k) {}
    }
    if (s.size() > maxSize) return LLVMFuzzerMutate(data, size, maxSize);
    std::memcpy(data, s.data(), s.size());
    return s.size();
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    std::string all(reinterpret_cast<const char*>(data), size);
    std::vector<std::string> parts;
    for (;;) {
        auto p = all.find(Sep);
        if (p == std::string::npos || parts.size() == 3) { parts.push_back(all); break; }
        parts.push_back(all.substr(0, p));
        all.erase(0, p + sizeof(Sep) - 1);
    }
    ParseProtocol p;
    unsigned errors = 0;
    p.parseSetErrorReportCallback([&](ParseErrorLevel l, const std::string&) { if (l >= ParseErrorLevel_Error) ++errors; });
    p.parseAddExpectedExtraPrefix("xt_");
    p.parseSetMultipleSchemasEnabled(true);
    bool ok = true;
    std::vector<int> fds;
    for (auto& s : parts) {
        std::string path; int fd = -1;
        put(s, path, fd);
        fds.push_back(fd);
        ok = p.parse(path);
        if (!ok) break;
    }
    if (ok) ok = p.parseValidate();
    for (auto f : fds) close(f);
    if (ok) {
        dump::Dumper d;
        for (auto& s : p.parseSchemas()) d.schema(s);
    }
    return 0;
}
