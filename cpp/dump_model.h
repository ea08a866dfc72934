// Reads the whole public object model of libcommsdsl and writes it as JSON.
#pragma once
#include <string>
#include <sstream>
#include <cstdio>
#include <cstdint>
#include <cmath>
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseVariantField.h"

namespace dump {
using namespace commsdsl::parse;

struct J {
    std::string out;
    bool comma = false;
    void sep() { if (comma) out += ','; comma = true; }
    static void esc(std::string& o, const std::string& s) {
        o += '"';
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += static_cast<char>(c);
        }
        o += '"';
    }
    void key(const char* k) { sep(); out += '"'; out += k; out += "\":"; comma = false; }
    void s(const std::string& v) { sep(); esc(out, v); }
    void i(std::intmax_t v) { sep(); out += std::to_string(v); }
    void u(std::uintmax_t v) { sep(); out += std::to_string(v); }
    void b(bool v) { sep(); out += v ? "true" : "false"; }
    void n() { sep(); out += "null"; }
    void f(double v) {
        sep();
        if (std::isnan(v)) { out += "\"nan\""; return; }
        if (std::isinf(v)) { out += v < 0 ? "\"-inf\"" : "\"inf\""; return; }
        char buf[64]; std::snprintf(buf, sizeof buf, "\"%.17g\"", v); out += buf;
    }
    void o() { sep(); out += '{'; comma = false; }
    void oe() { out += '}'; comma = true; }
    void a() { sep(); out += '['; comma = false; }
    void ae() { out += ']'; comma = true; }
    void ks(const char* k, const std::string& v) { key(k); s(v); }
    void ku(const char* k, std::uintmax_t v) { key(k); u(v); }
    void ki(const char* k, std::intmax_t v) { key(k); i(v); }
    void kb(const char* k, bool v) { key(k); b(v); }
    void kf(const char* k, double v) { key(k); f(v); }
};

inline std::uintmax_t ver(unsigned v) { return v; }

template <typename T> void extras(J& j, const T& x) {
    j.key("xattrs"); j.a();
    for (auto& a : x.parseExtraAttributes()) { j.a(); j.s(a.first); j.s(a.second); j.ae(); }
    j.ae();
    j.key("xelems"); j.a();
    for (auto& e : x.parseExtraElements()) { j.s(e); }
    j.ae();
}

inline void cond(J& j, const ParseOptCond& c) {
    if (!c.parseValid()) { j.n(); return; }
    j.o();
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        j.ks("l", e.parseLeft()); j.ks("op", e.parseOp()); j.ks("r", e.parseRight());
        auto info = [&](const char* k, ParseOptCondExpr::ParseOperandInfo x) {
            j.key(k); j.a(); j.u(static_cast<unsigned>(x.m_type)); j.u(static_cast<unsigned>(x.m_mode)); j.s(x.m_access); j.ae();
        };
        info("li", e.parseLeftInfo()); info("ri", e.parseRightInfo());
    }
    else {
        ParseOptCondList l(c);
        j.ku("type", static_cast<unsigned>(l.parseType()));
        j.key("conds"); j.a();
        for (auto& x : l.parseConditions()) { cond(j, x); }
        j.ae();
    }
    j.oe();
}

template <typename T> void aliases(J& j, const T& x) {
    j.key("aliases"); j.a();
    for (auto& a : x.parseAliases()) {
        j.o(); j.ks("name", a.parseName()); j.ks("description", a.parseDescription()); j.ks("field", a.parseFieldName());
        extras(j, a); j.oe();
    }
    j.ae();
}

inline const char* typeName(ParseIntField::ParseType t) {
    static const char* m[] = {"int8","uint8","int16","uint16","int32","uint32","int64","uint64","intvar","uintvar"};
    auto i = static_cast<unsigned>(t);
    return i < 10 ? m[i] : "?";
}

struct Dumper {
    J j;
    unsigned depth = 0;

    template <typename F> void key(const char* k, F&& f) { j.key(k); f(); }

    // big: unsigned 64 bit types hold their values as wrapped intmax_t
    void num(std::intmax_t v, bool big) { if (big) j.u(static_cast<std::uintmax_t>(v)); else j.i(v); }

    void members(const std::vector<ParseField>& m) {
        j.key("members"); j.a(); for (auto& f : m) field(f); j.ae();
    }
    // a field defined elsewhere is given by its external reference, an anonymous one in full
    void sub(const char* k, const ParseField& f) {
        j.key(k);
        auto ref = f.parseExternalRef();
        if (ref.empty()) field(f); else j.s(ref);
    }

    void field(const ParseField& f) {
        using K = ParseField::ParseKind;
        if (!f.parseValid()) { j.n(); return; }
        j.o();
        static const char* kinds[] = {"int","enum","set","float","bitfield","bundle","string","data","list","ref","optional","variant"};
        auto kind = f.parseKind();
        j.ks("kind", static_cast<unsigned>(kind) < 12 ? kinds[static_cast<unsigned>(kind)] : "?");
        j.ks("name", f.parseName()); j.ks("displayName", f.parseDisplayName()); j.ks("description", f.parseDescription());
        static const char* sem[] = {"none","version","messageid","length"};
        j.ks("sem", static_cast<unsigned>(f.parseSemanticType()) < 4 ? sem[static_cast<unsigned>(f.parseSemanticType())] : "?");
        j.ku("min", f.parseMinLength()); j.ku("max", f.parseMaxLength()); j.ku("bits", f.parseBitLength());
        j.ku("since", f.parseSinceVersion()); j.ku("depr", f.parseDeprecatedSince()); j.kb("removed", f.parseIsDeprecatedRemoved());
        j.ks("ref0", f.parseExternalRef(false)); j.ks("ref1", f.parseExternalRef(true));
        j.kb("pseudo", f.parseIsPseudo()); j.kb("fixed", f.parseIsFixedValue()); j.kb("custom", f.parseIsCustomizable());
        j.kb("failInv", f.parseIsFailOnInvalid()); j.kb("forceGen", f.parseIsForceGen());
        j.key("ovr"); j.a();
        j.u(f.parseValueOverride()); j.u(f.parseReadOverride()); j.u(f.parseWriteOverride()); j.u(f.parseRefreshOverride());
        j.u(f.parseLengthOverride()); j.u(f.parseValidOverride()); j.u(f.parseNameOverride()); j.ae();
        j.ks("copyCode", f.parseCopyCodeFrom());
        extras(j, f);
        switch (kind) {
        case K::Int: intField(ParseIntField(f)); break;
        case K::Float: floatField(ParseFloatField(f)); break;
        case K::Enum: enumField(ParseEnumField(f)); break;
        case K::Set: setField(ParseSetField(f)); break;
        case K::Bitfield: { ParseBitfieldField x(f); j.ku("endian", x.parseEndian()); members(x.parseMembers()); j.key("validCond"); cond(j, x.parseValidCond()); break; }
        case K::Bundle: { ParseBundleField x(f); members(x.parseMembers()); aliases(j, x); j.key("validCond"); cond(j, x.parseValidCond()); break; }
        case K::String: {
            ParseStringField x(f); j.ks("def", x.parseDefaultValue()); j.ks("enc", x.parseEncodingStr()); j.ku("len", x.parseFixedLength());
            if (x.parseHasLengthPrefixField()) sub("prefix", x.parseLengthPrefixField());
            j.kb("zterm", x.parseHasZeroTermSuffix()); j.ks("dprefix", x.parseDetachedPrefixFieldName());
            j.key("valid"); j.a(); for (auto& v : x.parseValidValues()) { j.a(); j.s(v.m_value); j.u(v.m_sinceVersion); j.u(v.m_deprecatedSince); j.ae(); } j.ae();
            break; }
        case K::Data: {
            ParseDataField x(f); auto str = [](const std::vector<std::uint8_t>& v) { return std::string(v.begin(), v.end()); };
            j.ks("def", str(x.parseDefaultValue())); j.ku("len", x.parseFixedLength());
            if (x.parseHasLengthPrefixField()) sub("prefix", x.parseLengthPrefixField());
            j.ks("dprefix", x.parseDetachedPrefixFieldName());
            j.key("valid"); j.a(); for (auto& v : x.parseValidValues()) { j.a(); j.s(str(v.m_value)); j.u(v.m_sinceVersion); j.u(v.m_deprecatedSince); j.ae(); } j.ae();
            break; }
        case K::List: {
            ParseListField x(f); sub("elem", x.parseElementField()); j.ku("count", x.parseFixedCount());
            if (x.parseHasCountPrefixField()) sub("cprefix", x.parseCountPrefixField());
            if (x.parseHasLengthPrefixField()) sub("lprefix", x.parseLengthPrefixField());
            if (x.parseHasElemLengthPrefixField()) sub("elprefix", x.parseElemLengthPrefixField());
            if (x.parseHasTermSuffixField()) sub("tsuffix", x.parseTermSuffixField());
            j.ks("dcprefix", x.parseDetachedCountPrefixFieldName()); j.ks("dlprefix", x.parseDetachedLengthPrefixFieldName());
            j.ks("delprefix", x.parseDetachedElemLengthPrefixFieldName()); j.ks("dtsuffix", x.parseDetachedTermSuffixFieldName());
            j.kb("elemFixed", x.parseElemFixedLength());
            break; }
        case K::Ref: { ParseRefField x(f); sub("field", x.parseField()); break; }
        case K::Optional: {
            ParseOptionalField x(f); j.ku("mode", static_cast<unsigned>(x.parseDefaultMode())); sub("field", x.parseField());
            j.key("cond"); cond(j, x.parseCond()); j.kb("missRF", x.parseMissingOnReadFail()); j.kb("missInv", x.parseMissingOnInvalid());
            break; }
        case K::Variant: {
            ParseVariantField x(f); members(x.parseMembers()); 
            auto idx = x.parseDefaultMemberIdx();
            j.ki("defIdx", idx == static_cast<std::size_t>(-1) ? -1 : static_cast<std::intmax_t>(idx));
            break; }
        default: break;
        }
        j.oe();
    }

    void special(const std::string& name, unsigned since, unsigned depr, const std::string& desc, const std::string& disp) {
        j.s(name); j.u(since); j.u(depr); j.s(desc); j.s(disp);
    }

    static bool big(ParseIntField::ParseType t) { return t == ParseIntField::ParseType::Uint64 || t == ParseIntField::ParseType::Uintvar; }

    void intField(const ParseIntField& x) {
        bool bg = big(x.parseType());
        j.ks("type", typeName(x.parseType())); j.ku("endian", x.parseEndian()); j.ki("off", x.parseSerOffset());
        key("minV", [&]{ num(x.parseMinValue(), bg); }); key("maxV", [&]{ num(x.parseMaxValue(), bg); });
        key("def", [&]{ num(x.parseDefaultValue(), bg); });
        j.key("scal"); j.a(); j.i(x.parseScaling().first); j.i(x.parseScaling().second); j.ae();
        j.key("valid"); j.a();
        for (auto& r : x.parseValidRanges()) { j.a(); num(r.m_min, bg); num(r.m_max, bg); j.u(r.m_sinceVersion); j.u(r.m_deprecatedSince); j.ae(); }
        j.ae();
        j.key("specials"); j.a();
        for (auto& s : x.parseSpecialValues()) { j.a(); special(s.first, s.second.m_sinceVersion, s.second.m_deprecatedSince, s.second.m_description, s.second.m_displayName); num(s.second.m_value, bg); j.ae(); }
        j.ae();
        j.ku("units", static_cast<unsigned>(x.parseUnits())); j.kb("vcv", x.parseValidCheckVersion());
        j.ku("dd", x.parseDisplayDecimals()); j.ki("doff", x.parseDisplayOffset()); j.kb("sext", x.parseSignExt()); j.kb("avail", x.parseAvailableLengthLimit());
    }

    void floatField(const ParseFloatField& x) {
        j.ks("type", x.parseType() == ParseFloatField::ParseType::Float ? "float" : "double"); j.ku("endian", x.parseEndian());
        j.kf("def", x.parseDefaultValue());
        j.key("valid"); j.a();
        for (auto& r : x.parseValidRanges()) { j.a(); j.f(r.m_min); j.f(r.m_max); j.u(r.m_sinceVersion); j.u(r.m_deprecatedSince); j.ae(); }
        j.ae();
        j.key("specials"); j.a();
        for (auto& s : x.parseSpecialValues()) { j.a(); special(s.first, s.second.m_sinceVersion, s.second.m_deprecatedSince, s.second.m_description, s.second.m_displayName); j.f(s.second.m_value); j.ae(); }
        j.ae();
        j.ku("units", static_cast<unsigned>(x.parseUnits())); j.kb("vcv", x.parseValidCheckVersion());
        j.ku("dd", x.parseDisplayDecimals()); j.kb("nonUniq", x.parseHasNonUniqueSpecials());
    }

    void enumField(const ParseEnumField& x) {
        bool bg = big(x.parseType());
        j.ks("type", typeName(x.parseType())); j.ku("endian", x.parseEndian());
        key("def", [&]{ num(x.parseDefaultValue(), bg); });
        j.key("values"); j.a();
        for (auto& s : x.parseValues()) { j.a(); special(s.first, s.second.m_sinceVersion, s.second.m_deprecatedSince, s.second.m_description, s.second.m_displayName); num(s.second.m_value, bg); j.ae(); }
        j.ae();
        j.key("rev"); j.a(); for (auto& r : x.parseRevValues()) { j.a(); num(r.first, bg); j.s(r.second); j.ae(); } j.ae();
        j.kb("nonUniqAllowed", x.parseIsNonUniqueAllowed()); j.kb("uniq", x.parseIsUnique()); j.kb("vcv", x.parseValidCheckVersion());
        j.kb("hex", x.parseHexAssign()); j.kb("avail", x.parseAvailableLengthLimit());
    }

    void setField(const ParseSetField& x) {
        j.ks("type", typeName(x.parseType())); j.ku("endian", x.parseEndian());
        j.kb("defBit", x.parseDefaultBitValue()); j.kb("resBit", x.parseReservedBitValue());
        j.key("bitsInfo"); j.a();
        for (auto& s : x.parseBits()) { auto& b = s.second; j.a(); special(s.first, b.m_sinceVersion, b.m_deprecatedSince, b.m_description, b.m_displayName); j.u(b.m_idx); j.b(b.m_defaultValue); j.b(b.m_reserved); j.b(b.m_reservedValue); j.ae(); }
        j.ae();
        j.key("rev"); j.a(); for (auto& r : x.parseRevBits()) { j.a(); j.u(r.first); j.s(r.second); j.ae(); } j.ae();
        j.kb("nonUniqAllowed", x.parseIsNonUniqueAllowed()); j.kb("uniq", x.parseIsUnique()); j.kb("vcv", x.parseValidCheckVersion()); j.kb("avail", x.parseAvailableLengthLimit());
    }

    void message(const ParseMessage& m) {
        j.o();
        j.ks("name", m.parseName()); j.ks("displayName", m.parseDisplayName()); j.ks("description", m.parseDescription());
        j.ku("id", m.parseId()); j.ku("order", m.parseOrder()); j.ku("min", m.parseMinLength()); j.ku("max", m.parseMaxLength());
        j.ku("since", m.parseSinceVersion()); j.ku("depr", m.parseDeprecatedSince()); j.kb("removed", m.parseIsDeprecatedRemoved());
        j.ks("ref0", m.parseExternalRef(false)); j.ks("ref1", m.parseExternalRef(true));
        j.kb("custom", m.parseIsCustomizable()); j.kb("failInv", m.parseIsFailOnInvalid()); j.ku("sender", static_cast<unsigned>(m.parseSender()));
        j.key("ovr"); j.a(); j.u(m.parseReadOverride()); j.u(m.parseWriteOverride()); j.u(m.parseRefreshOverride()); j.u(m.parseLengthOverride()); j.u(m.parseValidOverride()); j.u(m.parseNameOverride()); j.ae();
        j.ks("copyCode", m.parseCopyCodeFrom());
        j.key("construct"); cond(j, m.parseConstruct()); j.key("readCond"); cond(j, m.parseReadCond()); j.key("validCond"); cond(j, m.parseValidCond());
        j.key("platforms"); j.a(); for (auto& p : m.parsePlatforms()) j.s(p); j.ae();
        extras(j, m); aliases(j, m);
        j.key("fields"); j.a(); for (auto& f : m.parseFields()) field(f); j.ae();
        j.oe();
    }

    void interface(const ParseInterface& m) {
        j.o(); j.ks("name", m.parseName()); j.ks("description", m.parseDescription());
        j.ks("ref0", m.parseExternalRef(false)); j.ks("ref1", m.parseExternalRef(true)); j.ks("copyCode", m.parseCopyCodeFrom());
        extras(j, m); aliases(j, m);
        j.key("fields"); j.a(); for (auto& f : m.parseFields()) field(f); j.ae();
        j.oe();
    }

    void layer(const ParseLayer& l) {
        using K = ParseLayer::ParseKind;
        static const char* kinds[] = {"custom","sync","size","id","value","payload","checksum"};
        j.o(); j.ks("kind", static_cast<unsigned>(l.parseKind()) < 7 ? kinds[static_cast<unsigned>(l.parseKind())] : "?");
        j.ks("name", l.parseName()); j.ks("displayName", l.parseDisplayName()); j.ks("description", l.parseDescription()); extras(j, l);
        if (l.parseHasField()) sub("field", l.parseField());
        switch (l.parseKind()) {
        case K::Custom: { ParseCustomLayer x(l); j.ks("sem", static_cast<unsigned>(x.parseSemanticLayerType()) < 7 ? kinds[static_cast<unsigned>(x.parseSemanticLayerType())] : "?"); j.ks("from", x.parseChecksumFromLayer()); j.ks("until", x.parseChecksumUntilLayer()); break; }
        case K::Sync: { ParseSyncLayer x(l); j.kb("seek", x.parseSeekField()); if (x.parseHasEscField()) sub("esc", x.parseEscField()); j.ks("from", x.parseFromLayer()); j.kb("vbr", x.parseVerifyBeforeRead()); j.kb("after", x.parseIsAfterPayload()); break; }
        case K::Checksum: { ParseChecksumLayer x(l); j.ku("alg", static_cast<unsigned>(x.parseAlg())); j.ks("calg", x.parseCustomAlgName()); j.ks("from", x.parseFromLayer()); j.ks("until", x.parseUntilLayer()); j.kb("vbr", x.parseVerifyBeforeRead()); break; }
        case K::Value: { ParseValueLayer x(l); j.key("ifaces"); j.a(); for (auto& i : x.parseInterfaces()) j.s(i.parseExternalRef()); j.ae(); j.ks("fname", x.parseFieldName()); j.ku("fidx", x.parseFieldIdx()); j.kb("pseudo", x.parsePseudo()); break; }
        default: break;
        }
        j.oe();
    }

    void frame(const ParseFrame& f) {
        j.o(); j.ks("name", f.parseName()); j.ks("displayName", f.parseDisplayName()); j.ks("description", f.parseDescription());
        j.ks("ref0", f.parseExternalRef(false)); j.ks("ref1", f.parseExternalRef(true)); extras(j, f);
        j.key("layers"); j.a(); for (auto& l : f.parseLayers()) layer(l); j.ae();
        j.oe();
    }

    void ns(const ParseNamespace& n) {
        j.o(); j.ks("name", n.parseName()); j.ks("displayName", n.parseDisplayName()); j.ks("description", n.parseDescription());
        j.ks("ref0", n.parseExternalRef(false)); j.ks("ref1", n.parseExternalRef(true)); j.kb("hasMsgs", n.parseHasMessages()); extras(j, n);
        j.key("ns"); j.a(); for (auto& x : n.parseNamespaces()) ns(x); j.ae();
        j.key("fields"); j.a(); for (auto& x : n.parseFields()) field(x); j.ae();
        j.key("interfaces"); j.a(); for (auto& x : n.parseInterfaces()) interface(x); j.ae();
        j.key("messages"); j.a(); for (auto& x : n.parseMessages()) message(x); j.ae();
        j.key("frames"); j.a(); for (auto& x : n.parseFrames()) frame(x); j.ae();
        j.oe();
    }

    void schema(const ParseSchema& s) {
        j.o(); j.ks("name", s.parseName()); j.ks("displayName", s.parseDisplayName()); j.ks("description", s.parseDescription());
        j.ku("id", s.parseId()); j.ku("version", s.parseVersion()); j.ku("dsl", s.parseDslVersion()); j.ku("endian", s.parseEndian());
        j.kb("nonUniqIds", s.parseNonUniqueMsgIdAllowed()); j.ks("ref", s.parseExternalRef()); extras(j, s);
        j.key("platforms"); j.a(); for (auto& p : s.parsePlatforms()) j.s(p); j.ae();
        j.key("ns"); j.a(); for (auto& x : s.parseNamespaces()) ns(x); j.ae();
        j.key("all"); j.a(); for (auto& x : s.parseAllMessages()) j.s(x.parseExternalRef(false)); j.ae();
        j.oe();
    }
};
} // namespace dump
