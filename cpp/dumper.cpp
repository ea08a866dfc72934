// Persistent process. One request per line, fields separated by \x1f:
//   flags \x1f prefixes(comma) \x1f lookups(comma) \x1f file...
// flags: m multiple schemas, v validate, d dump
// Answer: one line of JSON.
#include "dump_model.h"
#include <iostream>
#include <sstream>
#include <set>

using namespace commsdsl::parse;

static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r; std::string cur;
    for (char x : s) { if (x == c) { r.push_back(cur); cur.clear(); } else cur += x; }
    r.push_back(cur); return r;
}

int main()
{
    std::string line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        auto parts = split(line, '\x1f');
        if (parts.size() < 4) { std::cout << "{\"bad\":true}\n" << std::flush; continue; }
        dump::Dumper d; auto& j = d.j;
        ParseProtocol p;
        std::vector<std::pair<int, std::string>> log;
        p.parseSetErrorReportCallback([&](ParseErrorLevel l, const std::string& m) { log.emplace_back(static_cast<int>(l), m); });
        auto& flags = parts[0];
        if (flags.find('m') != std::string::npos) p.parseSetMultipleSchemasEnabled(true);
        if (!parts[1].empty()) for (auto& x : split(parts[1], ',')) p.parseAddExpectedExtraPrefix(x);
        bool ok = true; std::vector<bool> res;
        if (flags.find('i') != std::string::npos) { // another object is used and destroyed meanwhile
            ParseProtocol other; other.parseSetErrorReportCallback([](ParseErrorLevel, const std::string&) {}); other.parse(parts[3]);
            if (flags.find('I') != std::string::npos) other.parseValidate();
        }
        for (std::size_t i = 3; i < parts.size() && ok; ++i) { ok = p.parse(parts[i]); res.push_back(ok); }
        bool parsed = ok;
        if (ok && flags.find('v') != std::string::npos) ok = p.parseValidate();
        j.o(); j.kb("ok", ok); j.kb("parsed", parsed);
        j.key("log"); j.a(); for (auto& l : log) { j.a(); j.i(l.first); j.s(l.second); j.ae(); } j.ae();
        if (ok && flags.find('d') != std::string::npos) {
            j.key("schemas"); j.a(); for (auto& s : p.parseSchemas()) d.schema(s); j.ae();
            if (!parts[2].empty()) {
                j.key("found"); j.a();
                for (auto& ref : split(parts[2], ',')) { auto f = p.parseFindField(ref); if (!f.parseValid()) j.n(); else { auto r = f.parseExternalRef(); j.s(r); } }
                j.ae();
            }
        }
        j.oe();
        std::cout << j.out << '\n' << std::flush;
    }
    return 0;
}
