// T05: media type text is parsed into exactly its components, and survives writing and parsing.
#include "backend/MediaTypeS11n.h"
#include "backend/Backend.h"
#include "gen_media.h"
#include <apib/parser/MediaTypeParser.h>

PBT_LEAKS

using gm::MT;

static std::string blanks(pbt::Case& c, bool one)
{
    std::string s;
    size_t n = c.size(2) + (one ? 1 : 0);
    for (size_t i = 0; i < n; ++i)
        s += c.chance(1, 5) ? '\t' : ' ';
    return s;
}
FACET(components, 600000, 10000000, "valid media types with prefix chains, suffixes, and plain and quoted parameters separated by ';' or blanks; non-trivial: a suffix or two parameters")
{
    MT m;
    std::string s = blanks(c, false);
    m.type = gm::name(c);
    m.subtype = gm::name(c);
    s += m.type + "/";
    size_t chain = c.size(3);
    for (size_t i = 0; i < chain; ++i) {
        if (i)
            m.subtype += "+" + gm::name(c);
    }
    s += m.subtype;
    if (chain) {
        m.suffix = gm::name(c);
        s += "+" + m.suffix;
    }
    size_t n = c.size(4);
    bool escaped = false;
    for (size_t i = 0; i < n; ++i) {
        std::string k = gm::name(c), v;
        s += i == 0 || c.boolean() ? blanks(c, false) + ";" + blanks(c, false) : blanks(c, true);
        if (c.boolean()) {
            v = gm::name(c);
            s += k + "=" + v;
        } else {
            static const std::string ch = " ;=/,+ab1()@:?'%\t";
            size_t l = c.size(6);
            for (size_t j = 0; j < l; ++j)
                switch (c.weighted({ 6, 1, 1 })) {
                    case 0: v += ch[c.draw(ch.size() - 1)]; break;
                    case 1: v += c.boolean() ? "\\\"" : "\\\\"; escaped = true; break;
                    default: mj::putUtf8(v, (uint32_t)c.range(0xA0, 0x2FF));
                }
            s += k + "=\"" + v + "\"";
        }
        m.parameters.emplace_back(k, v);
    }
    s += blanks(c, false);
    c << pbt::quote(s);
    c.nontrivial(chain || n > 1);
    MT got = apib::parser::parseMediaType(s);
    REQUIRE_(gm::same(got, m), "components", "parsed as " << gm::show(got) << " expected " << gm::show(m));
    std::string w = apib::backend::serialize(got);
    MT again = apib::parser::parseMediaType(w);
    if (!gm::same(again, m)) {
        std::string msg = "written as " + pbt::quote(w) + " and read back as " + gm::show(again);
        MT twice = m; // the recorded finding: what is escaped already is escaped once more, nothing else
        for (auto& p : twice.parameters) {
            std::string v;
            for (char ch : p.second) {
                if (ch == '"' || ch == '\\')
                    v += '\\';
                v += ch;
            }
            p.second = v;
        }
        if (escaped && gm::same(again, twice))
            c.failKnown("T05-double-escape", "round-trip", msg);
        else
            c.fail("round-trip", msg);
    }
}
FACET(anything, 600000, 10000000, "arbitrary and damaged media type text: parsing ends, and every component it reports is a substring of the text; non-trivial: contains '/'")
{
    std::string s;
    if (c.boolean()) {
        size_t n = c.size(12);
        static const std::vector<std::string> tok = { "a", "/", "+", ";", "=", "\"", "\\", " ", "json", "application/json", "charset=utf-8", "\t", "\n", "\r\n", "\x80", "x-y", "." };
        for (size_t i = 0; i < n; ++i)
            s += c.pick(tok);
    } else
        s = gt::anyBytes(c, 16, true);
    c << pbt::quote(s);
    c.nontrivial(s.find('/') != std::string::npos);
    MT m = apib::parser::parseMediaType(s);
    auto in = [&](const std::string& x) { return s.find(x) != std::string::npos; };
    REQUIRE_(in(m.type) && in(m.subtype) && in(m.suffix), "substring", "parsed as " << gm::show(m));
    for (auto& p : m.parameters)
        REQUIRE_(in(p.first) && in(p.second), "substring", "parsed as " << gm::show(m));
    MT again = apib::parser::parseMediaType(s);
    REQUIRE_(gm::same(m, again), "unrepeatable", "a second parse gives " << gm::show(again));
}
KNOWN_PROBE(double_escape, "T05-double-escape")
{
    MT m = apib::parser::parseMediaType("a/b;c=\"\\\"\"");
    return !gm::same(apib::parser::parseMediaType(apib::backend::serialize(m)), m);
}
