// T04: media types are classified case-insensitively and written with their parameters quoted where needed.
#include "backend/MediaTypeS11n.h"
#include "backend/Backend.h"
#include "gen_media.h"

PBT_LEAKS

using gm::MT;

static std::string field(pbt::Case& c)
{
    if (c.chance(1, 10))
        return "";
    std::string s = gm::name(c);
    if (c.chance(1, 12) && !s.empty())
        s[c.draw(s.size() - 1)] = (char)c.range(1, 255);
    return s;
}
FACET(classify, 1000000, 20000000, "media types around application/json and application/schema+json in all letter cases; non-trivial: one letter case or one letter away from a JSON type")
{
    static const std::vector<std::string> t = { "application", "json", "schema", "" };
    MT m;
    std::string* f[3] = { &m.type, &m.subtype, &m.suffix };
    for (int i = 0; i < 3; ++i) {
        *f[i] = c.chance(1, 4) ? field(c) : i == 0 ? t[0] : c.pick(t);
        for (auto& ch : *f[i])
            if (ch >= 'a' && ch <= 'z' && c.chance(1, 5))
                ch -= 32;
        if (c.chance(1, 8) && !f[i]->empty()) {
            size_t at = c.draw(f[i]->size() - 1);
            switch (c.draw(2)) {
                case 0: f[i]->erase(at, 1); break;
                case 1: f[i]->insert(c.draw(f[i]->size()), c.boolean() ? std::string("n") : gm::name(c)); break;
                default: (*f[i])[at] = (char)((*f[i])[at] + 1);
            }
        }
    }
    c << gm::show(m);
    bool app = gm::lower(m.type) == "application";
    bool json = app && gm::lower(m.suffix.empty() ? m.subtype : m.suffix) == "json";
    bool schema = app && gm::lower(m.subtype) == "schema" && gm::lower(m.suffix) == "json";
    c.nontrivial(app && (gm::lower(m.subtype) == "json" || gm::lower(m.suffix) == "json" || gm::lower(m.subtype) == "schema"));
    c.label(json ? (schema ? "schema" : "json") : "other");
    REQUIRE_(apib::isJSON(m) == json, "isJSON", "isJSON is " << apib::isJSON(m));
    REQUIRE_(apib::isJSONSchema(m) == schema, "isJSONSchema", "isJSONSchema is " << apib::isJSONSchema(m));
}
FACET(write, 1000000, 20000000, "media types with parameters of arbitrary text; non-trivial: two or more parameters, one of them needing quotes")
{
    MT m;
    m.type = field(c);
    m.subtype = field(c);
    if (c.boolean())
        m.suffix = field(c);
    size_t n = c.size(5), quoted = 0;
    std::string e = m.type + "/" + m.subtype + (m.suffix.empty() ? "" : "+" + m.suffix);
    for (size_t i = 0; i < n; ++i) {
        std::string k = field(c), v;
        switch (c.draw(2)) {
            case 0: v = gm::name(c); break;
            case 1: v = gt::utf8(c, 8); break;
            default: {
                size_t l = c.size(6);
                static const std::string ch = "()<>@,;:\\\"/[]?= \t\ra1-_.~!{}|";
                for (size_t j = 0; j < l; ++j)
                    v += ch[c.draw(ch.size() - 1)];
            }
        }
        m.parameters.emplace_back(k, v);
        if (k.empty())
            continue;
        bool q = v.empty() || v.find_first_of("()<>@,;:\\\"/[]?=") != std::string::npos;
        for (unsigned char ch : v)
            q = q || ch <= 0x20 || ch >= 0x7F;
        quoted += q;
        e += "; " + k + "=";
        if (q)
            e += '"';
        for (char ch : v)
            if (q && (ch == '"' || ch == '\\'))
                e += std::string("\\") + ch;
            else if (q && ch == '\r')
                e += "\\r";
            else
                e += ch;
        if (q)
            e += '"';
    }
    if (m.type.empty() || m.subtype.empty())
        e.clear();
    c << gm::show(m);
    c.nontrivial(n > 1 && quoted);
    std::string got = apib::backend::serialize(m);
    REQUIRE_(got == e, "text", "written as " << pbt::quote(got) << " expected " << pbt::quote(e));
}
