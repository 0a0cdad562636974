#pragma once
#include "gen_text.h"
#include <apib/syntax/MediaType.h>

namespace gm
{
    typedef apib::syntax::media_type MT;
    inline std::string name(pbt::Case& c)
    {
        static const std::vector<std::string> k = { "application", "json", "schema", "xml", "text", "plain", "vnd.api", "JSON", "Application",
            "x", "charset", "utf-8", "SCHEMA", "jSon", "jsonx", "xjson", "0" };
        if (c.chance(2, 3))
            return c.pick(k);
        static const std::string an = "abcxyzABCXYZ0189", re = "!#$&^_-.";
        std::string s(1, an[c.draw(an.size() - 1)]);
        size_t n = c.chance(1, 20) ? 126 : c.size(10);
        for (size_t i = 0; i < n; ++i)
            s += c.chance(1, 3) ? re[c.draw(re.size() - 1)] : an[c.draw(an.size() - 1)];
        return s;
    }
    inline std::string lower(std::string s)
    {
        for (auto& ch : s)
            if (ch >= 'A' && ch <= 'Z')
                ch += 32;
        return s;
    }
    inline std::string show(const MT& m)
    {
        std::ostringstream o;
        o << "{" << pbt::quote(m.type) << " / " << pbt::quote(m.subtype) << " + " << pbt::quote(m.suffix);
        for (auto& p : m.parameters)
            o << " ; " << pbt::quote(p.first) << "=" << pbt::quote(p.second);
        return o.str() + "}";
    }
    inline bool same(const MT& a, const MT& b)
    {
        return a.type == b.type && a.subtype == b.subtype && a.suffix == b.suffix && a.parameters == b.parameters;
    }
}
