// Whole documents of the documented structure, as they are or with a few characters put in, taken out or repeated.
#pragma once
#include "gen_blueprint.h"
#include "gen_mson.h"
#include "gen_text.h"

namespace docs
{
    inline std::string mson(pbt::Case& c)
    {
        gm::Gen g(c);
        g.declare(4);
        gm::Writer w(c);
        w.line("# API");
        w.blank();
        w.line("# Data Structures");
        w.blank();
        for (auto& t : g.types)
            w.named(t, 2);
        w.blank();
        w.line("# GET /a");
        w.blank();
        for (size_t n = c.size(2) + 1; n; --n) {
            w.line(n > 1 ? "+ Request (application/json)" : "+ Response 200 (application/json)");
            w.blank();
            w.attributes(g.attributesSection(), 1);
            w.blank();
        }
        return w.o;
    }
    inline std::string structured(pbt::Case& c)
    {
        if (c.boolean())
            return mson(c);
        gb::Gen g(c);
        gb::Blueprint b = g.blueprint();
        return gb::Writer(c).write(b);
    }
    inline size_t boundary(const std::string& s, size_t i)
    {
        while (i < s.size() && (s[i] & 0xC0) == 0x80)
            ++i;
        return i;
    }
    inline void disturb(pbt::Case& c, std::string& s)
    {
        size_t i = boundary(s, c.draw(s.size()));
        switch (c.draw(5)) {
            case 0:
            case 1: {
                std::string x;
                for (size_t n = 1 + c.size(2); n; --n)
                    mj::putUtf8(x, gt::codepoint(c));
                s.insert(i, x);
                break;
            }
            case 2: s.erase(i, boundary(s, std::min(s.size(), i + 1 + c.size(6))) - i); break;
            case 3: { // a line twice
                size_t b = i ? s.rfind('\n', i - 1) : std::string::npos;
                b = b == std::string::npos ? 0 : b + 1;
                size_t e = s.find('\n', b);
                std::string l = e == std::string::npos ? s.substr(b) + "\n" : s.substr(b, e + 1 - b);
                s.insert(b, l);
                break;
            }
            case 4: s.insert(i, c.pick(std::vector<std::string>{ "\n", "\n\n", "    ", "+ ", " ", "(", ")", "`", "[", "]", ":", "*", "#", "-", ",", "{", "}", "\t", "\r\n", "\\" })); break;
            default: s.erase(boundary(s, c.draw(s.size())));
        }
    }
    inline std::string any(pbt::Case& c)
    {
        std::string s = structured(c);
        for (size_t n = c.size(3); n; --n)
            disturb(c, s);
        return s;
    }
}
