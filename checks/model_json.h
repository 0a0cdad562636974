// An order-preserving JSON value, a strict JSON parser, and a parser for the block-style YAML subset, both written from
// the standards (RFC 8259, YAML 1.2) and sharing nothing with the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace mj
{
    inline void putUtf8(std::string& o, uint32_t c)
    {
        if (c < 0x80)
            o += (char)c;
        else if (c < 0x800) {
            o += (char)(0xC0 | c >> 6);
            o += (char)(0x80 | (c & 63));
        } else if (c < 0x10000) {
            o += (char)(0xE0 | c >> 12);
            o += (char)(0x80 | (c >> 6 & 63));
            o += (char)(0x80 | (c & 63));
        } else {
            o += (char)(0xF0 | c >> 18);
            o += (char)(0x80 | (c >> 12 & 63));
            o += (char)(0x80 | (c >> 6 & 63));
            o += (char)(0x80 | (c & 63));
        }
    }
    // next code point of a well-formed sequence at i (table 3-7 of the Unicode standard), or -1
    inline int64_t nextUtf8(const std::string& s, size_t& i)
    {
        auto b = [&](size_t k) -> int { return k < s.size() ? (unsigned char)s[k] : -1; };
        auto cont = [&](size_t k, int lo, int hi) { return b(k) >= lo && b(k) <= hi; };
        int c = b(i);
        if (c < 0)
            return -1;
        if (c < 0x80) {
            ++i;
            return c;
        }
        if (c >= 0xC2 && c <= 0xDF && cont(i + 1, 0x80, 0xBF)) {
            int64_t r = (c & 31) << 6 | (b(i + 1) & 63);
            i += 2;
            return r;
        }
        if (c >= 0xE0 && c <= 0xEF && cont(i + 1, c == 0xE0 ? 0xA0 : 0x80, c == 0xED ? 0x9F : 0xBF) && cont(i + 2, 0x80, 0xBF)) {
            int64_t r = (c & 15) << 12 | (b(i + 1) & 63) << 6 | (b(i + 2) & 63);
            i += 3;
            return r;
        }
        if (c >= 0xF0 && c <= 0xF4 && cont(i + 1, c == 0xF0 ? 0x90 : 0x80, c == 0xF4 ? 0x8F : 0xBF) && cont(i + 2, 0x80, 0xBF)
            && cont(i + 3, 0x80, 0xBF)) {
            int64_t r = (c & 7) << 18 | (b(i + 1) & 63) << 12 | (b(i + 2) & 63) << 6 | (b(i + 3) & 63);
            i += 4;
            return r;
        }
        return -1;
    }
    inline bool validUtf8(const std::string& s)
    {
        for (size_t i = 0; i < s.size();)
            if (nextUtf8(s, i) < 0)
                return false;
        return true;
    }
    inline size_t codepoints(const std::string& s)
    {
        size_t n = 0;
        for (unsigned char c : s)
            n += (c & 0xC0) != 0x80;
        return n;
    }

    struct JV {
        enum T { Null, True, False, Num, Str, Arr, Obj } t = Null;
        std::string s; // text of a string or number
        std::vector<JV> a;
        std::vector<std::pair<std::string, JV> > o;
        JV() {}
        JV(T t_) : t(t_) {}
        static JV str(const std::string& x)
        {
            JV v(Str);
            v.s = x;
            return v;
        }
        static JV num(const std::string& x)
        {
            JV v(Num);
            v.s = x;
            return v;
        }
        bool operator==(const JV& r) const { return t == r.t && s == r.s && a == r.a && o == r.o; }
        bool operator!=(const JV& r) const { return !(*this == r); }
        const JV* get(const std::string& k) const
        {
            for (auto& m : o)
                if (m.first == k)
                    return &m.second;
            return nullptr;
        }
        bool isStr(const std::string& x) const { return t == Str && s == x; }
        // path of keys / indexes, e.g. at("content", 0, "meta")
        const JV* at(const std::string& k) const { return get(k); }
    };
    inline std::string quoteJson(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char)c;
            } else if (c < 0x20) {
                static const char* named = "btn?fr";
                char b[8];
                if (c >= 8 && c <= 13 && c != 11) {
                    o += '\\';
                    o += named[c - 8];
                } else {
                    snprintf(b, 8, "\\u%04x", c);
                    o += b;
                }
            } else
                o += (char)c;
        return o + "\"";
    }
    inline std::string packed(const JV& v)
    {
        switch (v.t) {
            case JV::Null: return "null";
            case JV::True: return "true";
            case JV::False: return "false";
            case JV::Num: return v.s;
            case JV::Str: return quoteJson(v.s);
            case JV::Arr: {
                std::string o = "[";
                for (size_t i = 0; i < v.a.size(); ++i)
                    o += (i ? "," : "") + packed(v.a[i]);
                return o + "]";
            }
            default: {
                std::string o = "{";
                for (size_t i = 0; i < v.o.size(); ++i)
                    o += (i ? "," : "") + quoteJson(v.o[i].first) + ":" + packed(v.o[i].second);
                return o + "}";
            }
        }
    }
    inline std::string pretty(const JV& v, size_t depth = 0)
    {
        std::string nl = "\n" + std::string(2 * depth + 2, ' ');
        std::string end = "\n" + std::string(2 * depth, ' ');
        if (v.t == JV::Arr && !v.a.empty()) {
            std::string o = "[";
            for (size_t i = 0; i < v.a.size(); ++i)
                o += (i ? "," : "") + nl + pretty(v.a[i], depth + 1);
            return o + end + "]";
        }
        if (v.t == JV::Obj && !v.o.empty()) {
            std::string o = "{";
            for (size_t i = 0; i < v.o.size(); ++i)
                o += (i ? "," : "") + nl + quoteJson(v.o[i].first) + ": " + pretty(v.o[i].second, depth + 1);
            return o + end + "}";
        }
        return packed(v);
    }

    class JsonParser
    {
        const std::string& s;
        size_t i = 0;
        bool utf8;

        bool bad(const std::string& m)
        {
            if (err.empty()) {
                std::ostringstream o;
                o << m << " at byte " << i;
                err = o.str();
            }
            return false;
        }
        void ws()
        {
            while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
                ++i;
        }
        bool lit(const char* w)
        {
            size_t n = std::string(w).size();
            if (s.compare(i, n, w))
                return bad("bad literal");
            i += n;
            return true;
        }
        bool hex4(uint32_t& c)
        {
            c = 0;
            for (int k = 0; k < 4; ++k, ++i) {
                char h = i < s.size() ? s[i] : 0;
                c = c * 16;
                if (h >= '0' && h <= '9')
                    c += h - '0';
                else if (h >= 'a' && h <= 'f')
                    c += h - 'a' + 10;
                else if (h >= 'A' && h <= 'F')
                    c += h - 'A' + 10;
                else
                    return bad("bad \\u escape");
            }
            return true;
        }
        bool string(std::string& o)
        {
            o.clear();
            if (i >= s.size() || s[i] != '"')
                return bad("string expected");
            ++i;
            for (;;) {
                if (i >= s.size())
                    return bad("unterminated string");
                unsigned char c = s[i];
                if (c == '"') {
                    ++i;
                    return true;
                }
                if (c < 0x20)
                    return bad("raw control character in string");
                if (c == '\\') {
                    ++i;
                    char e = i < s.size() ? s[i] : 0;
                    ++i;
                    switch (e) {
                        case '"': o += '"'; break;
                        case '\\': o += '\\'; break;
                        case '/': o += '/'; break;
                        case 'b': o += '\b'; break;
                        case 'f': o += '\f'; break;
                        case 'n': o += '\n'; break;
                        case 'r': o += '\r'; break;
                        case 't': o += '\t'; break;
                        case 'u': {
                            uint32_t u;
                            if (!hex4(u))
                                return false;
                            if (u >= 0xD800 && u < 0xDC00) {
                                uint32_t l;
                                if (s.compare(i, 2, "\\u"))
                                    return bad("lone surrogate");
                                i += 2;
                                if (!hex4(l))
                                    return false;
                                if (l < 0xDC00 || l > 0xDFFF)
                                    return bad("lone surrogate");
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            } else if (u >= 0xDC00 && u < 0xE000)
                                return bad("lone surrogate");
                            putUtf8(o, u);
                            break;
                        }
                        default: return bad("bad escape");
                    }
                } else if (c < 0x80 || !utf8) {
                    o += (char)c;
                    ++i;
                } else {
                    size_t b = i;
                    if (nextUtf8(s, i) < 0)
                        return bad("ill-formed UTF-8");
                    o.append(s, b, i - b);
                }
            }
        }
        bool number(std::string& o)
        {
            size_t b = i;
            auto digits = [&] {
                size_t d = i;
                while (i < s.size() && s[i] >= '0' && s[i] <= '9')
                    ++i;
                return i - d;
            };
            if (i < s.size() && s[i] == '-')
                ++i;
            if (i < s.size() && s[i] == '0')
                ++i;
            else if (!digits())
                return bad("bad number");
            if (i < s.size() && s[i] == '.') {
                ++i;
                if (!digits())
                    return bad("bad fraction");
            }
            if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
                ++i;
                if (i < s.size() && (s[i] == '+' || s[i] == '-'))
                    ++i;
                if (!digits())
                    return bad("bad exponent");
            }
            o = s.substr(b, i - b);
            return true;
        }
        bool value(JV& v, int depth)
        {
            if (depth > 4000)
                return bad("too deep");
            ws();
            if (i >= s.size())
                return bad("value expected");
            switch (s[i]) {
                case 'n': v = JV(JV::Null); return lit("null");
                case 't': v = JV(JV::True); return lit("true");
                case 'f': v = JV(JV::False); return lit("false");
                case '"': v = JV(JV::Str); return string(v.s);
                case '[': {
                    v = JV(JV::Arr);
                    ++i;
                    ws();
                    if (i < s.size() && s[i] == ']') {
                        ++i;
                        return true;
                    }
                    for (;;) {
                        v.a.emplace_back();
                        if (!value(v.a.back(), depth + 1))
                            return false;
                        ws();
                        if (i < s.size() && s[i] == ',') {
                            ++i;
                            continue;
                        }
                        if (i < s.size() && s[i] == ']') {
                            ++i;
                            return true;
                        }
                        return bad("',' or ']' expected");
                    }
                }
                case '{': {
                    v = JV(JV::Obj);
                    ++i;
                    ws();
                    if (i < s.size() && s[i] == '}') {
                        ++i;
                        return true;
                    }
                    for (;;) {
                        ws();
                        std::string k;
                        if (!string(k))
                            return false;
                        if (v.get(k))
                            duplicates.push_back(k);
                        ws();
                        if (i >= s.size() || s[i] != ':')
                            return bad("':' expected");
                        ++i;
                        v.o.emplace_back(k, JV());
                        if (!value(v.o.back().second, depth + 1))
                            return false;
                        ws();
                        if (i < s.size() && s[i] == ',') {
                            ++i;
                            continue;
                        }
                        if (i < s.size() && s[i] == '}') {
                            ++i;
                            return true;
                        }
                        return bad("',' or '}' expected");
                    }
                }
                default: v = JV(JV::Num); return number(v.s);
            }
        }

    public:
        std::string err;
        std::vector<std::string> duplicates;
        JsonParser(const std::string& src, bool checkUtf8 = true) : s(src), utf8(checkUtf8) {}
        bool parse(JV& v)
        {
            if (!value(v, 0))
                return false;
            ws();
            return i == s.size() || bad("text after the value");
        }
    };

    // block mappings and sequences, flow [] and {}, double-quoted and plain one-line scalars
    class YamlParser
    {
        struct Line {
            size_t indent;
            std::string text;
        };
        std::vector<Line> l;
        size_t at = 0;

        bool bad(const std::string& m)
        {
            if (err.empty()) {
                std::ostringstream o;
                o << m << " at line " << at + 1;
                err = o.str();
            }
            return false;
        }
        bool quoted(const std::string& t, size_t& i, std::string& o)
        {
            o.clear();
            ++i;
            while (i < t.size() && t[i] != '"') {
                unsigned char c = t[i];
                if (c == '\\') {
                    char e = i + 1 < t.size() ? t[i + 1] : 0;
                    i += 2;
                    int n = 0;
                    switch (e) {
                        case '0': o += '\0'; break;
                        case 'a': o += '\a'; break;
                        case 'b': o += '\b'; break;
                        case 't': o += '\t'; break;
                        case 'n': o += '\n'; break;
                        case 'v': o += '\v'; break;
                        case 'f': o += '\f'; break;
                        case 'r': o += '\r'; break;
                        case 'e': o += '\x1b'; break;
                        case ' ': o += ' '; break;
                        case '"': o += '"'; break;
                        case '/': o += '/'; break;
                        case '\\': o += '\\'; break;
                        case 'N': putUtf8(o, 0x85); break;
                        case '_': putUtf8(o, 0xA0); break;
                        case 'L': putUtf8(o, 0x2028); break;
                        case 'P': putUtf8(o, 0x2029); break;
                        case 'x': n = 2; break;
                        case 'u': n = 4; break;
                        case 'U': n = 8; break;
                        default: return bad("bad escape");
                    }
                    if (n) {
                        if (i + n > t.size())
                            return bad("short escape");
                        std::string h = t.substr(i, n);
                        if (h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
                            return bad("bad hex escape");
                        putUtf8(o, (uint32_t)strtoul(h.c_str(), nullptr, 16));
                        i += n;
                    }
                } else {
                    size_t b = i;
                    int64_t cp = nextUtf8(t, i);
                    if (cp < 0)
                        return bad("ill-formed UTF-8");
                    if (!(cp == 9 || (cp >= 0x20 && cp <= 0x7E) || (cp >= 0xA0 && cp <= 0xD7FF)
                            || (cp >= 0xE000 && cp <= 0xFFFD && cp != 0xFEFF) || cp >= 0x10000))
                        return bad("raw unprintable character");
                    if (cp == 0x2028 || cp == 0x2029)
                        return bad("raw line break");
                    o.append(t, b, i - b);
                }
            }
            if (i >= t.size())
                return bad("unterminated string");
            ++i;
            return true;
        }
        // plain scalars resolve as the YAML 1.1 and 1.2 schemas do
        static bool word(const std::string& w, JV& v)
        {
            static const char* nul[] = { "null", "Null", "NULL", "~", "" };
            static const char* yes[] = { "true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON", "y", "Y" };
            static const char* no[] = { "false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF", "n", "N" };
            for (auto x : nul)
                if (w == x) {
                    v = JV(JV::Null);
                    return true;
                }
            for (auto x : yes)
                if (w == x) {
                    v = JV(JV::True);
                    return true;
                }
            for (auto x : no)
                if (w == x) {
                    v = JV(JV::False);
                    return true;
                }
            return false;
        }
        bool inlineValue(const std::string& t, JV& v)
        {
            if (t == "{}") {
                v = JV(JV::Obj);
                return true;
            }
            if (t == "[]") {
                v = JV(JV::Arr);
                return true;
            }
            if (!t.empty() && t[0] == '"') {
                v = JV(JV::Str);
                size_t i = 0;
                if (!quoted(t, i, v.s))
                    return false;
                return i == t.size() || bad("text after a scalar");
            }
            if (word(t, v))
                return true;
            JsonParser p(t);
            JV n;
            if (p.parse(n) && n.t == JV::Num) {
                v = n;
                return true;
            }
            return bad("unsupported plain scalar " + t);
        }
        // splits "key: rest"
        bool key(const std::string& t, std::string& k, std::string& rest)
        {
            size_t i = 0;
            if (!t.empty() && t[0] == '"') {
                if (!quoted(t, i, k))
                    return false;
            } else {
                while (i < t.size() && t[i] != ':')
                    ++i;
                k = t.substr(0, i);
                JV v;
                if (word(k, v))
                    return bad("the key '" + k + "' is not a string");
                for (char c : k)
                    if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
                        return bad("unsupported plain key " + k);
            }
            if (i >= t.size() || t[i] != ':')
                return bad("':' expected");
            rest = t.substr(i + 1);
            if (!rest.empty()) {
                if (rest[0] != ' ')
                    return bad("blank expected after ':'");
                rest.erase(0, 1);
            }
            return true;
        }
        bool node(const std::string& rest, size_t indent, JV& v)
        {
            if (!rest.empty())
                return inlineValue(rest, v);
            if (at < l.size() && l[at].indent > indent)
                return block(v);
            v = JV(JV::Null);
            return true;
        }
        bool block(JV& v)
        {
            size_t ind = l[at].indent;
            if (l[at].text == "-" || l[at].text.compare(0, 2, "- ") == 0) {
                v = JV(JV::Arr);
                while (at < l.size() && l[at].indent == ind) {
                    std::string t = l[at].text;
                    if (t != "-" && t.compare(0, 2, "- "))
                        return bad("'-' expected");
                    ++at;
                    v.a.emplace_back();
                    if (!node(t.size() > 2 ? t.substr(2) : "", ind, v.a.back()))
                        return false;
                }
            } else {
                v = JV(JV::Obj);
                while (at < l.size() && l[at].indent == ind) {
                    std::string k, rest;
                    if (!key(l[at].text, k, rest))
                        return false;
                    ++at;
                    if (v.get(k))
                        duplicates.push_back(k);
                    v.o.emplace_back(k, JV());
                    if (!node(rest, ind, v.o.back().second))
                        return false;
                }
            }
            if (at < l.size() && l[at].indent > ind)
                return bad("unexpected indentation");
            return true;
        }

    public:
        std::string err;
        std::vector<std::string> duplicates;
        YamlParser(const std::string& s)
        {
            size_t b = 0;
            while (b < s.size()) {
                size_t e = s.find('\n', b);
                if (e == std::string::npos)
                    e = s.size();
                size_t n = b;
                while (n < e && s[n] == ' ')
                    ++n;
                l.push_back(Line{ n - b, s.substr(n, e - n) });
                b = e + 1;
            }
            while (!l.empty() && l.back().text.empty())
                l.pop_back();
        }
        bool parse(JV& v)
        {
            if (l.empty())
                return bad("empty document");
            if (l.size() == 1) {
                const std::string& t = l[0].text;
                bool blk = t == "-" || t.compare(0, 2, "- ") == 0;
                if (!blk && t[0] == '"') {
                    size_t i = 0;
                    std::string k;
                    if (!quoted(t, i, k))
                        return false;
                    blk = i < t.size();
                } else if (!blk)
                    blk = t.find(':') != std::string::npos;
                if (!blk)
                    return inlineValue(t, v);
            }
            if (!block(v))
                return false;
            return at == l.size() || bad("unexpected line");
        }
    };
}
