// Blueprint-shaped text without a model: vocabulary lines, raw bytes, and mutations of the repository's own fixtures.
#pragma once
#include "pbt.h"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <string>
#include <vector>

namespace soup
{
    inline void listDir(const std::string& d, std::vector<std::string>& out)
    {
        DIR* h = opendir(d.c_str());
        if (!h)
            return;
        std::vector<std::string> sub;
        while (struct dirent* e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..")
                continue;
            std::string p = d + "/" + n;
            if (n.size() > 5 && n.compare(n.size() - 5, 5, ".apib") == 0)
                out.push_back(p);
            else if (n.find('.') == std::string::npos)
                sub.push_back(p);
        }
        closedir(h);
        for (auto& s : sub)
            listDir(s, out);
    }
    struct Fixture {
        std::string name;
        std::vector<std::string> lines;
    };
    inline const std::vector<Fixture>& fixtures()
    {
        static std::vector<Fixture> all = [] {
            std::vector<std::string> names;
            const char* r = getenv("PBT_REPO");
            listDir(std::string(r ? r : "/repo") + "/packages/drafter/test/fixtures", names);
            std::sort(names.begin(), names.end());
            std::vector<Fixture> o;
            for (auto& n : names) {
                std::ifstream i(n, std::ios::binary);
                Fixture f;
                f.name = n;
                std::string l;
                size_t bytes = 0;
                while (std::getline(i, l)) {
                    bytes += l.size() + 1;
                    f.lines.push_back(l);
                }
                if (!f.lines.empty() && bytes < 6000)
                    o.push_back(f);
            }
            return o;
        }();
        return all;
    }

    inline std::string word(pbt::Case& c)
    {
        static const std::vector<std::string> w = { "a", "B", "id", "user", "User", "Person", "string", "number", "Boolean",
            "object", "array", "enum", "item", "x-y", "A Name", "\xC5\xBDlu\xC5\xA5", "\xF0\x9F\x98\x80", "Group", "Response",
            "Include", "Coupon", "my resource", "price", "0", "42", "true", "null", "-1.5", "*", "`q`", "``", "\"", "'", "%",
            "%41", "{x}", "[y]", "(z)", "<b>", "A:B", "", " ", "\\", "&amp;", "\xC2\xA0" };
        return c.pick(w);
    }
    inline std::string typeDef(pbt::Case& c)
    {
        static const std::vector<std::string> t = { "string", "number", "boolean", "object", "array", "enum", "A", "B", "Person",
            "array[string]", "array[A]", "enum[number]", "enum[string]", "array[A, B]", "*T*", "string, required", "optional",
            "number, required, sample", "default", "fixed", "fixed-type", "nullable", "object, fixed", "[A]", "array[", "A[B][]",
            "[A][]", "nothing, here", "object, required, nullable", "enum, default", "Number", "array[array[string]]" };
        return c.pick(t);
    }
    inline std::string uri(pbt::Case& c)
    {
        static const std::vector<std::string> u = { "/", "/a", "/a/{id}", "/b{?q,r}", "/c/{+p}", "/d{#f}", "/e{?x*}", "/f/{a,b}",
            "/{id", "/a}b", "/{}", "/{ id }", "/x{?a:3}", "http://h/{v}", "/%zz", "/\xC5\xBE", "a", "/{?a,,b}", "/a b", "/{a.b}",
            "/{&c}" };
        return c.pick(u);
    }
    inline std::string media(pbt::Case& c)
    {
        static const std::vector<std::string> m = { "application/json", "application/vnd.x+json", "text/plain",
            "application/json; charset=utf-8", "multipart/form-data; boundary=AaB03x", "text/plain;a=\"q;\\\"z\"", "json", "a/b/c",
            "", "application/schema+json", "application/xml", "text/html;", "x/y;p=\"unclosed", "x/y; a=b; c=d", "x/y;a=\"\\",
            "IMAGE/PNG", "application/x-www-form-urlencoded" };
        return c.pick(m);
    }
    inline std::string listContent(pbt::Case& c)
    {
        static const std::vector<std::string> fixedText = { "Response 200", "Response", "Request", "Body", "Schema", "Headers",
            "Attributes", "Parameters", "Parameter", "Values", "Model", "Relation: self", "Relation: Self", "Items", "Members",
            "Properties", "One Of", "Sample", "Default", "Sample: 1", "Default: a, b", "Include A", "Include", "Required",
            "Response 404", "Response 99999999999999999999", "Request Name", "My Resource Model", "Attributes: x",
            "Default: `z`", "Response abc", "Optional", "Header" };
        switch (c.weighted({ 6, 3, 3, 6, 4, 3, 2 })) {
            case 0: return c.pick(fixedText);
            case 1: return "Response " + std::to_string(c.pick(std::vector<int>{ 200, 201, 204, 301, 404, 500, 0, 1 })) + " (" + media(c) + ")";
            case 2: return "Request " + word(c) + " (" + media(c) + ")";
            case 3: {
                std::string s = word(c);
                if (c.chance(2, 3))
                    s += ": " + word(c);
                if (c.chance(2, 3))
                    s += " (" + typeDef(c) + ")";
                if (c.chance(1, 3))
                    s += " - " + word(c);
                return s;
            }
            case 4: {
                std::string s = word(c);
                s += c.pick(std::vector<std::string>{ ":", " =", " ...", ": `", " =`" }) + " " + word(c);
                if (c.boolean())
                    s += "`";
                s += " (" + typeDef(c) + ", `" + word(c) + "`) ... " + word(c);
                return s;
            }
            case 5: return "Attributes (" + typeDef(c) + ")";
            default: return word(c) + " " + word(c);
        }
    }
    inline std::string heading(pbt::Case& c)
    {
        static const std::vector<std::string> m = { "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "FOO", "get" };
        switch (c.weighted({ 3, 3, 3, 3, 2, 3, 2, 3 })) {
            case 0: return "Group " + word(c);
            case 1: return c.pick(m) + " " + uri(c);
            case 2: return word(c) + " [" + uri(c) + "]";
            case 3: return word(c) + " [" + c.pick(m) + "]";
            case 4: return word(c) + " [" + c.pick(m) + " " + uri(c) + "]";
            case 5: return "Data Structures";
            case 6: return c.pick(m);
            default: return word(c) + " (" + typeDef(c) + ")";
        }
    }
    inline std::string line(pbt::Case& c)
    {
        static const std::vector<unsigned> indents = { 0, 0, 0, 4, 4, 8, 8, 12, 16, 1, 2, 3, 5, 6, 7, 20 };
        std::string ind(c.pick(indents), ' ');
        switch (c.weighted({ 8, 5, 5, 3, 1, 1, 1, 2, 1, 1 })) {
            case 0: return ind + c.pick(std::vector<std::string>{ "+ ", "- ", "* ", "+", "1. ", "+   " }) + listContent(c);
            case 1: return std::string(c.range(1, 5), '#') + c.pick(std::vector<std::string>{ " ", "", "  " }) + heading(c) + c.pick(std::vector<std::string>{ "", "", " ##" });
            case 2: return "";
            case 3: return ind + word(c) + " " + word(c);
            case 4: return ind + c.pick(std::vector<std::string>{ "```", "```json", "~~~", "````" });
            case 5: return ind + c.pick(std::vector<std::string>{ "---", "***", "===", "- - -", "--" });
            case 6: return ind + c.pick(std::vector<std::string>{ "> ", ">", ">> " }) + listContent(c);
            case 7: return ind + c.pick(std::vector<std::string>{ "{ \"a\": 1 }", "HOST: http://x", "FORMAT: 1A", "A: b", "X-H: v", "Set-Cookie: a=b", ": v", "noColon", "A:b:c", "a b: c", "[User][]", "[Missing][]", "[][]" });
            case 8: return ind + c.pick(std::vector<std::string>{ "<p>", "</p>", "<div>x</div>", "<!-- c -->", "<hr/>", "<table>" });
            default: return ind + word(c) + ": " + word(c);
        }
    }
    inline std::string lines(pbt::Case& c, size_t max)
    {
        std::string s;
        size_t n = c.size(max);
        for (size_t i = 0; i < n; ++i) {
            s += line(c);
            if (i + 1 < n || c.chance(4, 5))
                s += "\n";
        }
        return s;
    }
    inline std::string join(const std::vector<std::string>& l)
    {
        std::string s;
        for (auto& x : l)
            s += x + "\n";
        return s;
    }
    inline std::string mutatedFixture(pbt::Case& c)
    {
        auto& fx = fixtures();
        if (fx.empty())
            return lines(c, 20);
        std::vector<std::string> l = fx[c.draw(fx.size() - 1)].lines;
        size_t n = c.size(8);
        for (size_t i = 0; i < n; ++i) {
            size_t at = l.empty() ? 0 : c.draw(l.size() - 1);
            switch (c.weighted({ 3, 3, 2, 3, 3, 2, 2, 1 })) {
                case 0:
                    if (!l.empty())
                        l.erase(l.begin() + at);
                    break;
                case 1: l.insert(l.begin() + at, line(c)); break;
                case 2:
                    if (!l.empty())
                        l.insert(l.begin() + at, l[c.draw(l.size() - 1)]);
                    break;
                case 3:
                    if (!l.empty())
                        l[at] = std::string(4 * c.range(1, 2), ' ') + l[at];
                    break;
                case 4:
                    if (!l.empty()) {
                        size_t k = 0;
                        while (k < l[at].size() && k < 4 && l[at][k] == ' ')
                            ++k;
                        l[at].erase(0, k);
                    }
                    break;
                case 5: {
                    auto& o = fx[c.draw(fx.size() - 1)].lines;
                    size_t b = c.draw(o.size() - 1), e = std::min(o.size(), b + 1 + c.size(10));
                    l.insert(l.begin() + at, o.begin() + b, o.begin() + e);
                    break;
                }
                case 6:
                    if (!l.empty() && !l[at].empty()) {
                        size_t k = c.draw(l[at].size() - 1);
                        static const std::string ch = "+-*#[](){}<>:`,. \"'=/\\%0aA\x80\xE2\xC3";
                        if (c.boolean())
                            l[at][k] = ch[c.draw(ch.size() - 1)];
                        else
                            l[at].insert(k, 1, ch[c.draw(ch.size() - 1)]);
                    }
                    break;
                default:
                    if (!l.empty())
                        l.resize(at + 1);
                    break;
            }
        }
        std::string s = join(l);
        if (c.chance(1, 8) && !s.empty())
            s.pop_back();
        return s;
    }
    inline std::string rawBytes(pbt::Case& c)
    {
        std::string s;
        size_t n = c.size(200);
        for (size_t i = 0; i < n; ++i)
            switch (c.weighted({ 3, 3, 1 })) {
                case 0: s += (char)c.range(1, 255); break;
                case 1: s += c.pick(std::vector<char>{ '\n', '#', '+', ' ', '-', ':', '(', ')', '[', ']', '`', '>', '<', '{', '}', '*', '=', 'a', '0', '/' }); break;
                default: s += word(c); break;
            }
        return s;
    }
    // any text a caller could pass: no NUL
    inline std::string any(pbt::Case& c, size_t maxLines = 40)
    {
        std::string s;
        switch (c.weighted({ 5, 5, 1 })) {
            case 0: s = lines(c, maxLines); c.label("soup"); break;
            case 1: s = mutatedFixture(c); c.label("mutated-fixture"); break;
            default: s = rawBytes(c); c.label("raw-bytes"); break;
        }
        s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
        return s;
    }
}
