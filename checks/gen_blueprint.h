// Blueprints of the documented structure: a model, its text in one of many layouts, and the parse result it stands for.
#pragma once
#include "gen_text.h"
#include "model_json.h"
#include "pbt.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace gb
{
    using mj::JV;

    // ------------------------------------------------------------------------------------------ elements
    inline JV obj(std::vector<std::pair<std::string, JV> > m)
    {
        JV v(JV::Obj);
        v.o = std::move(m);
        return v;
    }
    inline JV arr(std::vector<JV> a = {})
    {
        JV v(JV::Arr);
        v.a = std::move(a);
        return v;
    }
    struct El {
        std::string name;
        std::vector<std::pair<std::string, JV> > meta, attrs;
        JV content;
        bool hasContent = false;
        El(const std::string& n) : name(n) {}
        El& c(JV v)
        {
            content = std::move(v);
            hasContent = true;
            return *this;
        }
        El& m(const std::string& k, JV v)
        {
            meta.emplace_back(k, std::move(v));
            return *this;
        }
        El& a(const std::string& k, JV v)
        {
            attrs.emplace_back(k, std::move(v));
            return *this;
        }
        JV v() const
        {
            JV o(JV::Obj);
            o.o.emplace_back("element", JV::str(name));
            if (!meta.empty())
                o.o.emplace_back("meta", obj(meta));
            if (!attrs.empty())
                o.o.emplace_back("attributes", obj(attrs));
            if (hasContent)
                o.o.emplace_back("content", content);
            return o;
        }
    };
    inline JV str(const std::string& s) { return El("string").c(JV::str(s)).v(); }
    inline JV strs(const std::vector<std::string>& s)
    {
        std::vector<JV> a;
        for (auto& x : s)
            a.push_back(str(x));
        return El("array").c(arr(a)).v();
    }
    inline JV copy(const std::string& s) { return El("copy").c(JV::str(s)).v(); }
    // keys in one order
    inline void sortKeys(JV& v)
    {
        for (auto& x : v.a)
            sortKeys(x);
        for (auto& p : v.o)
            sortKeys(p.second);
        std::stable_sort(v.o.begin(), v.o.end(), [](const std::pair<std::string, JV>& a, const std::pair<std::string, JV>& b) { return a.first < b.first; });
    }
    inline std::string difference(const JV& a, const JV& b, const std::string& path = "")
    {
        if (a == b)
            return "";
        if (a.t == b.t && a.t == JV::Arr) {
            for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i)
                if (a.a[i] != b.a[i])
                    return difference(a.a[i], b.a[i], path + "/" + std::to_string(i));
            return "at " + path + ": got " + std::to_string(a.a.size()) + " entries, expected " + std::to_string(b.a.size()) + "; the first without a counterpart is "
                + mj::packed(a.a.size() > b.a.size() ? a.a[b.a.size()] : b.a[a.a.size()]).substr(0, 400);
        }
        if (a.t == b.t && a.t == JV::Obj)
            for (size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) {
                if (a.o[i].first != b.o[i].first)
                    return "at " + path + ": got " + a.o[i].first + " " + mj::packed(a.o[i].second).substr(0, 300) + ", expected " + b.o[i].first + " " + mj::packed(b.o[i].second).substr(0, 300);
                if (a.o[i].second != b.o[i].second)
                    return difference(a.o[i].second, b.o[i].second, path + "/" + a.o[i].first);
            }
        return "at " + path + ": got " + mj::packed(a).substr(0, 400) + " expected " + mj::packed(b).substr(0, 400);
    }

    // --------------------------------------------------------------------------------------------- model
    struct Param {
        std::string name, value, type, desc, deflt;
        std::string block; // description below the parameter
        int use = 0; // 0 not said, 1 required, 2 optional
        std::vector<std::string> values;
        bool old = false;
        // mistakes (see P04)
        int mark = 0, itemMark = 0;
        bool spoiled = false;
        std::string badTrait;
        std::vector<std::string> rawItems; // under the parameter
    };
    struct Payload {
        bool request = false;
        std::string name; // request name or status
        std::string media;
        std::string desc;
        std::vector<std::pair<std::string, std::string> > headers;
        std::vector<Param> params;
        std::vector<std::string> body, schema;
        std::string ref; // of a model
        bool sections = false;
        // mistakes
        int mark = 0, lineMark = 0;
        bool spoiled = false;
        std::string rawName;                               // in place of what follows the keyword
        bool raw = false;
        std::vector<std::string> rawHeaders, rawLines; // in the headers section; after the payload's content
        std::vector<std::pair<std::string, std::string> > keptHeaders; // which are in the result all the same
        std::vector<std::string> keptBody;
    };
    struct Example {
        std::vector<Payload> requests, responses;
    };
    struct Action {
        std::string name, method, uri, desc, relation;
        std::vector<Param> params;
        std::vector<Example> examples;
        std::vector<std::pair<std::string, std::string> > headers; // deprecated: of the payloads
        int mark = 0, lineMark = 0;
        bool spoiled = false;
        std::vector<std::string> rawLines; // before the payloads
    };
    struct Resource {
        int form = 0; // 0 named, 1 bare uri, 2 named endpoint, 3 method and uri
        std::string name, uri, desc;
        std::vector<Param> params;
        std::vector<Action> actions;
        bool model = false;
        Payload modelPayload; // named as the resource unless it has a name
        const std::string& modelName() const { return modelPayload.name.empty() ? name : modelPayload.name; }
        std::vector<std::pair<std::string, std::string> > headers; // deprecated: of the payloads of its actions
        int mark = 0, lineMark = 0;
        bool spoiled = false;
        std::vector<std::string> rawLines; // before the actions
    };
    struct Group {
        std::string name;
        std::vector<std::string> desc;
        std::vector<Resource> resources;
        int mark = 0;
        bool spoiled = false;
    };
    struct Blueprint {
        std::vector<std::pair<std::string, std::string> > meta;
        std::string name;
        std::vector<std::string> desc;
        std::vector<Resource> resources;
        std::vector<Group> groups;
        std::vector<std::string> rawMeta;
    };

    // ----------------------------------------------------------------------------------------- generation
    class Gen
    {
        pbt::Case& c;
        int serial = 0;

    public:
        bool small;
        explicit Gen(pbt::Case& c_) : c(c_), small(!c_.chance(1, 3)) {}

        std::string fresh() { return std::to_string(++serial); }
        std::string word()
        {
            static const std::vector<std::string> w = { "alpha", "Beta", "gamma2", "\xC5\xBDlu\xC5\xA5", "x", "Order", "of", "the", "\xE6\x97\xA5\xE6\x9C\xAC", "it's", "50%",
                "A.B", "snake_case", "semi;colon", "q?", "\xF0\x9F\x98\x80", "wow!", "a/b", "\"said\"", "C&A", "e=mc2", "re-do", "\xC3\xA9t\xC3\xA9", "me@x.y" };
            return c.chance(1, 4) ? odd() : c.pick(w);
        }
        // begins with a letter, any harmless character after that
        std::string odd()
        {
            static const std::string safe = "abcxyzABCXYZ0189.,;!?'\"%&=@/-~^$|";
            std::string s(1, safe[c.draw(11)]);
            for (size_t n = c.size(5); n; --n)
                if (c.chance(1, 3))
                    mj::putUtf8(s, gt::character(c));
                else
                    s += safe[c.draw(safe.size() - 1)];
            return s;
        }
        std::string words(size_t max)
        {
            size_t n = 1 + c.size(max - 1);
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s += (i ? " " : "") + word();
            return s;
        }
        // begins with a letter, unique
        std::string name() { return c.pick(std::vector<std::string>{ "Alpha", "Item", "\xC5\xBD" "aba", "Order of", "My", "Z" }) + " " + (c.chance(1, 3) ? words(2) + " " : "") + fresh(); }
        std::string paragraph()
        {
            size_t n = 1 + c.size(2);
            std::string s;
            for (size_t i = 0; i < n; ++i) {
                static const std::vector<std::string> first = { "Text", "Some", "This", "\xC5\xBD" "e", "Note", "A" };
                s += (i ? "\n" : "") + c.pick(first);
                if (c.chance(2, 3))
                    s += " " + words(5);
                static const std::vector<std::string> inl = { " *em*", " **strong**", " `code`", " [link](http://h/p)", " (par)", " {x}", " [x]", " 1 < 2", " + plus", " - dash", " # hash", ": colon" };
                if (c.chance(1, 4))
                    s += c.pick(inl) + " end";
            }
            return s;
        }
        // paragraphs with a blank line between
        std::string text()
        {
            std::string s = paragraph();
            size_t n = c.size(2);
            for (size_t i = 0; i < n; ++i)
                s += "\n\n" + paragraph();
            return s;
        }
        std::string maybeText() { return c.chance(1, 2) ? text() : ""; }
        // paragraphs and blocks of other kinds with a paragraph after each
        std::vector<std::string> blocks(size_t n)
        {
            std::vector<std::string> o;
            for (size_t i = 0; i < n; ++i) {
                if (c.chance(1, 5))
                    o.push_back(block());
                o.push_back(paragraph());
            }
            return o;
        }
        std::string block()
        {
            switch (c.draw(8)) {
                case 0: return "- one " + words(2) + "\n\n- two *x*";
                case 1: return "+ item " + words(2) + "\n    - sub\n\n    in the item";
                case 2: return "1. one\n\n2. two " + words(1);
                case 3: {
                    std::string f = c.boolean() ? "```" : "~~~";
                    return f + (c.boolean() ? "js" : "") + "\ncode # x\n  + " + words(2) + "\n" + f;
                }
                case 4: return "> quote " + words(2) + "\n> - second";
                case 5: return "| a | b |\n|---|---|\n| 1 | " + words(1) + " |";
                case 6: return c.pick(std::vector<std::string>{ "* * *", "<div>\n" + words(2) + "\n</div>", "<p>&amp;</p>" });
                case 7: return "##### Note " + words(2);
                default: return "    code " + words(2) + "\n        + more";
            }
        }
        std::string maybeBlocks()
        {
            std::string s;
            if (c.chance(1, 2))
                for (auto& x : blocks(1 + c.size(2)))
                    s += (s.empty() ? "" : "\n\n") + x;
            return s;
        }
        std::string method(std::set<std::string>& used)
        {
            static const std::vector<std::string> m = { "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" };
            static const std::vector<std::string> rare = { "PROPPATCH", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "LINK", "UNLINK" };
            for (int i = 0; i < 20; ++i) {
                std::string x = c.pick(c.chance(1, 8) ? rare : m);
                if (used.insert(x).second)
                    return x;
            }
            for (auto& x : m)
                if (used.insert(x).second)
                    return x;
            return "";
        }
        std::string media()
        {
            static const std::vector<std::string> m = { "text/plain", "application/xml", "text/html; charset=utf-8", "application/json", "application/vnd.a.b+json", "image/png", "application/hal+xml", "Text/CSV; header=\"a;b\"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=---BOUNDARY", "APPLICATION/vnd.x+XML" };
            return c.pick(m);
        }
        std::vector<std::string> bodyText()
        {
            static const std::vector<std::string> l = { "{ \"a\": [1, 2] }", "plain text", "<a href=\"x\">&amp;</a>", "  indented", "# not a heading", "key: value", "\xC5\xBDlu\xC5\xA5 \xF0\x9F\x98\x80", "a,b;c", "\\ back\\slash",
                "100 %", "*not em*", "_x_", "> not a quote", "(paren) [bracket]", "`tick`", "1. not a list", "x", "]", "}", "<!-- c -->", "a  b", "http://x/y?z=1&w=2", "    deeper" };
            std::vector<std::string> o;
            size_t n = 1 + c.size(4);
            for (size_t i = 0; i < n; ++i) {
                if (i && c.chance(1, 6))
                    o.push_back("");
                std::string x = c.chance(1, 4) ? headerValue() : c.pick(l);
                if (!i && x[0] == ' ')
                    x = "first";
                o.push_back(x);
            }
            return o;
        }
        Param param(const std::string& n)
        {
            Param p;
            p.name = n;
            static const std::vector<std::string> val = { "v", "42", "two words", "\xC5\xBE", "a-b", "1.5", "true", "x,y", "(z)", "a:b", "-1" };
            static const std::vector<std::string> type = { "string", "number", "boolean", "Custom", "integer" };
            if (c.chance(1, 2))
                p.value = c.pick(val);
            p.use = c.draw(2);
            if (c.chance(1, 2))
                p.type = c.pick(type);
            if (c.chance(1, 2))
                p.desc = "Param " + words(3);
            if (p.use == 2 && c.chance(1, 2))
                p.deflt = c.pick(val);
            if (c.chance(1, 4)) {
                size_t k = 1 + c.size(2);
                for (size_t i = 0; i < k; ++i)
                    if (std::find(p.values.begin(), p.values.end(), val[i]) == p.values.end())
                        p.values.push_back(val[i]);
                // example and default are among the values
                if (!p.value.empty() && std::find(p.values.begin(), p.values.end(), p.value) == p.values.end())
                    p.values.push_back(p.value);
                if (!p.deflt.empty() && std::find(p.values.begin(), p.values.end(), p.deflt) == p.values.end())
                    p.values.push_back(p.deflt);
            }
            p.old = c.chance(1, 5);
            if (c.chance(1, 8)) {
                p.block = text();
                static const std::vector<std::string> b = { "    code", "```\ncode # x\n  y\n```", "> quote", "| a | b |\n|---|---|\n| 1 | 2 |" };
                if (c.boolean())
                    p.block += "\n\n" + c.pick(b) + "\n\nAnd so on";
            }
            return p;
        }
        // a URI template and the parameters it mentions
        std::string uri(std::vector<std::string>& names)
        {
            std::string u = "/" + c.pick(std::vector<std::string>{ "items", "a-b", "v1.0", "x_y", "\xC5\xBEl" }) + fresh();
            if (c.chance(1, 2)) {
                std::string p = "id" + fresh();
                names.push_back(p);
                u += "/{" + c.pick(std::vector<std::string>{ "", "", "+", "#" }) + p + "}";
                if (c.chance(1, 2))
                    u += "/sub";
            }
            if (c.chance(1, 3)) {
                size_t n = 1 + c.size(2);
                u += "{?";
                for (size_t i = 0; i < n; ++i) {
                    std::string p = c.pick(std::vector<std::string>{ "q", "page", "a_b", "A" }) + fresh();
                    names.push_back(p);
                    u += (i ? "," : "") + p;
                    if (c.chance(1, 6))
                        u += "*";
                }
                u += "}";
            }
            return u;
        }
        std::vector<Param> params(const std::vector<std::string>& names)
        {
            std::vector<Param> o;
            for (auto& n : names)
                if (c.chance(2, 3))
                    o.push_back(param(n));
            return o;
        }
        std::vector<std::pair<std::string, std::string> > headers()
        {
            std::vector<std::pair<std::string, std::string> > o;
            size_t n = 1 + c.size(2);
            static const std::vector<std::string> k = { "X-A", "Accept", "ETag", "x-lower", "Cache-Control", "Location" };
            static const std::vector<std::string> v = { "1", "a b", "max-age=3600, public", "http://h:80/p", "\"etag\"", "\xC5\xBE", "x: y", "text/plain; q=0.5", "*/*" };
            size_t first = c.draw(k.size() - 1);
            for (size_t i = 0; i < n; ++i)
                o.emplace_back(c.chance(1, 3) ? headerName() : k[(first + i) % k.size()], c.chance(1, 3) ? headerValue() : c.pick(v));
            if (c.chance(1, 10)) // may be repeated
                for (int i = 0; i < 2; ++i)
                    o.emplace_back(c.pick(std::vector<std::string>{ "Set-Cookie", "set-cookie" }), headerValue());
            return o;
        }
        std::string headerName()
        {
            static const std::string token = "abcxyzABCXYZ0189-#$%&'*+.^_`|~";
            std::string s = "H" + fresh();
            for (size_t n = c.size(5); n; --n)
                s += token[c.draw(token.size() - 1)];
            return s;
        }
        // no blank at either end
        std::string headerValue()
        {
            std::string s;
            for (size_t n = 1 + c.size(7); n; --n)
                if (c.chance(1, 8))
                    mj::putUtf8(s, gt::character(c));
                else
                    s += (char)c.range(s.empty() || n == 1 ? 0x21 : 0x20, 0x7E);
            return s;
        }
        Payload payload(bool request, const std::string& name_)
        {
            Payload p;
            p.request = request;
            p.name = name_;
            if (c.chance(2, 3))
                p.media = media();
            bool noBody = !request && name_ == "204";
            p.sections = c.chance(1, 2);
            if (p.sections) {
                p.desc = c.chance(1, 3) ? text() : "";
                if (c.chance(1, 2))
                    p.headers = headers();
                if (!noBody && c.chance(2, 3))
                    p.body = bodyText();
                if (!noBody && c.chance(1, 3))
                    p.schema = bodyText();
                if (p.headers.empty() && p.schema.empty() && p.body.empty()) {
                    p.headers = headers();
                }
            } else if (!noBody && c.chance(2, 3))
                p.body = bodyText();
            // a request without anything is warned about
            if (request && p.body.empty() && p.media.empty() && p.headers.empty())
                p.media = "text/plain";
            return p;
        }
        std::string status(std::set<std::string>& used)
        {
            static const std::vector<std::string> s = { "200", "201", "204", "301", "400", "404", "418", "500", "503" };
            size_t at = c.draw(s.size() - 1);
            while (!used.insert(s[at]).second)
                at = (at + 1) % s.size();
            return s[at];
        }
        std::vector<Example> examples(const std::vector<std::string>& reqParams)
        {
            std::vector<Example> o;
            size_t n = 1 + c.size(small ? 1 : 2);
            for (size_t i = 0; i < n; ++i) {
                Example e;
                // every example but the first begins with its request
                size_t rq = i ? 1 + c.size(1) : c.size(2);
                for (size_t k = 0; k < rq; ++k) {
                    e.requests.push_back(payload(true, c.chance(1, 2) || k ? name() : ""));
                    if (e.requests.back().sections && !reqParams.empty() && c.chance(1, 5))
                        e.requests.back().params = params(reqParams);
                }
                std::set<std::string> used;
                size_t rs = 1 + c.size(2);
                for (size_t k = 0; k < rs; ++k)
                    e.responses.push_back(payload(false, status(used)));
                o.push_back(e);
            }
            return o;
        }
        Action action(std::set<std::string>& methods, const std::vector<std::string>& uriParams)
        {
            Action a;
            a.method = method(methods);
            if (c.chance(2, 3))
                a.name = name();
            std::vector<std::string> own;
            if (!a.name.empty() && c.chance(1, 5))
                a.uri = uri(own);
            a.desc = maybeBlocks();
            if (c.chance(1, 5))
                a.relation = c.pick(std::vector<std::string>{ "self", "next-page", "a.b" }) + fresh();
            a.params = params(a.uri.empty() ? uriParams : own);
            if (c.chance(1, 2))
                a.params.clear();
            a.examples = examples(a.uri.empty() ? uriParams : own);
            return a;
        }
        // a named endpoint after a resource is an action of that resource
        Resource resource(const std::vector<Resource>& before)
        {
            Resource r;
            r.form = c.weighted({ 5, 2, 2, 2 });
            if (r.form == 2 && !before.empty() && before.back().form < 2)
                r.form = 3;
            std::vector<std::string> names;
            r.uri = uri(names);
            if (r.form == 0 || r.form == 2)
                r.name = name();
            std::set<std::string> methods;
            if (r.form >= 2) {
                Action a = action(methods, names);
                a.name = r.form == 2 ? r.name : "";
                a.uri = r.form == 2 ? r.uri : "";
                a.params = params(names);
                r.actions.push_back(a);
                return r;
            }
            r.desc = maybeBlocks();
            if (c.chance(1, 2))
                r.params = params(names);
            size_t n = c.size(small ? 2 : 3);
            if (c.chance(1, 4)) {
                r.model = true;
                r.modelPayload = payload(true, r.form == 1 || c.chance(1, 4) ? name() : "");
                r.modelPayload.params.clear();
                if (r.modelPayload.body.empty())
                    r.modelPayload.body = bodyText();
            }
            for (size_t i = 0; i < n; ++i)
                r.actions.push_back(action(methods, names));
            return r;
        }
        Blueprint blueprint()
        {
            Blueprint b;
            if (c.chance(1, 2)) {
                b.meta.emplace_back("FORMAT", "1A");
                if (c.chance(1, 2))
                    b.meta.emplace_back("HOST", "http://api.example.com:8080/v1");
                if (c.chance(1, 3))
                    b.meta.emplace_back("X-" + word(), words(3));
            }
            b.name = name();
            size_t n = c.size(2);
            b.desc = blocks(n);
            n = c.size(small ? 2 : 3);
            for (size_t i = 0; i < n; ++i)
                b.resources.push_back(resource(b.resources));
            n = c.size(small ? 1 : 3);
            for (size_t i = 0; i < n; ++i) {
                Group g;
                g.name = name();
                size_t k = c.size(2);
                g.desc = blocks(k);
                k = c.size(small ? 2 : 3);
                for (size_t j = 0; j < k; ++j)
                    g.resources.push_back(resource(g.resources));
                b.groups.push_back(g);
            }
            linkModels(b);
            return b;
        }
        // some responses refer to a model, before or after its definition
        void linkModels(Blueprint& b)
        {
            std::vector<std::string> models;
            auto each = [&](auto&& f) {
                for (auto& r : b.resources)
                    f(r);
                for (auto& g : b.groups)
                    for (auto& r : g.resources)
                        f(r);
            };
            each([&](Resource& r) {
                if (r.model)
                    models.push_back(r.modelName());
            });
            if (models.empty())
                return;
            std::set<std::string> typed; // models with a media type, which is not overridden
            each([&](Resource& r) {
                if (r.model && !r.modelPayload.media.empty())
                    typed.insert(r.modelName());
                for (auto& h : r.modelPayload.headers)
                    if (h.first.size() == 12)
                        typed.insert(r.modelName());
            });
            auto link = [&](Payload& p, const std::string& name) {
                std::string m = p.media;
                p = Payload();
                p.name = name;
                p.ref = c.pick(models);
                if (!typed.count(p.ref) && c.boolean())
                    p.media = m;
            };
            each([&](Resource& r) {
                for (auto& a : r.actions)
                    for (auto& e : a.examples) {
                        for (auto& p : e.responses)
                            if (p.name != "204" && c.chance(1, 3))
                                link(p, "200");
                        for (auto& p : e.requests)
                            if (c.chance(1, 6)) {
                                link(p, p.name);
                                p.request = true;
                            }
                    }
            });
            // statuses within an example stay distinct
            each([&](Resource& r) {
                for (auto& a : r.actions)
                    for (auto& e : a.examples) {
                        int next = 210;
                        for (auto& p : e.responses)
                            if (!p.ref.empty())
                                p.name = std::to_string(next++);
                    }
            });
        }
    };

    // -------------------------------------------------------------------------------------------- layout
    class Writer
    {
        pbt::Case& c;
        std::string o;
        std::string bullet;
        int base;
        bool variety;
        void mark(int m)
        {
            if (m)
                lines[m] = 1 + int(std::count(o.begin(), o.end(), '\n'));
        }

        void line(const std::string& s) { o += s + "\n"; }
        void blank() { o += "\n"; }
        void gap()
        {
            blank();
            while (c.chance(1, 8))
                blank();
        }
        void heading(int level, const std::string& s)
        {
            bool apart = o.size() < 2 || o.compare(o.size() - 2, 2, "\n\n") == 0;
            if (variety && base + level <= 2 && apart && c.chance(1, 3)) { // underlined
                line(s);
                line(std::string(1 + c.size(4), base + level == 1 ? '=' : '-'));
                if (c.chance(3, 4))
                    gap();
                return;
            }
            std::string h = std::string(base + level, '#') + " " + s;
            if (c.chance(1, 10))
                h += " " + std::string(base + level, '#');
            line(h);
            if (c.chance(3, 4))
                gap();
        }
        void indented(const std::string& text, const std::string& ind)
        {
            size_t b = 0;
            while (b <= text.size()) {
                size_t e = text.find('\n', b);
                if (e == std::string::npos)
                    e = text.size();
                std::string l = text.substr(b, e - b);
                line(l.empty() ? "" : ind + l);
                b = e + 1;
            }
        }
        void item(const std::string& ind, const std::string& s) { line(ind + bullet + " " + s); }
        void code(const std::vector<std::string>& body, const std::string& ind, bool fence)
        {
            blank();
            if (fence) {
                std::string f = c.boolean() ? "```" : "~~~";
                line(ind + f + c.pick(std::vector<std::string>{ "", "json", "" }));
                for (auto& l : body)
                    line(l.empty() ? "" : ind + l);
                line(ind + f);
            } else
                for (auto& l : body)
                    line(l.empty() ? "" : ind + "    " + l);
            blank();
        }
        std::string kw(std::string w) // of either case, singular or plural where that is free
        {
            if (!variety)
                return w;
            if (w == "Headers" && c.boolean())
                w = "Header";
            if (c.boolean())
                w[0] = (char)tolower(w[0]);
            return w;
        }
        static std::string use(int u) { return u == 1 ? "required" : "optional"; }
        std::string quoteValue(const std::string& v)
        {
            bool plain = v.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789. ") == std::string::npos;
            return plain && c.boolean() ? v : "`" + v + "`";
        }
        void params(const std::vector<Param>& ps, const std::string& ind)
        {
            if (ps.empty())
                return;
            item(ind, kw(c.chance(1, 4) ? "Parameter" : "Parameters"));
            std::string in = ind + "    ";
            if (c.chance(1, 3))
                blank();
            for (auto& p : ps) {
                std::string s = p.name;
                std::vector<std::string> traits;
                if (p.use)
                    traits.push_back(use(p.use));
                bool old = p.old && !(p.deflt.empty() && p.value.empty());
                if (!p.type.empty())
                    traits.push_back(old || p.values.empty() ? p.type : "enum[" + p.type + "]");
                if (!p.badTrait.empty())
                    traits.push_back(p.badTrait);
                if (traits.size() > 1 && c.boolean())
                    std::swap(traits[0], traits[1]);
                if (old) {
                    if (!p.deflt.empty())
                        s += " = `" + p.deflt + "`";
                    if (!p.value.empty())
                        traits.push_back("`" + p.value + "`");
                } else if (!p.value.empty())
                    s += ": " + quoteValue(p.value);
                if (!traits.empty()) {
                    s += " (";
                    for (size_t i = 0; i < traits.size(); ++i)
                        s += (i ? ", " : "") + traits[i];
                    s += ")";
                }
                if (!p.desc.empty())
                    s += (old ? " ... " : " - ") + p.desc;
                mark(p.mark);
                item(in, s);
                std::string in2 = in + "    ";
                if (!p.block.empty()) {
                    blank();
                    indented(p.block, in2);
                    blank();
                }
                auto values = [&] {
                    if (p.values.empty())
                        return;
                    item(in2, kw(old ? "Values" : "Members"));
                    for (auto& v : p.values)
                        item(in2 + "    ", "`" + v + "`");
                };
                auto deflt = [&] {
                    if (!old && !p.deflt.empty())
                        item(in2, kw("Default: ") + quoteValue(p.deflt));
                };
                if (c.boolean()) {
                    values();
                    deflt();
                } else {
                    deflt();
                    values();
                }
                for (size_t i = 0; i < p.rawItems.size(); ++i) {
                    if (i + 1 == p.rawItems.size())
                        mark(p.itemMark);
                    line(in2 + p.rawItems[i]);
                }
            }
            gap();
        }
        void deprecated(const std::vector<std::pair<std::string, std::string> >& headers, int m)
        {
            if (headers.empty())
                return;
            mark(m);
            item("", kw("Headers"));
            blank();
            for (auto& h : headers)
                line("        " + h.first + ": " + h.second);
            gap();
        }
        void payload(const Payload& p, const std::string& what)
        {
            std::string s = what;
            if (!p.name.empty())
                s = what == "Model" || what == "model" ? p.name + " " + what : what + " " + p.name;
            if (!p.media.empty())
                s += " (" + p.media + ")";
            mark(p.mark);
            item("", p.raw ? what + p.rawName : s);
            if (!p.ref.empty()) {
                blank();
                line("    [" + p.ref + "][]");
                blank();
                raw(p);
                return;
            }
            if (!p.sections) {
                if (!p.body.empty())
                    code(p.body, "    ", false);
                blank();
                raw(p);
                return;
            }
            if (!p.desc.empty()) {
                blank();
                indented(p.desc, "    ");
            }
            blank();
            std::vector<int> order = { 0, 1, 2, 3 };
            for (size_t i = 3; i > 0; --i)
                std::swap(order[i], order[i - c.draw(i)]);
            for (int k : order)
                switch (k) {
                    case 0:
                        if (!p.headers.empty() || !p.rawHeaders.empty()) {
                            item("    ", kw("Headers"));
                            blank();
                            for (auto& h : p.headers)
                                line("            " + h.first + c.pick(std::vector<std::string>{ ": ", ":", " : " }) + h.second);
                            if (!p.rawHeaders.empty())
                                mark(p.lineMark);
                            for (auto& h : p.rawHeaders)
                                line("            " + h);
                            blank();
                        }
                        break;
                    case 1:
                        if (!p.body.empty()) {
                            item("    ", kw("Body"));
                            code(p.body, "        ", false);
                        }
                        break;
                    case 2:
                        if (!p.schema.empty()) {
                            item("    ", kw("Schema"));
                            code(p.schema, "        ", false);
                        }
                        break;
                    default: params(p.params, "    ");
                }
            blank();
            raw(p);
        }
        void raw(const std::vector<std::string>& ls, int m)
        {
            if (ls.empty())
                return;
            mark(m);
            for (auto& l : ls)
                line(l);
            blank();
        }
        void raw(const Payload& p)
        {
            if (p.rawHeaders.empty())
                raw(p.rawLines, p.lineMark);
        }
        void action(const Action& a, bool withHeading)
        {
            if (withHeading) {
                std::string t = a.method + (a.uri.empty() ? "" : " " + a.uri);
                mark(a.mark);
                heading(3, a.name.empty() ? a.method : a.name + " [" + t + "]");
            }
            if (!a.desc.empty()) {
                line(a.desc);
                blank();
            }
            if (!a.relation.empty()) {
                item("", kw("Relation: ") + a.relation);
                gap();
            }
            bool late = c.boolean();
            if (!late)
                deprecated(a.headers, a.lineMark);
            params(a.params, "");
            if (late)
                deprecated(a.headers, a.lineMark);
            raw(a.rawLines, a.lineMark);
            for (auto& e : a.examples) {
                for (auto& p : e.requests)
                    payload(p, kw("Request"));
                for (auto& p : e.responses)
                    payload(p, kw("Response"));
            }
        }
        void resource(const Resource& r)
        {
            mark(r.mark);
            if (r.form >= 2)
                mark(r.actions[0].mark);
            switch (r.form) {
                case 0: heading(2, r.name + " [" + r.uri + "]"); break;
                case 1: heading(2, r.uri); break;
                case 2: heading(2, r.name + " [" + r.actions[0].method + " " + r.uri + "]"); break;
                default: heading(2, r.actions[0].method + " " + r.uri); break;
            }
            if (r.form >= 2) {
                action(r.actions[0], false);
                return;
            }
            if (!r.desc.empty()) {
                line(r.desc);
                blank();
            }
            bool late = c.boolean();
            if (!late)
                deprecated(r.headers, r.lineMark);
            params(r.params, "");
            if (late)
                deprecated(r.headers, r.lineMark);
            if (r.model)
                payload(r.modelPayload, kw("Model"));
            raw(r.rawLines, r.lineMark);
            for (auto& a : r.actions)
                action(a, true);
        }

    public:
        std::map<int, int> lines; // of marked places
        explicit Writer(pbt::Case& c_) : c(c_), bullet(c_.pick(std::vector<std::string>{ "+", "-", "*" })), base(c_.chance(1, 4) ? 1 : 0), variety(c_.chance(1, 4)) {}
        std::string write(const Blueprint& b)
        {
            for (auto& m : b.meta)
                line(m.first + ": " + m.second);
            for (auto& m : b.rawMeta)
                line(m);
            if (!b.meta.empty() || !b.rawMeta.empty())
                gap();
            bool second = base && c.boolean();
            if (variety && c.chance(1, 3))
                o += b.name + "\n" + (second ? "--" : "=") + "\n";
            else
                o += std::string(1 + second, '#') + " " + b.name + "\n";
            gap();
            for (auto& d : b.desc) {
                line(d);
                gap();
            }
            for (auto& r : b.resources)
                resource(r);
            for (auto& g : b.groups) {
                mark(g.mark);
                heading(1, kw("Group ") + g.name);
                for (auto& d : g.desc) {
                    line(d);
                    gap();
                }
                for (auto& r : g.resources)
                    resource(r);
            }
            if (c.chance(1, 6))
                while (!o.empty() && o.back() == '\n')
                    o.pop_back();
            return o;
        }
    };

    // ------------------------------------------------------------------------------------------ expected
    class Expect
    {
        const Blueprint& b;
        static std::string joined(const std::vector<std::string>& l)
        {
            std::string s;
            for (auto& x : l)
                s += x + "\n";
            return s;
        }
        const Payload* model(const std::string& n) const
        {
            for (auto& r : b.resources)
                if (r.model && r.modelName() == n)
                    return &r.modelPayload;
            for (auto& g : b.groups)
                for (auto& r : g.resources)
                    if (r.model && r.modelName() == n)
                        return &r.modelPayload;
            return nullptr;
        }
        static JV params(const std::vector<Param>& ps)
        {
            std::vector<JV> a;
            for (auto& p : ps) {
                El m("member");
                if (!p.desc.empty() || !p.block.empty())
                    m.m("description", str(p.desc + (p.desc.empty() || p.block.empty() ? "" : "\n\n") + p.block));
                if (!p.type.empty())
                    m.m("title", str(p.type));
                m.a("typeAttributes", strs({ p.use == 2 ? "optional" : "required" }));
                JV value;
                if (p.values.empty()) {
                    El v("string");
                    if (!p.deflt.empty())
                        v.a("default", str(p.deflt));
                    if (!p.value.empty())
                        v.c(JV::str(p.value));
                    value = v.v();
                } else {
                    El v("enum");
                    if (!p.deflt.empty())
                        v.a("default", El("enum").c(str(p.deflt)).v());
                    v.a("enumerations", strs(p.values));
                    if (!p.value.empty())
                        v.c(str(p.value));
                    value = v.v();
                }
                m.c(obj({ { "key", str(p.name) }, { "value", value } }));
                a.push_back(m.v());
            }
            return El("hrefVariables").c(arr(a)).v();
        }
        JV payload(const Payload* given, const Action* a, const std::vector<std::pair<std::string, std::string> >& above = {}) const
        {
            El e(a ? "httpRequest" : "httpResponse");
            if (a)
                e.a("method", str(a->method));
            std::vector<JV> content;
            if (given) {
                if (a) {
                    if (!given->name.empty())
                        e.m("title", str(given->name));
                } else
                    e.a("statusCode", str(given->name));
                const Payload& p = given->ref.empty() ? *given : *model(given->ref);
                if (!p.params.empty())
                    e.a("hrefVariables", params(p.params));
                const std::string& media = p.media.empty() ? given->media : p.media;
                std::vector<JV> hs;
                auto header = [&](const std::string& k, const std::string& v) { hs.push_back(El("member").c(obj({ { "key", str(k) }, { "value", str(v) } })).v()); };
                for (auto& h : above)
                    header(h.first, h.second);
                if (!media.empty())
                    header("Content-Type", media);
                for (auto* l : { &p.headers, &p.keptHeaders })
                    for (auto& h : *l)
                        header(h.first, h.second);
                if (!hs.empty())
                    e.a("headers", El("httpHeaders").c(arr(hs)).v());
                if (!p.desc.empty())
                    content.push_back(copy(p.desc));
                auto asset = [&](const std::vector<std::string>& t, const std::string& cls, const std::string& type) {
                    El x("asset");
                    x.m("classes", strs({ cls }));
                    if (!type.empty())
                        x.a("contentType", str(type));
                    x.c(JV::str(joined(t)));
                    content.push_back(x.v());
                };
                const std::vector<std::string>& body = p.keptBody.empty() ? p.body : p.keptBody;
                if (!body.empty())
                    asset(body, "messageBody", media);
                bool json = media.find("json") != std::string::npos;
                if (!p.schema.empty())
                    asset(p.schema, "messageBodySchema", json ? "application/schema+json" : "text/plain");
            }
            e.c(arr(content));
            return e.v();
        }
        JV action(const Action& a, std::vector<std::pair<std::string, std::string> > above) const
        {
            above.insert(above.end(), a.headers.begin(), a.headers.end());
            El e("transition");
            e.m("title", str(a.name));
            if (!a.relation.empty())
                e.a("relation", str(a.relation));
            if (!a.uri.empty())
                e.a("href", str(a.uri));
            if (!a.params.empty())
                e.a("hrefVariables", params(a.params));
            std::vector<JV> content;
            if (!a.desc.empty())
                content.push_back(copy(a.desc));
            for (auto& x : a.examples) {
                std::vector<const Payload*> rq;
                for (auto& p : x.requests)
                    rq.push_back(&p);
                if (rq.empty())
                    rq.push_back(nullptr);
                for (auto* q : rq)
                    if (x.responses.empty()) // which is a mistake
                        content.push_back(El("httpTransaction").c(arr({ payload(q, &a, above), payload(nullptr, nullptr) })).v());
                    else
                    for (auto& s : x.responses)
                        content.push_back(El("httpTransaction").c(arr({ payload(q, &a, above), payload(&s, nullptr, above) })).v());
            }
            e.c(arr(content));
            return e.v();
        }
        JV resource(const Resource& r) const
        {
            El e("resource");
            e.m("title", str(r.name)).a("href", str(r.uri));
            if (!r.params.empty())
                e.a("hrefVariables", params(r.params));
            std::vector<JV> content;
            if (!r.desc.empty())
                content.push_back(copy(r.desc));
            for (auto& a : r.actions)
                content.push_back(action(a, r.headers));
            e.c(arr(content));
            return e.v();
        }
        static std::string paragraphs(const std::vector<std::string>& d)
        {
            std::string s;
            for (auto& x : d)
                s += (s.empty() ? "" : "\n\n") + x;
            return s;
        }

    public:
        explicit Expect(const Blueprint& b_) : b(b_) {}
        JV one(const Resource& r) const { return resource(r); }
        JV one(const Action& a, const Resource& r) const { return action(a, r.headers); }
        JV category() const
        {
            El e("category");
            e.m("classes", strs({ "api" })).m("title", str(b.name));
            std::vector<JV> meta;
            for (auto& m : b.meta)
                meta.push_back(El("member").m("classes", strs({ "user" })).c(obj({ { "key", str(m.first) }, { "value", str(m.second) } })).v());
            if (!meta.empty())
                e.a("metadata", El("array").c(arr(meta)).v());
            std::vector<JV> content;
            if (!b.desc.empty())
                content.push_back(copy(paragraphs(b.desc)));
            for (auto& r : b.resources)
                content.push_back(resource(r));
            for (auto& g : b.groups) {
                std::vector<JV> in;
                if (!g.desc.empty())
                    in.push_back(copy(paragraphs(g.desc)));
                for (auto& r : g.resources)
                    in.push_back(resource(r));
                content.push_back(El("category").m("classes", strs({ "resourceGroup" })).m("title", str(g.name)).c(arr(in)).v());
            }
            e.c(arr(content));
            return e.v();
        }
    };
}
