// A validator for the part of JSON schema (draft 7) that structures of data can need, written from the specification.
#pragma once
#include "model_json.h"
#include <regex>
#include <set>

namespace ms
{
    using mj::JV;
    struct Lenient {
        bool oneOf = false;    // any number of matches greater than none will do, and no choice allows everything
        bool extra = false;    // additionalProperties knows the properties of nested allOf, anyOf and oneOf
        bool patterns = false; // patternProperties constrain nothing but keep additionalProperties away
    };
    inline bool sameNumber(const std::string& a, const std::string& b) { return a == b || std::strtod(a.c_str(), nullptr) == std::strtod(b.c_str(), nullptr); }
    inline bool equal(const JV& a, const JV& b)
    {
        if (a.t != b.t)
            return false;
        switch (a.t) {
            case JV::Num: return sameNumber(a.s, b.s);
            case JV::Str: return a.s == b.s;
            case JV::Arr:
                if (a.a.size() != b.a.size())
                    return false;
                for (size_t i = 0; i < a.a.size(); ++i)
                    if (!equal(a.a[i], b.a[i]))
                        return false;
                return true;
            case JV::Obj:
                if (a.o.size() != b.o.size())
                    return false;
                for (auto& m : a.o)
                    if (!b.get(m.first) || !equal(m.second, *b.get(m.first)))
                        return false;
                return true;
            default: return true;
        }
    }
    inline bool hasType(const JV& v, const std::string& t)
    {
        switch (v.t) {
            case JV::Null: return t == "null";
            case JV::True:
            case JV::False: return t == "boolean";
            case JV::Num: return t == "number" || (t == "integer" && std::strtod(v.s.c_str(), nullptr) == (double)(long long)std::strtod(v.s.c_str(), nullptr));
            case JV::Str: return t == "string";
            case JV::Arr: return t == "array";
            default: return t == "object";
        }
    }
    inline std::string duplicateKey(const JV& v)
    {
        std::set<std::string> seen;
        for (auto& m : v.o) {
            if (!seen.insert(m.first).second)
                return m.first;
            auto d = duplicateKey(m.second);
            if (!d.empty())
                return d;
        }
        for (auto& x : v.a) {
            auto d = duplicateKey(x);
            if (!d.empty())
                return d;
        }
        return "";
    }
    // what is wrong with the schema itself, or nothing
    inline std::string malformed(const JV& s, bool emptyChoice = false, const std::string& at = "#")
    {
        if (s.t == JV::True || s.t == JV::False)
            return "";
        if (s.t != JV::Obj)
            return at + " is no schema";
        std::set<std::string> seen;
        for (auto& m : s.o) {
            const std::string& k = m.first;
            const JV& v = m.second;
            std::string here = at + "/" + k;
            if (!seen.insert(k).second)
                return here + " stands twice";
            if (k == "$schema") {
                if (v.t != JV::Str)
                    return here + " is no string";
            } else if (k == "type") {
                static const std::set<std::string> types = { "null", "boolean", "number", "integer", "string", "array", "object" };
                if (v.t != JV::Str || !types.count(v.s))
                    return here + " is no type";
            } else if (k == "const") {
            } else if (k == "enum") {
                if (v.t != JV::Arr)
                    return here + " is no array";
                for (size_t i = 0; i < v.a.size(); ++i)
                    for (size_t j = 0; j < i; ++j)
                        if (equal(v.a[i], v.a[j]))
                            return here + " holds a value twice";
            } else if (k == "properties" || k == "patternProperties") {
                if (v.t != JV::Obj)
                    return here + " is no object";
                std::set<std::string> names;
                for (auto& p : v.o) {
                    if (!names.insert(p.first).second)
                        return here + " names " + mj::quoteJson(p.first) + " twice";
                    if (k == "patternProperties") {
                        try {
                            std::regex r(p.first, std::regex::ECMAScript);
                        } catch (const std::regex_error&) {
                            return here + ": " + mj::quoteJson(p.first) + " is no regular expression";
                        }
                    }
                    auto w = malformed(p.second, emptyChoice, here + "/" + p.first);
                    if (!w.empty())
                        return w;
                }
            } else if (k == "required") {
                if (v.t != JV::Arr)
                    return here + " is no array";
                std::set<std::string> names;
                for (auto& n : v.a)
                    if (n.t != JV::Str || !names.insert(n.s).second)
                        return here + " holds " + mj::packed(n) + " twice or no name";
            } else if (k == "allOf" || k == "anyOf" || k == "oneOf" || (k == "items" && v.t == JV::Arr)) {
                if (v.t != JV::Arr || (v.a.empty() && k != "items" && !(k == "oneOf" && emptyChoice)))
                    return here + " is no array of schemas";
                for (size_t i = 0; i < v.a.size(); ++i) {
                    auto w = malformed(v.a[i], emptyChoice, here + "/" + std::to_string(i));
                    if (!w.empty())
                        return w;
                }
            } else if (k == "items" || k == "additionalItems" || k == "additionalProperties") {
                auto w = malformed(v, emptyChoice, here);
                if (!w.empty())
                    return w;
            } else if (k == "minItems" || k == "maxItems") {
                if (v.t != JV::Num || v.s.find_first_not_of("0123456789") != std::string::npos)
                    return here + " is no count";
            } else
                return here + " is no keyword";
        }
        return "";
    }
    inline void names(const JV& s, std::set<std::string>& out, std::vector<std::string>& patterns)
    {
        if (auto p = s.get("properties"))
            for (auto& m : p->o)
                out.insert(m.first);
        if (auto p = s.get("patternProperties"))
            for (auto& m : p->o)
                patterns.push_back(m.first);
        for (auto k : { "allOf", "anyOf", "oneOf" })
            if (auto n = s.get(k))
                for (auto& x : n->a)
                    names(x, out, patterns);
    }
    inline bool matches(const std::string& pattern, const std::string& name)
    {
        return std::regex_search(name, std::regex(pattern, std::regex::ECMAScript));
    }
    // why the value is not valid, or nothing
    inline std::string invalid(const JV& s, const JV& v, const Lenient& l = Lenient(), const std::string& at = "$")
    {
        if (s.t == JV::True)
            return "";
        if (s.t == JV::False)
            return at + " is not allowed";
        for (auto& m : s.o) {
            const std::string& k = m.first;
            const JV& a = m.second;
            if (k == "type") {
                if (!hasType(v, a.s))
                    return at + " is not of type " + a.s;
            } else if (k == "const") {
                if (!equal(v, a))
                    return at + " is not " + mj::packed(a);
            } else if (k == "enum") {
                bool in = false;
                for (auto& x : a.a)
                    in = in || equal(v, x);
                if (!in)
                    return at + " is none of " + mj::packed(a);
            } else if (k == "allOf") {
                for (auto& x : a.a) {
                    auto w = invalid(x, v, l, at);
                    if (!w.empty())
                        return w;
                }
            } else if (k == "anyOf" || k == "oneOf") {
                size_t n = 0;
                std::string why;
                for (auto& x : a.a) {
                    auto w = invalid(x, v, l, at);
                    n += w.empty();
                    if (!w.empty())
                        why += "; " + w;
                }
                if (k == "oneOf" && a.a.empty() && l.oneOf)
                    continue;
                if (!n)
                    return at + " matches none of " + k + why;
                if (n > 1 && k == "oneOf" && !l.oneOf)
                    return at + " matches more than one of oneOf";
            } else if (v.t == JV::Obj && k == "required") {
                for (auto& x : a.a)
                    if (!v.get(x.s))
                        return at + " lacks " + mj::quoteJson(x.s);
            } else if (v.t == JV::Obj && k == "properties") {
                for (auto& p : a.o)
                    if (auto x = v.get(p.first)) {
                        auto w = invalid(p.second, *x, l, at + "." + p.first);
                        if (!w.empty())
                            return w;
                    }
            } else if (v.t == JV::Obj && k == "patternProperties" && !l.patterns) {
                for (auto& p : a.o)
                    for (auto& x : v.o)
                        if (matches(p.first, x.first)) {
                            auto w = invalid(p.second, x.second, l, at + "." + x.first);
                            if (!w.empty())
                                return w;
                        }
            } else if (v.t == JV::Obj && k == "additionalProperties") {
                std::set<std::string> known;
                std::vector<std::string> patterns;
                if (l.extra || l.patterns)
                    names(s, known, patterns);
                else {
                    JV own(JV::Obj);
                    for (auto p : { "properties", "patternProperties" })
                        if (s.get(p))
                            own.o.emplace_back(p, *s.get(p));
                    names(own, known, patterns);
                }
                if (l.patterns && !patterns.empty())
                    continue;
                for (auto& x : v.o) {
                    bool ok = known.count(x.first);
                    for (auto& p : patterns)
                        ok = ok || matches(p, x.first);
                    if (ok)
                        continue;
                    auto w = invalid(a, x.second, l, at + "." + x.first);
                    if (!w.empty())
                        return w;
                }
            } else if (v.t == JV::Arr && k == "items") {
                for (size_t i = 0; i < v.a.size(); ++i) {
                    if (a.t == JV::Arr && i >= a.a.size())
                        break;
                    auto w = invalid(a.t == JV::Arr ? a.a[i] : a, v.a[i], l, at + "[" + std::to_string(i) + "]");
                    if (!w.empty())
                        return w;
                }
            } else if (v.t == JV::Arr && k == "additionalItems") {
                auto items = s.get("items");
                if (items && items->t == JV::Arr)
                    for (size_t i = items->a.size(); i < v.a.size(); ++i) {
                        auto w = invalid(a, v.a[i], l, at + "[" + std::to_string(i) + "]");
                        if (!w.empty())
                            return w;
                    }
            } else if (v.t == JV::Arr && k == "minItems") {
                if (v.a.size() < (size_t)std::atoll(a.s.c_str()))
                    return at + " has fewer than " + a.s + " items";
            } else if (v.t == JV::Arr && k == "maxItems") {
                if (v.a.size() > (size_t)std::atoll(a.s.c_str()))
                    return at + " has more than " + a.s + " items";
            }
        }
        return "";
    }
}
