// Reference semantics of expansion on the plain model.
#pragma once
#include "ref_refract.h"
#include <deque>
#include <map>

namespace gr
{
    typedef std::map<std::string, M> Types; // includes the base types
    struct MixinCycle {
    };
    inline bool reservedName(const std::string& s)
    {
        static const std::set<std::string> r = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
        return r.count(s) != 0;
    }
    inline Types baseTypes()
    {
        Types m;
        static const Kind k[] = { kBool, kNumber, kString, kArray, kObject, kEnum, kNull };
        for (Kind x : k)
            m[kindName(x)] = none(x);
        return m;
    }
    inline const M* rootAncestor(const Types& t, const std::string& name)
    {
        auto it = t.find(name);
        if (it == t.end())
            return nullptr;
        std::set<std::string> seen;
        for (;;) {
            if (reservedName(it->second.name))
                return &it->second;
            seen.insert(it->first);
            auto n = t.find(it->second.name);
            if (n == t.end() || seen.count(n->first))
                return &it->second;
            it = n;
        }
    }
    struct Expander {
        const Types& types;
        std::vector<std::string> using_; // named types and references being expanded
        size_t budget = 20000;
        explicit Expander(const Types& t) : types(t) {}

        M inside(M m) // the content of an element, its own name left alone
        {
            if (!budget--)
                throw std::length_error("too much expansion");
            for (auto& k : m.kids)
                k = expand(k);
            if (m.kind == kEnum)
                for (auto& p : m.attrs)
                    if (p.first == "enumerations")
                        for (auto& k : p.second.kids)
                            k = expand(k);
            return m;
        }
        std::vector<M> ancestors(const std::string& name)
        {
            std::vector<M> r;
            std::set<std::string> seen;
            std::string n = name;
            while (!reservedName(n)) {
                auto it = types.find(n);
                if (it == types.end())
                    break;
                if (!seen.insert(n).second)
                    return {}; // derives from itself
                M m = it->second;
                m.name = kindName(m.kind);
                erase(m.meta, "id");
                set(m.meta, "ref", str(n));
                r.insert(r.begin(), m);
                n = it->second.name;
            }
            return r;
        }
        bool busy(const std::string& n) { return std::find(using_.begin(), using_.end(), n) != using_.end(); }
        M expand(const M& m)
        {
            switch (m.kind) {
                case kNull:
                case kHolder: return m;
                case kRef: {
                    M r = m;
                    if (m.str.empty())
                        return r;
                    if (busy(m.str))
                        throw MixinCycle();
                    auto it = types.find(m.str);
                    if (it == types.end())
                        return r;
                    using_.push_back(m.str);
                    M e = expand(it->second);
                    using_.pop_back();
                    if (auto id = e.metaOf("id")) {
                        set(e.meta, "ref", *id);
                        erase(e.meta, "id");
                    }
                    set(r.attrs, "resolved", e);
                    return r;
                }
                case kMember:
                case kSelect:
                case kOption:
                case kExtend: return inside(m);
                default:;
            }
            if (reservedName(m.name))
                return inside(m);
            if (busy(m.name)) {
                M r = *rootAncestor(types, m.name);
                M cut = none(r.kind);
                cut.meta = r.meta;
                cut.attrs = r.attrs;
                erase(cut.meta, "id");
                set(cut.meta, "ref", str(m.name));
                return cut;
            }
            M r = seq(kExtend, {});
            using_.push_back(m.name);
            for (auto& a : ancestors(m.name))
                r.kids.push_back(inside(a));
            using_.pop_back();
            if (auto id = m.metaOf("id"))
                set(r.meta, "id", *id);
            M own = inside(m);
            own.name = kindName(m.kind);
            erase(own.meta, "id");
            r.kids.push_back(own);
            return r;
        }
    };
}
