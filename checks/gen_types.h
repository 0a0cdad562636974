// Elements as types: with type attributes, samples, defaults, enumerations, variable markers and resolved references.
#pragma once
#include "ref_refract.h"

namespace gr
{
    inline Opts typeOpts()
    {
        Opts o;
        o.typeNames = { "A" };
        o.info = false;
        return o;
    }
    inline void tag(M& m, const std::string& t)
    {
        auto it = find(m.attrs, "typeAttributes");
        if (it == m.attrs.end())
            set(m.attrs, "typeAttributes", seq(kArray, { str(t) }));
        else
            it->second.kids.push_back(str(t));
    }
    inline M type(pbt::Case& c, int depth, int want = -1);
    inline void traits(pbt::Case& c, M& m, int depth)
    {
        static const std::vector<std::string> t = { "fixed", "fixedType", "nullable", "required", "optional", "Fixed", "fixed " };
        if (c.chance(2, 5))
            for (size_t n = 1 + c.size(2); n; --n)
                tag(m, c.pick(t));
        if (c.chance(1, 40))
            set(m.attrs, "typeAttributes", c.boolean() ? none(kArray) : str("fixed"));
        else if (c.chance(1, 40)) {
            // entries which say nothing
            tag(m, c.pick(t));
            auto& a = find(m.attrs, "typeAttributes")->second;
            a.kids.insert(a.kids.begin() + c.draw(a.kids.size()), c.boolean() ? none(kString) : c.boolean() ? boolean(true) : seq(kArray, { str(c.pick(t)) }));
        }
        if (c.chance(1, 4)) {
            M s = c.chance(1, 8) ? none(kArray) : seq(kArray, {});
            if (s.has)
                for (size_t n = c.size(2); n; --n)
                    s.kids.push_back(type(c, depth - 1));
            set(m.attrs, "samples", s);
        }
        if (c.chance(1, 4))
            set(m.attrs, "default", type(c, depth - 1));
        if (c.chance(1, m.kind == kMember ? 3 : 20))
            set(m.attrs, "variable", c.chance(1, 5) ? none(kBool) : c.chance(1, 10) ? str("true") : boolean(c.chance(2, 3)));
        if (m.kind == kEnum && c.chance(5, 6)) {
            M e = c.chance(1, 20) ? none(kArray) : seq(kArray, {});
            if (e.has)
                for (size_t n = c.size(4); n; --n)
                    e.kids.push_back(type(c, depth - 1));
            set(m.attrs, "enumerations", e);
        }
        if (m.kind == kRef && c.chance(4, 5))
            set(m.attrs, "resolved", type(c, depth - 1));
        if (c.chance(1, 10))
            set(m.meta, c.pick(std::vector<std::string>{ "id", "title", "fixed", "default", "variable" }), str("x"));
    }
    inline M type(pbt::Case& c, int depth, int want)
    {
        static const std::vector<Kind> leaves = { kString, kNumber, kBool, kBool, kNull };
        static const std::vector<Kind> deep = { kString, kNumber, kBool, kBool, kNull, kArray, kArray, kObject, kObject, kEnum, kEnum, kRef, kExtend, kSelect, kHolder, kMember };
        static const std::vector<Kind> mergeable = { kString, kNumber, kBool, kArray, kObject, kEnum, kRef };
        M m;
        m.kind = want >= 0 ? (Kind)want : c.pick(depth > 0 ? deep : leaves);
        m.name = kindName(m.kind);
        m.has = !c.chance(1, 4);
        if (m.has) {
            auto fill = [&](size_t n, int k) {
                while (n--)
                    m.kids.push_back(type(c, depth - 1, k));
            };
            switch (m.kind) {
                case kString: m.str = c.pick(typeOpts().keys); break;
                case kNumber: m.str = number(c); break;
                case kBool: m.flag = c.boolean(); break;
                case kNull: break;
                case kRef: m.str = "A"; break;
                case kArray: fill(c.size(depth > 0 ? 4 : 0), -1); break;
                case kOption: fill(c.size(depth > 0 ? 3 : 0), c.chance(1, 4) ? -1 : kMember); break;
                case kSelect: fill(c.size(depth > 0 ? 3 : 0), kOption); break;
                case kObject:
                    for (size_t n = c.size(depth > 0 ? 4 : 0); n; --n)
                        m.kids.push_back(type(c, depth - 1, c.chance(1, 5) ? (int)c.pick(std::vector<Kind>{ kSelect, kRef, kString, kHolder, kExtend, kObject }) : kMember));
                    break;
                case kEnum:
                case kHolder: fill(c.chance(5, 6), -1); break;
                case kExtend: {
                    Kind k = c.pick(mergeable);
                    fill(c.size(3), k);
                    break;
                }
                default:
                    m.hasKey = true;
                    m.kids.push_back(c.chance(1, 10) ? none(kString) : str(c.pick(typeOpts().keys)));
                    if (c.chance(1, 10))
                        tag(m.kids[0], "fixed");
                    m.hasVal = !c.chance(1, 15);
                    fill(m.hasVal, -1);
            }
        }
        traits(c, m, depth);
        return m;
    }
    inline bool defines(const M& m) { return m.has || firstSample(m) || m.attr("default"); }
    inline bool variable(const M& m)
    {
        auto v = m.attr("variable");
        return v && v->kind == kBool && v->has && v->flag;
    }
    inline void dropArrayWithoutValue(M& m)
    {
        // known finding R05-array-without-value: keep such chains out
        if (m.kind == kExtend)
            for (auto& k : m.kids)
                if (k.kind == kArray)
                    k.has = true;
        for (auto& k : m.kids)
            dropArrayWithoutValue(k);
        for (auto& p : m.attrs)
            dropArrayWithoutValue(p.second);
    }
}
