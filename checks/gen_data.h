// Well-formed expanded data structures, the value they stand for, and the values they describe.
#pragma once
#include "gen_types.h"
#include "model_schema.h"

namespace gd
{
    using namespace gr;
    using mj::JV;

    struct DOpts {
        bool select = true, variable = true, refs = true, extends = true, mixinArrays = true, duplicates = false;
        int* counter = nullptr; // property names are drawn from it when there must be no two alike
    };
    inline M data(pbt::Case& c, int depth, const DOpts& o, int want = -1, bool valued = false);
    inline std::string literal(pbt::Case& c, Kind k)
    {
        static const std::vector<std::string> s = { "a", "b", "", "A", "1", "true", "null", "a b", "\xC5\xBE", "x\"y\\" };
        static const std::vector<std::string> n = { "0", "1", "-1", "42", "3.14", "2147483647" };
        return k == kString ? c.pick(s) : c.pick(n);
    }
    inline void traits(pbt::Case& c, M& m, int depth, const DOpts& o)
    {
        if (c.chance(1, 4))
            tag(m, "nullable");
        if (c.chance(1, 4))
            tag(m, "fixed");
        else if ((m.kind == kArray || m.kind == kObject) && c.chance(1, 4))
            tag(m, "fixedType");
        auto mate = [&] {
            DOpts p = o;
            p.select = p.variable = false;
            M s = data(c, depth - 1, p, m.kind, true);
            erase(s.attrs, "samples");
            erase(s.attrs, "default");
            erase(s.attrs, "typeAttributes");
            return s;
        };
        if (m.kind == kNull || m.kind == kEnum || (m.kind == kObject && o.duplicates))
            return;
        if (c.chance(1, 6)) {
            M s = seq(kArray, {});
            for (size_t n = 1 + c.size(1); n; --n)
                s.kids.push_back(mate());
            set(m.attrs, "samples", s);
        }
        if (c.chance(1, 8))
            set(m.attrs, "default", mate());
    }
    inline M property(pbt::Case& c, int depth, const DOpts& o)
    {
        static const std::vector<std::string> names = { "a", "b", "c", "id", "name", "anyOf", "x.y", "a b", "\xC5\xBE" };
        M k = str(o.duplicates ? c.pick(names) : "p" + std::to_string((*o.counter)++));
        M m = member(k, data(c, depth, o));
        if (o.variable && c.chance(1, 8)) {
            set(m.attrs, "variable", boolean(true));
            switch (c.draw(3)) {
                case 0: tag(m.kids[0], "fixed"); break;
                case 1:
                    set(m.kids[0].attrs, "samples", seq(kArray, { str(k.str) }));
                    m.kids[0].has = false;
                    m.kids[0].str = "";
                    break;
                case 2: m.kids[0] = none(kString); break;
                default:;
            }
        } else if (c.chance(1, 3))
            tag(m, c.boolean() || o.duplicates ? "required" : "optional");
        if (c.chance(1, 8))
            tag(m, "fixed");
        if (c.chance(1, 10))
            tag(m, "fixedType");
        if (c.chance(1, 8))
            tag(m, "nullable");
        return m;
    }
    inline M entry(pbt::Case& c, int depth, const DOpts& o);
    // what is included is described by its content
    inline M included(M target)
    {
        M r = leaf(kRef, "T");
        erase(target.attrs, "samples");
        erase(target.attrs, "default");
        set(r.attrs, "resolved", target);
        return r;
    }
    inline M entry(pbt::Case& c, int depth, const DOpts& o)
    {
        switch (c.weighted({ 10, o.select ? 2u : 0u, o.refs && depth > 0 ? 1u : 0u, o.extends && depth > 0 ? 1u : 0u })) {
            case 1: {
                M s = seq(kSelect, {});
                for (size_t n = 1 + c.size(2); n; --n) {
                    M op = seq(kOption, {});
                    for (size_t k = c.chance(1, 8) ? 0 : 1 + c.size(1); k; --k)
                        op.kids.push_back(property(c, depth - 1, o));
                    s.kids.push_back(op);
                }
                return s;
            }
            case 2: return included(data(c, depth - 1, o, kObject));
            case 3: {
                M e = data(c, depth - 1, o, kExtend);
                for (auto& k : e.kids) {
                    erase(k.attrs, "samples");
                    erase(k.attrs, "default");
                }
                return e;
            }
            default: return property(c, depth - 1, o);
        }
    }
    // what a fixed value without content is fixed to, or whether to its sample, nobody says: none stands in an enumeration
    inline void unfix(M& m)
    {
        auto it = find(m.attrs, "typeAttributes");
        if (!m.has && it != m.attrs.end() && it->second.kind == kArray)
            for (size_t i = 0; i < it->second.kids.size();)
                if (it->second.kids[i].str.substr(0, 5) == "fixed")
                    it->second.kids.erase(it->second.kids.begin() + i);
                else
                    ++i;
        erase(m.attrs, "samples");
        erase(m.attrs, "default");
        for (auto& k : m.kids)
            unfix(k);
        for (auto& a : m.attrs)
            unfix(a.second);
    }
    inline M data(pbt::Case& c, int depth, const DOpts& o, int want, bool valued)
    {
        static const std::vector<Kind> leaves = { kString, kString, kNumber, kBool, kNull };
        static const std::vector<Kind> deep = { kString, kNumber, kBool, kNull, kArray, kArray, kArray, kObject, kObject, kObject, kEnum, kEnum, kRef, kExtend, kHolder };
        M m;
        m.kind = want >= 0 ? (Kind)want : c.pick(depth > 0 ? deep : leaves);
        if (m.kind == kRef && !o.refs)
            m.kind = kString;
        if (m.kind == kExtend && !o.extends && want < 0)
            m.kind = kNumber;
        m.name = kindName(m.kind);
        m.has = valued || c.chance(2, 3);
        switch (m.kind) {
            case kString:
            case kNumber:
                if (m.has)
                    m.str = literal(c, m.kind);
                break;
            case kBool: m.flag = m.has && c.boolean(); break;
            case kNull: break;
            case kArray:
                if (m.has)
                    for (size_t n = c.size(4); n; --n) {
                        if (o.mixinArrays && o.refs && depth > 1 && c.chance(1, 10)) {
                            if (c.boolean())
                                m.kids.push_back(included(data(c, depth - 2, o, kArray)));
                            else { // a derived one
                                M x = seq(kExtend, {});
                                for (size_t k = 1 + c.size(1); k; --k) {
                                    x.kids.push_back(data(c, depth - 2, o, kArray));
                                    x.kids.back().has = true; // known finding R05-array-without-value
                                    erase(x.kids.back().attrs, "samples");
                                    erase(x.kids.back().attrs, "default");
                                }
                                m.kids.push_back(included(x));
                            }
                        } else {
                            M k = data(c, depth - 1, o);
                            if (k.kind != kRef) // a reference among the items is an inclusion
                                m.kids.push_back(k);
                        }
                    }
                break;
            case kObject:
                if (m.has)
                    for (size_t n = c.size(4); n; --n)
                        m.kids.push_back(entry(c, depth, o));
                break;
            case kHolder:
                m.has = true;
                m.kids.push_back(data(c, depth - 1, o));
                return m;
            case kRef:
                m.has = true;
                m.str = "T";
                if (c.chance(9, 10))
                    set(m.attrs, "resolved", data(c, depth - 1, o));
                return m;
            case kExtend: {
                static const std::vector<Kind> mergeable = { kString, kNumber, kBool, kArray, kObject };
                m.has = true;
                Kind k = want == kExtend ? kObject : c.pick(mergeable);
                for (size_t n = 1 + c.size(2); n; --n) {
                    M x = data(c, depth - 1, o, k);
                    m.kids.push_back(x);
                }
                if (k == kArray) // known finding R05-array-without-value
                    for (auto& x : m.kids)
                        x.has = true;
                return m;
            }
            case kEnum: {
                M e = seq(kArray, {});
                for (size_t n = 1 + c.size(3); n; --n) {
                    M x = data(c, depth > 1 ? 1 : 0, o, -1, c.chance(4, 5));
                    if (x.kind != kEnum && c.chance(4, 5) && !typeAttr(x, "fixed") && !typeAttr(x, "fixedType"))
                        tag(x, "fixed");
                    unfix(x);
                    e.kids.push_back(x);
                }
                set(m.attrs, "enumerations", e);
                auto some = [&] { return e.kids[c.draw(e.kids.size() - 1)]; };
                if (m.has)
                    m.kids.push_back(some());
                auto whole = [&] {
                    M x = seq(kEnum, { some() });
                    return x;
                };
                if (c.chance(1, 6))
                    set(m.attrs, "samples", seq(kArray, { whole() }));
                if (c.chance(1, 6))
                    set(m.attrs, "default", whole());
                break;
            }
            default:;
        }
        traits(c, m, depth, o);
        return m;
    }

    // ---- whether what a fixed parent says holds for m as well
    inline bool inherits(const M& m)
    {
        switch (m.kind) {
            case kArray:
            case kString:
            case kNumber:
            case kBool: return defines(m);
            case kMember: return !variable(m) && (m.has ? inherits(*m.val()) : !!m.attr("default"));
            case kEnum: return m.has ? inherits(m.kids[0]) : !!m.attr("default");
            case kExtend: return inherits(mergeAll(m.kids));
            default: return true;
        }
    }
    // ---- the value a structure stands for
    // known finding S05-fixed-array-open-item: fixed arrays leave out the items without a value; set, they keep them
    inline bool& keepOpenItems()
    {
        static thread_local bool keep = false;
        return keep;
    }
    inline JV value(const M& m, bool fixed = false, bool null = false);
    inline std::string keyOf(const M& k)
    {
        if (k.kind == kExtend)
            return keyOf(mergeAll(k.kids));
        if (k.has)
            return k.str;
        if (auto s = firstSample(k))
            return keyOf(*s);
        if (auto d = k.attr("default"))
            return keyOf(*d);
        return "";
    }
    inline void put(JV& o, const std::string& k, const JV& v)
    {
        for (auto& m : o.o)
            if (m.first == k) {
                m.second = v;
                return;
            }
        o.o.emplace_back(k, v);
    }
    inline void properties(JV& out, const M& m, bool fixed, bool null)
    {
        switch (m.kind) {
            case kMember: {
                bool f = fixed || typeAttr(m, "fixed"), n = null || typeAttr(m, "nullable");
                if (typeAttr(m, "optional") && !defines(*m.val()))
                    return;
                std::string k = keyOf(*m.key());
                if (!k.empty())
                    put(out, k, value(*m.val(), f, n));
                return;
            }
            case kSelect:
                for (auto& op : m.kids)
                    if (op.has && !op.kids.empty()) {
                        for (auto& p : op.kids)
                            properties(out, p, fixed, null);
                        return;
                    }
                return;
            case kRef:
                if (m.attr("resolved"))
                    properties(out, *m.attr("resolved"), fixed, null);
                return;
            case kExtend: properties(out, mergeAll(m.kids), fixed, null); return;
            case kHolder:
                if (m.has && !m.kids.empty())
                    properties(out, m.kids[0], fixed, null);
                return;
            case kObject: {
                JV v = value(m, fixed, null);
                if (v.t == JV::Obj)
                    for (auto& p : v.o)
                        put(out, p.first, p.second);
                return;
            }
            default:;
        }
    }
    inline JV value(const M& m, bool fixed, bool null)
    {
        switch (m.kind) {
            case kNull: return JV(JV::Null);
            case kHolder: return m.has && !m.kids.empty() ? value(m.kids[0], fixed, null) : JV(JV::Null);
            case kRef: return m.attr("resolved") ? value(*m.attr("resolved"), fixed, null) : JV(JV::Null);
            case kExtend: return value(mergeAll(m.kids), fixed, null);
            case kMember:
            case kOption:
            case kSelect: return JV(JV::Null);
            default:;
        }
        fixed = fixed || typeAttr(m, "fixed");
        null = null || typeAttr(m, "nullable");
        if (!m.has) {
            if (auto s = firstSample(m))
                return value(*s, fixed, null);
            if (auto d = m.attr("default"))
                return value(*d, fixed, null);
            if (null)
                return JV(JV::Null);
        }
        auto below = [&](const M& k) { return fixed && inherits(k); };
        switch (m.kind) {
            case kString: return JV::str(m.str);
            case kNumber: return JV::num(m.has ? m.str : "0");
            case kBool: return JV(m.has && m.flag ? JV::True : JV::False);
            case kArray: {
                JV v(JV::Arr);
                for (auto& k : m.kids) {
                    if (k.kind == kRef) {
                        auto r = k.attr("resolved");
                        if (!r)
                            continue;
                        M target = r->kind == kExtend ? mergeAll(r->kids) : *r;
                        if (target.kind != kArray)
                            continue;
                        JV in = value(target, fixed, false);
                        for (auto& x : in.a)
                            v.a.push_back(x);
                    } else if ((k.kind == kString || k.kind == kNumber || k.kind == kBool) && !typeAttr(k, "fixed") && !defines(k) && !(fixed && keepOpenItems()))
                        continue; // a type of items, but no item
                    else if (k.kind == kMember || k.kind == kOption || k.kind == kSelect)
                        continue; // no item
                    else
                        v.a.push_back(value(k, below(k), false));
                }
                return v;
            }
            case kObject: {
                JV v(JV::Obj);
                for (auto& k : m.kids)
                    properties(v, k, below(k), false);
                return v;
            }
            default: { // an enumeration
                if (m.has)
                    return value(m.kids[0], fixed, false);
                auto e = m.attr("enumerations");
                if (e && e->kind == kArray && e->has && !e->kids.empty())
                    return value(e->kids[0], fixed, null);
                return JV(JV::Null);
            }
        }
    }
    // ---- whether a structure describes a value
    struct Flags {
        bool fixed = false, type = false, null = false, required = false;
    };
    inline bool accepts(const M& m, const JV& v, Flags f = Flags());
    struct Props {
        std::vector<std::pair<std::string, std::pair<M, Flags> > > named; // the last of a name counts
        std::set<std::string> required;
    };
    inline void collect(Props& p, const M& m, Flags f)
    {
        switch (m.kind) {
            case kMember: {
                f.fixed = f.fixed || typeAttr(m, "fixed");
                f.type = typeAttr(m, "fixedType");
                f.null = typeAttr(m, "nullable");
                f.required = !typeAttr(m, "optional") && (f.required || typeAttr(m, "required"));
                for (size_t i = 0; i < p.named.size(); ++i)
                    if (p.named[i].first == m.key()->str) {
                        p.named.erase(p.named.begin() + i);
                        break;
                    }
                p.named.emplace_back(m.key()->str, std::make_pair(*m.val(), f));
                if (f.required)
                    p.required.insert(m.key()->str);
                return;
            }
            case kRef:
                if (m.attr("resolved"))
                    collect(p, *m.attr("resolved"), f);
                return;
            case kExtend: collect(p, mergeAll(m.kids), f); return;
            case kHolder: collect(p, m.kids[0], f); return;
            case kObject:
                f.fixed = f.fixed || typeAttr(m, "fixed");
                for (auto& k : m.kids) {
                    Flags g;
                    g.fixed = f.fixed;
                    g.required = f.required;
                    collect(p, k, g);
                }
                return;
            default:;
        }
    }
    inline bool accepts(const M& m, const JV& v, Flags f)
    {
        switch (m.kind) {
            case kNull: return v.t == JV::Null;
            case kHolder: return accepts(m.kids[0], v, f);
            case kRef: return !m.attr("resolved") || accepts(*m.attr("resolved"), v, f);
            case kExtend: return accepts(mergeAll(m.kids), v, f);
            default:;
        }
        f.fixed = f.fixed || typeAttr(m, "fixed");
        f.type = f.type || typeAttr(m, "fixedType");
        f.null = f.null || typeAttr(m, "nullable");
        if (f.null && v.t == JV::Null)
            return true;
        auto below = [&](const M& k) {
            Flags g;
            g.fixed = f.fixed && inherits(k);
            return g;
        };
        switch (m.kind) {
            case kString: return v.t == JV::Str && (!f.fixed || !m.has || v.s == m.str);
            case kNumber: return v.t == JV::Num && (!f.fixed || !m.has || v.s == m.str);
            case kBool: return (v.t == JV::True || v.t == JV::False) && (!f.fixed || !m.has || (v.t == JV::True) == m.flag);
            case kArray:
                if (v.t != JV::Arr)
                    return false;
                if (f.type) {
                    if (!m.has && defines(m))
                        return true;
                    for (auto& x : v.a) {
                        bool ok = false;
                        for (auto& k : m.kids)
                            ok = ok || accepts(k, x, below(k));
                        if (!ok)
                            return false;
                    }
                    return true;
                }
                if (!f.fixed || (!m.has && defines(m)))
                    return true;
                if (v.a.size() != m.kids.size())
                    return false;
                for (size_t i = 0; i < v.a.size(); ++i)
                    if (!accepts(m.kids[i], v.a[i], below(m.kids[i])))
                        return false;
                return true;
            case kObject: {
                if (v.t != JV::Obj)
                    return false;
                bool closed = f.type || f.fixed;
                if (!m.has && defines(m))
                    return true;
                Props p;
                for (auto& k : m.kids) {
                    Flags g = below(k);
                    g.required = closed;
                    collect(p, k, g);
                }
                for (auto& r : p.required)
                    if (!v.get(r))
                        return false;
                std::set<std::string> known;
                for (auto& n : p.named) {
                    known.insert(n.first);
                    auto x = v.get(n.first);
                    if (x && !accepts(n.second.first, *x, n.second.second))
                        return false;
                }
                if (closed)
                    for (auto& x : v.o)
                        if (!known.count(x.first))
                            return false;
                return true;
            }
            default: { // an enumeration
                auto e = m.attr("enumerations");
                for (auto& k : e->kids) {
                    Flags g;
                    g.fixed = f.fixed;
                    if (accepts(k, v, g))
                        return true;
                }
                return false;
            }
        }
    }
}
