// Reference semantics of element merging and of the keys and values elements stand for, on the plain model.
#pragma once
#include "gen_refract.h"

namespace gr
{
    struct MergeError {
    };
    // known finding R05-array-without-value: items added to an array without a value are lost; unset, they are
    inline bool& keepsAppended()
    {
        static thread_local bool keep = true;
        return keep;
    }
    inline M mergeAll(const std::vector<M>& chain, bool keepAppended = keepsAppended());
    inline const M* firstSample(const M& m)
    {
        auto s = m.attr("samples");
        return s && s->kind == kArray && s->has && !s->kids.empty() ? &s->kids[0] : nullptr;
    }
    inline bool typeAttr(const M& m, const std::string& t)
    {
        auto a = m.attr("typeAttributes");
        if (a && a->kind == kArray && a->has)
            for (auto& k : a->kids)
                if (k.kind == kString && k.has && k.str == t)
                    return true;
        return false;
    }
    // the value that stands for an element of the given kind: itself, its first sample, its default
    inline const M* valueOf(const M& m)
    {
        if (m.has)
            return &m;
        auto s = firstSample(m);
        if (s && s->kind == m.kind)
            return s;
        auto d = m.attr("default");
        if (d && d->kind == m.kind)
            return d;
        return typeAttr(m, "nullable") ? nullptr : &m;
    }
    inline std::string keyString(const M& member)
    {
        auto k = member.has ? member.key() : nullptr;
        if (!k || !k->has)
            return "";
        if (k->kind == kString)
            return k->str;
        if (k->kind == kExtend) {
            if (k->kids.empty())
                return "";
            M m = mergeAll(k->kids);
            if (m.kind != kString)
                return "";
            if (m.has && !m.str.empty())
                return m.str;
            auto v = valueOf(m);
            return v && v->has ? v->str : "";
        }
        return "";
    }
    inline M mergeAll(const std::vector<M>& chain, bool keepAppended)
    {
        if (chain.empty())
            throw MergeError();
        M r = chain[0];
        for (size_t i = 1; i < chain.size(); ++i) {
            const M& x = chain[i];
            if (x.kind != r.kind)
                throw MergeError();
            switch (r.kind) {
                case kString:
                case kNumber:
                case kBool:
                case kArray:
                case kObject:
                case kEnum:
                case kRef: break;
                default: throw MergeError();
            }
            for (auto& p : x.meta)
                if (p.first != "id" && p.first != "prefix" && p.first != "namespace")
                    set(r.meta, p.first, p.second);
            for (auto& p : x.attrs) {
                if (r.kind == kEnum && p.first == "enumerations") {
                    if (p.second.kids.empty())
                        continue;
                    auto it = find(r.attrs, "enumerations");
                    if (it == r.attrs.end()) {
                        // goes behind the other attributes
                        continue;
                    }
                    for (auto& e : p.second.kids) {
                        for (size_t j = 0; j < it->second.kids.size(); ++j)
                            if (same(it->second.kids[j], e, false)) {
                                it->second.kids.erase(it->second.kids.begin() + j);
                                break;
                            }
                        it->second.kids.push_back(e);
                    }
                } else
                    set(r.attrs, p.first, p.second);
            }
            if (r.kind == kEnum && x.attr("enumerations") && !x.attr("enumerations")->kids.empty() && !r.attr("enumerations"))
                set(r.attrs, "enumerations", *x.attr("enumerations"));
            if (!x.has)
                continue;
            if (r.kind == kArray) {
                if (r.has || keepAppended) {
                    r.has = true;
                    r.kids.insert(r.kids.end(), x.kids.begin(), x.kids.end());
                }
                continue;
            }
            if (r.kind != kObject) {
                r.has = true;
                r.str = x.str;
                r.flag = x.flag;
                r.kids = x.kids;
                continue;
            }
            for (auto& k : x.kids) {
                r.has = true;
                size_t at = r.kids.size();
                if (k.kind == kMember) {
                    std::string key = keyString(k);
                    for (size_t j = 0; j < r.kids.size() && at == r.kids.size(); ++j) {
                        M& t = r.kids[j];
                        if (t.kind == kMember && keyString(t) == key)
                            at = j;
                        if (t.kind == kSelect)
                            for (auto& o : t.kids)
                                for (auto& om : o.kids)
                                    if (om.kind == kMember && keyString(om) == key)
                                        at = j;
                    }
                } else if (k.kind == kRef) {
                    for (size_t j = 0; j < r.kids.size() && at == r.kids.size(); ++j)
                        if (r.kids[j].kind == kRef && r.kids[j].str == k.str)
                            at = j;
                }
                if (at == r.kids.size())
                    r.kids.push_back(k);
                else
                    r.kids[at] = k;
            }
        }
        return r;
    }
}
