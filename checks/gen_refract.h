// Refract element trees: a plain model of them, a generator, a builder of the real elements and an observer which
// reads real elements back into the model (by dynamic_cast and the containers' iterators only).
#pragma once
#include "gen_text.h"
#include "refract/Element.h"
#include "refract/InfoElements.h"
#include "refract/Utils.h"
#include <memory>

namespace gr
{
    using namespace refract;
    enum Kind { kNull, kString, kNumber, kBool, kArray, kObject, kMember, kEnum, kRef, kExtend, kOption, kSelect, kHolder, kKinds };
    inline const char* kindName(int k)
    {
        static const char* n[] = { "null", "string", "number", "boolean", "array", "object", "member", "enum", "ref", "extend", "option", "select", "" };
        return n[k];
    }
    struct M {
        typedef std::vector<std::pair<std::string, M> > Info;
        Kind kind = kNull;
        std::string name;
        bool has = false;
        Info meta, attrs;
        std::string str;     // String, Number, Ref
        bool flag = false;   // Bool
        std::vector<M> kids; // containers; Enum, Holder: at most one; Member: key (if hasKey), value (if hasVal)
        bool hasKey = false, hasVal = false;

        const M* key() const { return hasKey ? &kids[0] : nullptr; }
        const M* val() const { return hasVal ? &kids[hasKey ? 1 : 0] : nullptr; }
        const M* attr(const std::string& n) const
        {
            for (auto& a : attrs)
                if (a.first == n)
                    return &a.second;
            return nullptr;
        }
        const M* metaOf(const std::string& n) const
        {
            for (auto& a : meta)
                if (a.first == n)
                    return &a.second;
            return nullptr;
        }
    };
    inline M::Info::iterator find(M::Info& i, const std::string& k)
    {
        for (auto it = i.begin(); it != i.end(); ++it)
            if (it->first == k)
                return it;
        return i.end();
    }
    inline void set(M::Info& i, const std::string& k, const M& v)
    {
        auto it = find(i, k);
        if (it == i.end())
            i.emplace_back(k, v);
        else
            it->second = v;
    }
    inline void erase(M::Info& i, const std::string& k)
    {
        for (auto it = i.begin(); it != i.end();)
            it = it->first == k ? i.erase(it) : it + 1;
    }
    // names: compare element names as well (the library's own equality does not)
    inline bool same(const M& a, const M& b, bool names = true);
    inline bool same(const M::Info& a, const M::Info& b, bool names)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (a[i].first != b[i].first || !same(a[i].second, b[i].second, names))
                return false;
        return true;
    }
    inline bool same(const M& a, const M& b, bool names)
    {
        if (a.kind != b.kind || (names && a.name != b.name) || a.has != b.has || !same(a.meta, b.meta, names) || !same(a.attrs, b.attrs, names))
            return false;
        if (!a.has)
            return true;
        if (a.str != b.str || a.flag != b.flag || a.hasKey != b.hasKey || a.hasVal != b.hasVal || a.kids.size() != b.kids.size())
            return false;
        for (size_t i = 0; i < a.kids.size(); ++i)
            if (!same(a.kids[i], b.kids[i], names))
                return false;
        return true;
    }
    inline size_t count(const M& m)
    {
        size_t n = 1;
        for (auto& k : m.kids)
            n += count(k);
        for (auto& k : m.meta)
            n += count(k.second);
        for (auto& k : m.attrs)
            n += count(k.second);
        return n;
    }
    inline void show(std::ostream& o, const M& m)
    {
        static const char* n[] = { "null", "str", "num", "bool", "arr", "obj", "mem", "enum", "ref", "ext", "opt", "sel", "holder" };
        o << n[m.kind];
        if (m.name != kindName(m.kind))
            o << ":" << pbt::quote(m.name);
        if (!m.meta.empty() || !m.attrs.empty()) {
            o << "{";
            for (auto& p : m.meta) {
                o << "~" << p.first << "=";
                show(o, p.second);
                o << " ";
            }
            for (auto& p : m.attrs) {
                o << "@" << p.first << "=";
                show(o, p.second);
                o << " ";
            }
            o << "}";
        }
        if (!m.has) {
            o << "-";
            return;
        }
        switch (m.kind) {
            case kNull: o << "()"; break;
            case kString:
            case kNumber:
            case kRef: o << "(" << pbt::quote(m.str) << ")"; break;
            case kBool: o << (m.flag ? "(true)" : "(false)"); break;
            default:
                o << "(";
                if (m.kind == kMember && !m.hasKey)
                    o << "<nokey>";
                for (size_t i = 0; i < m.kids.size(); ++i) {
                    if (i)
                        o << ", ";
                    show(o, m.kids[i]);
                }
                o << ")";
        }
    }
    inline std::string show(const M& m)
    {
        std::ostringstream o;
        show(o, m);
        return o.str();
    }
    inline M leaf(Kind k, const std::string& s)
    {
        M m;
        m.kind = k;
        m.name = kindName(k);
        m.has = true;
        m.str = s;
        return m;
    }
    inline M str(const std::string& s) { return leaf(kString, s); }
    inline M boolean(bool b)
    {
        M m = leaf(kBool, "");
        m.flag = b;
        return m;
    }
    inline M seq(Kind k, const std::vector<M>& kids)
    {
        M m = leaf(k, "");
        m.kids = kids;
        return m;
    }
    inline M member(const M& k, const M& v)
    {
        M m = seq(kMember, { k, v });
        m.hasKey = m.hasVal = true;
        return m;
    }
    inline M none(Kind k)
    {
        M m;
        m.kind = k;
        m.name = kindName(k);
        return m;
    }

    // ---- real elements
    inline std::unique_ptr<IElement> build(const M& m);
    template <typename E>
    std::unique_ptr<IElement> finish(const M& m, E* e)
    {
        std::unique_ptr<IElement> r(e);
        e->element(m.name);
        for (auto& p : m.meta)
            e->meta().set(p.first, build(p.second));
        for (auto& p : m.attrs)
            e->attributes().set(p.first, build(p.second));
        return r;
    }
    template <typename E, typename D>
    std::unique_ptr<IElement> simple(const M& m, D d)
    {
        E* e = m.has ? new E(d) : new E();
        return finish(m, e);
    }
    template <typename E>
    std::unique_ptr<IElement> container(const M& m)
    {
        typedef typename E::ValueType D;
        E* e = new E();
        if (m.has) {
            e->set(D());
            for (auto& k : m.kids)
                e->get().insert(e->get().end(), build(k));
        }
        return finish(m, e);
    }
    template <>
    inline std::unique_ptr<IElement> container<SelectElement>(const M& m)
    {
        SelectElement* e = new SelectElement();
        if (m.has) {
            e->set(dsd::Select());
            for (auto& k : m.kids)
                e->get().insert(e->get().end(), std::unique_ptr<OptionElement>(dynamic_cast<OptionElement*>(build(k).release())));
        }
        return finish(m, e);
    }
    inline std::unique_ptr<IElement> build(const M& m)
    {
        switch (m.kind) {
            case kNull: return simple<NullElement>(m, dsd::Null());
            case kString: return simple<StringElement>(m, dsd::String(m.str));
            case kNumber: return simple<NumberElement>(m, dsd::Number(m.str));
            case kBool: return simple<BooleanElement>(m, dsd::Boolean(m.flag));
            case kRef: return simple<RefElement>(m, dsd::Ref(m.str));
            case kArray: return container<ArrayElement>(m);
            case kObject: return container<ObjectElement>(m);
            case kExtend: return container<ExtendElement>(m);
            case kOption: return container<OptionElement>(m);
            case kSelect: return container<SelectElement>(m);
            case kEnum: {
                EnumElement* e = new EnumElement();
                if (m.has)
                    e->set(m.kids.empty() ? dsd::Enum() : dsd::Enum(build(m.kids[0])));
                return finish(m, e);
            }
            case kHolder: {
                HolderElement* e = new HolderElement();
                if (m.has)
                    e->set(m.kids.empty() ? dsd::Holder() : dsd::Holder(build(m.kids[0])));
                return finish(m, e);
            }
            default: {
                MemberElement* e = new MemberElement();
                if (m.has) {
                    if (m.hasKey)
                        e->set(dsd::Member(build(*m.key()), m.hasVal ? build(*m.val()) : nullptr));
                    else {
                        dsd::Member d;
                        if (m.hasVal)
                            d.value(build(*m.val()));
                        e->set(d);
                    }
                }
                return finish(m, e);
            }
        }
    }
    inline M observe(const IElement& e);
    inline M::Info observe(const InfoElements& i)
    {
        M::Info r;
        for (auto it = i.begin(); it != i.end(); ++it) {
            r.emplace_back(it->first, M());
            if (it->second)
                r.back().second = observe(*it->second);
            else
                r.back().second.name = "<null pointer>";
        }
        return r;
    }
    template <typename C>
    void kidsOf(M& m, const C& c)
    {
        for (auto& k : c) {
            m.kids.emplace_back();
            if (k)
                m.kids.back() = observe(*k);
            else
                m.kids.back().name = "<null pointer>";
        }
    }
    inline M observe(const IElement& e)
    {
        M m;
        m.name = e.element();
        m.has = !e.empty();
        m.meta = observe(e.meta());
        m.attrs = observe(e.attributes());
#define GR_CASE(T, K, CODE)                                                                                           \
    if (auto p = dynamic_cast<const T*>(&e)) {                                                                         \
        m.kind = K;                                                                                                    \
        if (m.has) {                                                                                                   \
            CODE                                                                                                       \
        }                                                                                                              \
        return m;                                                                                                      \
    }
        GR_CASE(NullElement, kNull, (void)p;)
        GR_CASE(StringElement, kString, m.str = p->get().get();)
        GR_CASE(NumberElement, kNumber, m.str = p->get().get();)
        GR_CASE(BooleanElement, kBool, m.flag = p->get().get();)
        GR_CASE(RefElement, kRef, m.str = p->get().symbol();)
        GR_CASE(ArrayElement, kArray, kidsOf(m, p->get());)
        GR_CASE(ObjectElement, kObject, kidsOf(m, p->get());)
        GR_CASE(ExtendElement, kExtend, kidsOf(m, p->get());)
        GR_CASE(OptionElement, kOption, kidsOf(m, p->get());)
        GR_CASE(SelectElement, kSelect, kidsOf(m, p->get());)
        GR_CASE(EnumElement, kEnum, if (p->get().value()) m.kids.push_back(observe(*p->get().value()));)
        GR_CASE(HolderElement, kHolder, if (p->get().data()) m.kids.push_back(observe(*p->get().data()));)
        GR_CASE(MemberElement, kMember, if (p->get().key()) { m.kids.push_back(observe(*p->get().key())); m.hasKey = true; } if (p->get().value()) { m.kids.push_back(observe(*p->get().value())); m.hasVal = true; })
#undef GR_CASE
        m.name = "<unknown element class>";
        return m;
    }

    // ---- generator
    struct Opts {
        std::vector<std::string> typeNames; // names other than the reserved ones that elements may carry
        bool holders = true;
        bool oddMembers = true; // members without key or value, enums and holders without a value
        bool info = true;
        std::vector<std::string> keys = { "a", "b", "c", "d", "" };
        std::vector<std::string> symbols = { "A", "B", "C", "" };
    };
    inline M gen(pbt::Case& c, int depth, const Opts& o, int want = -1);
    inline void genInfo(pbt::Case& c, M& m, int depth, const Opts& o)
    {
        static const std::vector<std::string> mk = { "id", "title", "description", "classes", "ref", "links", "x" };
        static const std::vector<std::string> ak = { "typeAttributes", "default", "samples", "enumerations", "variable", "sourceMap", "href", "x" };
        if (!o.info)
            return;
        size_t n = c.chance(1, 3) ? c.size(3) : 0;
        for (size_t i = 0; i < n; ++i)
            set(m.meta, c.chance(1, 12) ? "m" + std::to_string(c.draw(99)) : c.pick(mk), c.chance(3, 4) ? str(c.pick(o.keys)) : gen(c, depth - 1, o));
        n = c.chance(1, 3) ? c.size(3) : 0;
        for (size_t i = 0; i < n; ++i) {
            std::string k = c.chance(1, 12) ? "a" + std::to_string(c.draw(99)) : c.pick(ak);
            M v;
            if (k == "typeAttributes") {
                static const std::vector<std::string> ta = { "fixed", "fixedType", "required", "optional", "nullable", "x" };
                v = seq(kArray, {});
                size_t t = c.size(3);
                for (size_t j = 0; j < t; ++j)
                    v.kids.push_back(str(c.pick(ta)));
            } else if (k == "samples" || k == "enumerations") {
                v = seq(kArray, {});
                size_t t = 1 + c.size(2);
                for (size_t j = 0; j < t; ++j)
                    v.kids.push_back(gen(c, depth - 1, o));
            } else if (k == "variable")
                v = boolean(c.boolean());
            else
                v = gen(c, depth - 1, o);
            set(m.attrs, k, v);
        }
    }
    inline std::string number(pbt::Case& c)
    {
        static const std::vector<std::string> n = { "0", "1", "-1", "42", "2147483647", "-2147483648", "3.14", "1e5" };
        if (c.chance(1, 8))
            return std::to_string((int)c.draw(20000) - 10000) + (c.boolean() ? "" : "." + std::to_string(1 + 2 * c.draw(49)));
        return c.pick(n);
    }
    inline std::string text(pbt::Case& c, const Opts& o)
    {
        static const std::vector<std::string> odd = { "42", "-1", "true", "null", "string", "object", " x ", "a b", "A", "aa", "ab", "line\nbreak", "\"quoted\"" };
        if (!c.chance(1, 10))
            return c.pick(o.keys);
        switch (c.draw(2)) {
            case 0: return c.pick(odd);
            case 1: return std::string(16 + c.draw(60), (char)('a' + c.draw(2)));
            default: return gt::utf8(c, 6);
        }
    }
    inline M gen(pbt::Case& c, int depth, const Opts& o, int want)
    {
        M m;
        if (want >= 0)
            m.kind = (Kind)want;
        else if (depth <= 0)
            m.kind = c.pick(std::vector<Kind>{ kString, kNumber, kBool, kNull, kRef });
        else
            m.kind = (Kind)c.pick(std::vector<int>{ kString, kNumber, kBool, kNull, kRef, kArray, kObject, kObject, kMember, kEnum, kExtend, kOption, kSelect, o.holders ? kHolder : kArray });
        m.name = !o.typeNames.empty() && c.chance(1, 3) ? c.pick(o.typeNames) : kindName(m.kind);
        m.has = !c.chance(1, 5);
        genInfo(c, m, depth, o);
        if (!m.has)
            return m;
        auto kid = [&] { return gen(c, depth - 1, o); };
        switch (m.kind) {
            case kString: m.str = text(c, o); break;
            case kNumber: m.str = number(c); break;
            case kBool: m.flag = c.boolean(); break;
            case kRef: m.str = c.pick(o.symbols); break;
            case kArray:
            case kExtend:
            case kOption: {
                size_t n = depth > 0 ? c.size(c.chance(1, 20) ? 14 : 4) : 0;
                for (size_t i = 0; i < n; ++i)
                    m.kids.push_back(kid());
                break;
            }
            case kObject: {
                size_t n = depth > 0 ? c.size(c.chance(1, 20) ? 14 : 4) : 0;
                for (size_t i = 0; i < n; ++i)
                    m.kids.push_back(c.chance(1, 5) ? kid() : gen(c, depth - 1, o, kMember));
                break;
            }
            case kSelect: {
                size_t n = depth > 0 ? c.size(3) : 0;
                for (size_t i = 0; i < n; ++i)
                    m.kids.push_back(gen(c, depth - 1, o, kOption));
                break;
            }
            case kEnum:
            case kHolder:
                if (!(o.oddMembers && c.chance(1, 6)))
                    m.kids.push_back(kid());
                break;
            case kMember:
                m.hasKey = !(o.oddMembers && c.chance(1, 12));
                m.hasVal = !(o.oddMembers && c.chance(1, 12));
                if (m.hasKey) {
                    if (c.chance(1, 8))
                        m.kids.push_back(kid());
                    else {
                        M k = str(text(c, o));
                        if (c.chance(1, 10))
                            genInfo(c, k, depth - 1, o);
                        m.kids.push_back(k);
                    }
                }
                if (m.hasVal)
                    m.kids.push_back(kid());
                break;
            default:;
        }
        return m;
    }
    // all nodes below m, itself first, as pointers into it (content, then meta, then attributes)
    inline void nodes(M& m, std::vector<M*>& out)
    {
        out.push_back(&m);
        for (auto& k : m.kids)
            nodes(k, out);
        for (auto& p : m.meta)
            nodes(p.second, out);
        for (auto& p : m.attrs)
            nodes(p.second, out);
    }
}
