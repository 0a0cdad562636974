// R09: an element's value, default, sample, literal, key and flags are looked up by fixed precedence.
#include "pbt.h"
#include "gen_types.h"
#include "refract/ElementUtils.h"
#include "refract/VisitorUtils.h"

PBT_LEAKS

using namespace gr;
using namespace refract;

// every node gets a number of its own, so that looking up one that merely looks the same shows
static void number_(M& m, int& n)
{
    if (m.kind != kOption && m.kind != kMember)
        set(m.meta, "uid", str(std::to_string(n++)));
    for (auto& k : m.kids)
        number_(k, n);
    for (auto& p : m.attrs)
        number_(p.second, n);
}
static M element(pbt::Case& c, int kind)
{
    M m = type(c, 2, kind);
    auto mate = [&] { return type(c, 1, c.chance(3, 4) ? kind : -1); };
    if (c.chance(1, 3)) {
        M s = seq(kArray, { mate() });
        if (c.boolean())
            s.kids.push_back(mate());
        set(m.attrs, "samples", s);
    }
    if (c.chance(1, 3))
        set(m.attrs, "default", mate());
    if (c.chance(1, 3)) {
        m.has = false;
        m.kids.clear();
    }
    if (kind == kEnum && m.attr("enumerations") && c.boolean()) {
        M& e = find(m.attrs, "enumerations")->second;
        e.has = true;
        for (size_t n = c.size(3); n; --n)
            e.kids.push_back(type(c, 1, c.boolean() ? kEnum : -1));
    }
    int n = 0;
    number_(m, n);
    return m;
}
static bool is(const M* m, const IElement* e)
{
    if (!m || !e)
        return !m && !e;
    return same(*m, observe(*e));
}
static std::string name(const M* m) { return m ? show(*m) : "nothing"; }
static std::string name(const IElement* e) { return e ? show(observe(*e)) : "nothing"; }
#define SAME_(key, want, got, what) REQUIRE_(is(want, got), key, what << " is " << name(got) << " instead of " << name(want))

static const M* sampleOf(const M& m)
{
    auto s = firstSample(m);
    return s && s->kind == m.kind ? s : nullptr;
}
static const M* defaultOf(const M& m)
{
    auto d = m.attr("default");
    return d && d->kind == m.kind ? d : nullptr;
}
static const M* enumValue(const M& m)
{
    if (auto s = sampleOf(m))
        return enumValue(*s);
    if (auto d = defaultOf(m))
        return enumValue(*d);
    if (m.has && !m.kids.empty())
        return &m.kids[0];
    auto e = m.attr("enumerations");
    if (e && e->kind == kArray && e->has)
        for (auto& x : e->kids) {
            if (x.kind == kEnum)
                if (auto v = enumValue(x))
                    return v;
            if (x.has)
                return &x;
        }
    return nullptr;
}
template <typename T>
static void lookups(pbt::Case& c, const M& m, const IElement& e)
{
    auto& t = dynamic_cast<const T&>(e);
    SAME_("default", defaultOf(m), GetDefault(t), "the default");
    SAME_("sample", sampleOf(m), GetSample(t), "the sample");
    SAME_("value", valueOf(m), GetValue<T>()(t), "the value");
}
FACET(value, 120000, 2500000, "two or more of value, samples, default and enumerations compete")
{
    static const std::vector<int> kinds = { kString, kNumber, kBool, kArray, kObject, kEnum, kEnum, kNull, kMember };
    int kind = c.pick(kinds);
    M m = element(c, kind);
    c << show(m);
    auto e = build(m);
    switch (kind) {
        case kString: lookups<StringElement>(c, m, *e); break;
        case kNumber: lookups<NumberElement>(c, m, *e); break;
        case kBool: lookups<BooleanElement>(c, m, *e); break;
        case kArray: lookups<ArrayElement>(c, m, *e); break;
        case kObject: lookups<ObjectElement>(c, m, *e); break;
        case kEnum: {
            auto& t = dynamic_cast<const EnumElement&>(*e);
            SAME_("default", defaultOf(m), GetDefault(t), "the default");
            SAME_("sample", sampleOf(m), GetSample(t), "the sample");
            SAME_("enum-value", enumValue(m), GetValue<EnumElement>()(t), "the value");
            break;
        }
        default:;
    }
    // of any kind
    auto d = m.attr("default");
    auto s = firstSample(m);
    SAME_("find-default", d, findDefault(*e), "the default of any kind");
    REQUIRE_(hasDefault(*e) == !!d, "has-default", "a default is " << (d ? "missed" : "made up"));
    SAME_("find-sample", s, findFirstSample(*e), "the first sample");
    SAME_("find-value", m.has ? &m : s ? s : d, findValue(*e), "the value of any kind");
    REQUIRE_(definesValue(*e) == defines(m), "defines", "a value is " << (defines(m) ? "missed" : "made up"));
    REQUIRE_(same(observe(*e), m), "changed", "looking up changes the element");
    int n = m.has + !!s + !!d + !!m.attr("enumerations");
    if (n >= 2)
        c.nontrivial();
    c.label(std::string(kindName(kind)) + (m.has ? " own" : s ? " sample" : d ? " default" : " none"));
}

static bool inherits(const M& m)
{
    switch (m.kind) {
        case kArray:
        case kString:
        case kNumber:
        case kBool: return defines(m);
        case kMember: return !variable(m) && (m.has ? inherits(*m.val()) : !!m.attr("default"));
        case kEnum: return m.has ? inherits(m.kids[0]) : !!m.attr("default");
        case kExtend: return inherits(mergeAll(m.kids));
        default: return true;
    }
}
// what inheriting is asked of has what it consists of
static bool whole(const M& m)
{
    if (m.kind == kMember && m.has && !m.hasVal)
        return false;
    if (m.kind == kEnum && m.has && m.kids.empty())
        return false;
    if (m.kind == kExtend && (!m.has || m.kids.empty()))
        return false;
    for (auto& k : m.kids)
        if (!whole(k))
            return false;
    for (auto& a : m.attrs)
        if (!whole(a.second))
            return false;
    return true;
}
FACET(flags, 100000, 2000000, "the element has type attributes, a variable marker or a description")
{
    M m = type(c, 2);
    dropArrayWithoutValue(m);
    if (c.chance(1, 3))
        set(m.meta, c.pick(std::vector<std::string>{ "description", "Description", "title" }), c.chance(1, 4) ? type(c, 0) : str(c.chance(1, 4) ? "" : "text"));
    if (c.chance(1, 6))
        set(m.attrs, "description", str("not this"));
    c << show(m);
    auto e = build(m);
    static const std::vector<std::string> t = { "fixed", "fixedType", "nullable", "required", "optional", "Fixed", "fixed ", "fix", "default" };
    for (auto& x : t) {
        bool want = typeAttr(m, x);
        REQUIRE_(HasTypeAttribute(*e, x) == want, "type-attribute", "the type attribute " << pbt::quote(x) << " is " << (want ? "missed" : "made up"));
        REQUIRE_(hasTypeAttr(*e, x.c_str()) == want, "type-attr", "the type attribute " << pbt::quote(x) << " is " << (want ? "missed" : "made up") << " by hasTypeAttr");
    }
    REQUIRE_(hasFixedTypeAttr(*e) == typeAttr(m, "fixed"), "fixed", "fixed");
    REQUIRE_(hasFixedTypeTypeAttr(*e) == typeAttr(m, "fixedType"), "fixedType", "fixedType");
    REQUIRE_(hasRequiredTypeAttr(*e) == typeAttr(m, "required"), "required", "required");
    REQUIRE_(hasOptionalTypeAttr(*e) == typeAttr(m, "optional"), "optional", "optional");
    REQUIRE_(hasNullableTypeAttr(*e) == typeAttr(m, "nullable"), "nullable", "nullable");
    REQUIRE_(IsVariableProperty(*e) == variable(m), "variable", "a variable marker is " << (variable(m) ? "missed" : "made up"));
    REQUIRE_(isVariable(*e) == variable(m), "is-variable", "a variable marker is " << (variable(m) ? "missed" : "made up") << " by isVariable");
    auto d = m.metaOf("description");
    SAME_("description", d && d->kind == kString ? d : nullptr, GetDescription(*e), "the description");
    bool literal = m.kind != kNull && ((m.has && (m.kind == kString || m.kind == kNumber || m.kind == kBool)) || typeAttr(m, "fixed"));
    REQUIRE_(IsLiteral(*e) == literal, "literal", "it is " << (literal ? "" : "not ") << "a literal");
    for (auto& k : { "default", "samples", "typeAttributes", "variable", "resolved", "x" }) {
        auto a = m.attr(k);
        SAME_("attribute-array", a && a->kind == kArray ? a : nullptr, FindCollectionMemberValue<ArrayElement>(e->attributes(), k), "the array attribute " << k);
        SAME_("attribute-string", a && a->kind == kString ? a : nullptr, FindCollectionMemberValue<StringElement>(e->attributes(), k), "the string attribute " << k);
        SAME_("attribute-object", a && a->kind == kObject ? a : nullptr, FindCollectionMemberValue<ObjectElement>(e->attributes(), k), "the object attribute " << k);
    }
    if (m.kind == kRef)
        SAME_("resolved", m.attr("resolved"), resolve(dynamic_cast<const RefElement&>(*e)), "what the reference resolves to");
    if (whole(m)) {
        try {
            bool want = inherits(m);
            REQUIRE_(inheritsFixed(*e) == want, "inherits-fixed", "a fixed parent is " << (want ? "not " : "") << "inherited from");
        } catch (const MergeError&) {
        }
    }
    REQUIRE_(same(observe(*e), m), "changed", "looking up changes the element");
    if (m.attr("typeAttributes") || m.attr("variable") || d)
        c.nontrivial();
    c.label(m.kind == kHolder ? "holder" : kindName(m.kind));
}

static std::string keyText(const M& k)
{
    if (k.kind == kExtend)
        return keyText(mergeAll(k.kids));
    if (k.kind != kString)
        return "";
    if (k.has)
        return k.str;
    if (auto s = firstSample(k))
        return keyText(*s);
    if (auto d = k.attr("default"))
        return keyText(*d);
    return "";
}
static M key(pbt::Case& c, int depth)
{
    static const std::vector<std::string> keys = { "a", "b", "ab", "A", "", "a b", "\xC3\xA9" };
    if (depth && c.chance(1, 4)) {
        M k = seq(kExtend, {});
        for (size_t n = 1 + c.size(2); n; --n)
            k.kids.push_back(key(c, 0));
        return k;
    }
    M k = c.chance(1, 4) ? none(kString) : str(c.pick(keys));
    if (c.chance(1, 4))
        set(k.attrs, "samples", seq(kArray, { str(c.pick(keys)), str(c.pick(keys)) }));
    if (c.chance(1, 4))
        set(k.attrs, "default", c.chance(1, 4) ? none(kString) : str(c.pick(keys)));
    if (c.chance(1, 8))
        set(k.attrs, "typeAttributes", seq(kArray, { str("nullable") }));
    return k;
}
FACET(keys, 80000, 1500000, "two or more members, one of which has the key looked for")
{
    M o = seq(kObject, {});
    int uid = 0;
    for (size_t n = c.size(6); n; --n) {
        M m = member(key(c, 1), leaf(kNumber, std::to_string(uid++)));
        if (c.chance(1, 12))
            m = seq(kSelect, { seq(kOption, { m }) });
        else if (c.chance(1, 12))
            m = leaf(kRef, "a");
        else if (c.chance(1, 20))
            m = none(kMember);
        o.kids.push_back(m);
    }
    c << show(o);
    auto e = build(o);
    auto& obj = dynamic_cast<const ObjectElement&>(*e);
    size_t i = 0, hit = 0;
    for (auto& x : obj.get()) {
        auto& m = o.kids[i++];
        if (m.kind != kMember)
            continue;
        std::string got = GetKeyAsString(dynamic_cast<const MemberElement&>(*x)), want = keyString(m);
        REQUIRE_(got == want, "key", "the key is read as " << pbt::quote(got) << " instead of " << pbt::quote(want));
        if (m.has && m.hasKey) {
            std::string r = renderKey(*dynamic_cast<const MemberElement&>(*x).get().key());
            want = keyText(*m.key());
            REQUIRE_(r == want, "render-key", "the key is rendered as " << pbt::quote(r) << " instead of " << pbt::quote(want));
        }
    }
    for (auto& k : { "a", "b", "ab", "A", "a b", "\xC3\xA9", "c" }) {
        const M* want = nullptr;
        bool vague = false;
        for (auto& m : o.kids)
            if (m.kind == kMember && m.has && m.hasKey && !want) {
                if (m.key()->kind == kString && m.key()->has && m.key()->str == k)
                    want = &m;
                else if (keyText(*m.key()) == k) // keys which only inherit or default to the text
                    vague = true;
            }
        const MemberElement* got = FindMemberByKey(obj, k);
        if (vague && got && !is(want, got))
            continue;
        SAME_("find", want, got, "the member " << k);
        hit += !!want;
    }
    REQUIRE_(same(observe(*e), o), "changed", "looking up changes the object");
    if (hit && o.kids.size() > 1)
        c.nontrivial();
}

// adding type attributes, defaults, samples and enumerations keeps what is there
FACET(add, 60000, 1000000, "three or more additions, two of the same sort")
{
    M m = none(c.pick(std::vector<Kind>{ kString, kNumber, kEnum, kArray, kObject }));
    if (c.boolean())
        set(m.attrs, "x", str("y"));
    auto e = build(m);
    size_t n = c.size(8), sorts[4] = { 0, 0, 0, 0 };
    int uid = 0;
    for (size_t i = 0; i < n; ++i) {
        static const std::vector<std::string> t = { "fixed", "fixedType", "nullable", "required", "optional" };
        int what = (int)c.draw(3);
        ++sorts[what];
        M v = str(std::to_string(uid++));
        const char* attr[] = { "typeAttributes", "default", "samples", "enumerations" };
        if (what == 0) {
            std::string x = c.pick(t);
            c << x << " ";
            if (x == "fixed" && c.boolean())
                setFixedTypeAttribute(*e);
            else
                setTypeAttribute(*e, x);
            if (!typeAttr(m, x))
                tag(m, x);
        } else if (what == 1) {
            c << "default ";
            setDefault(*e, build(v));
            set(m.attrs, "default", v);
        } else {
            c << attr[what] << " ";
            if (what == 2)
                addSample(*e, build(v));
            else
                addEnumeration(*e, build(v));
            auto it = find(m.attrs, attr[what]);
            if (it == m.attrs.end())
                set(m.attrs, attr[what], seq(kArray, { v }));
            else
                it->second.kids.push_back(v);
        }
        M got = observe(*e);
        REQUIRE_(same(got, m), std::string("add-") + attr[what], "the element is " << show(got) << " instead of " << show(m));
    }
    if (n >= 3 && (sorts[0] > 1 || sorts[1] > 1 || sorts[2] > 1 || sorts[3] > 1))
        c.nontrivial();
}
