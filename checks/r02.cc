// R02: element values behave like the containers and scalars they stand for.
#include "pbt.h"
#include "gen_refract.h"
#include "refract/TypeQueryVisitor.h"
#include <climits>

PBT_LEAKS

using namespace gr;
using namespace refract;

static Opts opts()
{
    Opts o;
    o.typeNames = { "A", "B" };
    return o;
}
template <typename E>
struct Child {
    typedef IElement type;
    static std::unique_ptr<IElement> make(const M& m) { return build(m); }
    static M gen(pbt::Case& c)
    {
        if (c.chance(1, 2)) {
            Opts o = opts();
            o.info = false;
            M k = c.chance(5, 6) ? str(c.pick(o.keys)) : gr::gen(c, 0, o);
            M m = member(k, gr::gen(c, 0, o));
            if (c.chance(1, 8)) {
                m.hasVal = false;
                m.kids.pop_back();
            }
            return m;
        }
        return gr::gen(c, 1, opts());
    }
};
template <>
struct Child<SelectElement> {
    typedef OptionElement type;
    static std::unique_ptr<OptionElement> make(const M& m) { return std::unique_ptr<OptionElement>(dynamic_cast<OptionElement*>(build(m).release())); }
    static M gen(pbt::Case& c) { return gr::gen(c, 1, opts(), kOption); }
};
static const std::string* keyOf(const M& m)
{
    if (m.kind == kMember && m.has && m.key() && m.key()->kind == kString && m.key()->has)
        return &m.key()->str;
    return nullptr;
}
static size_t findKey(const std::vector<M>& v, const std::string& k)
{
    for (size_t i = 0; i < v.size(); ++i) {
        auto s = keyOf(v[i]);
        if (s && *s == k)
            return i;
    }
    return v.size();
}
template <typename D>
static std::string diff(const D& d, const std::vector<M>& m)
{
    std::ostringstream o;
    if (d.size() != m.size()) {
        o << "size " << d.size() << " expected " << m.size();
        return o.str();
    }
    if (d.empty() != m.empty())
        return "empty() differs";
    if ((size_t)(d.end() - d.begin()) != m.size())
        return "iterator distance differs";
    size_t i = 0;
    for (auto& e : d) {
        if (!e)
            return "a null child";
        M got = observe(*e);
        if (!same(got, m[i])) {
            o << "child " << i << " is " << show(got) << " expected " << show(m[i]);
            return o.str();
        }
        ++i;
    }
    return "";
}
template <typename E>
struct Extra {
    static bool op(pbt::Case&, typename E::ValueType&, std::vector<M>&) { return false; }
};
template <>
struct Extra<ObjectElement> {
    static bool op(pbt::Case& c, dsd::Object& d, std::vector<M>& m)
    {
        switch (c.draw(2)) {
            case 0: {
                std::string k = c.pick(opts().keys);
                M v = gen(c, 1, opts());
                c << "addMember " << pbt::quote(k);
                auto it = d.addMember(k, build(v));
                size_t at = findKey(m, k);
                if (at < m.size())
                    m.erase(m.begin() + at);
                m.push_back(member(str(k), v));
                REQUIRE_(it == d.end() - 1, "addMember", "the returned position is not the added member");
                return true;
            }
            default: {
                std::string k = c.pick(opts().keys);
                c << "find " << pbt::quote(k);
                auto it = d.find(k);
                size_t at = findKey(m, k);
                REQUIRE_((size_t)(it - d.begin()) == at, "find", "key " << pbt::quote(k) << " found at " << (it - d.begin()) << ", expected " << at << " of " << m.size());
                return true;
            }
        }
    }
};
template <typename E>
static void push(typename E::ValueType&, std::vector<M>& m, const M& x)
{
    m.push_back(x);
}
template <>
void push<ObjectElement>(dsd::Object&, std::vector<M>& m, const M& x)
{
    if (auto k = keyOf(x)) {
        size_t at = findKey(m, *k);
        if (at < m.size())
            m.erase(m.begin() + at);
    }
    m.push_back(x);
}
template <typename E>
static void history(pbt::Case& c)
{
    typedef typename E::ValueType D;
    const size_t N = 3;
    D d[N];
    std::vector<M> m[N];
    size_t ops = 2 + c.draw(14), shared = 0;
    for (size_t i = 0; i < ops; ++i) {
        size_t a = c.draw(N - 1);
        c << "\n" << a << ": ";
        switch (c.weighted({ 5, 4, 2, 2, 1, 1, 1, 1, 1, 2, 2, 3 })) {
            case 0: {
                M x = Child<E>::gen(c);
                c << "push " << show(x);
                d[a].push_back(Child<E>::make(x));
                push<E>(d[a], m[a], x);
                break;
            }
            case 1: {
                M x = Child<E>::gen(c);
                size_t p = c.draw(m[a].size());
                c << "insert@" << p << " " << show(x);
                auto it = d[a].insert(d[a].begin() + p, Child<E>::make(x));
                m[a].insert(m[a].begin() + p, x);
                REQUIRE_((size_t)(it - d[a].begin()) == p, "insert", "the returned position is not the inserted child");
                break;
            }
            case 2: {
                if (m[a].empty())
                    break;
                size_t p = c.draw(m[a].size() - 1);
                c << "erase@" << p;
                auto it = d[a].erase(d[a].begin() + p);
                m[a].erase(m[a].begin() + p);
                REQUIRE_((size_t)(it - d[a].begin()) == p, "erase", "the returned position does not follow the erased child");
                break;
            }
            case 3: {
                size_t p = c.draw(m[a].size()), q = p + c.draw(m[a].size() - p);
                c << "erase " << p << ".." << q;
                auto it = d[a].erase(d[a].begin() + p, d[a].begin() + q);
                m[a].erase(m[a].begin() + p, m[a].begin() + q);
                REQUIRE_((size_t)(it - d[a].begin()) == p, "erase", "the returned position does not follow the erased children");
                break;
            }
            case 4:
                c << "clear";
                d[a].clear();
                m[a].clear();
                break;
            case 5: {
                size_t b = c.draw(N - 1);
                c << "= " << b;
                ++shared;
                d[a] = d[b];
                m[a] = m[b];
                break;
            }
            case 6: {
                size_t b = c.draw(N - 1);
                c << "copy of " << b;
                ++shared;
                D x(d[b]);
                REQUIRE_(x == d[b] && !(d[b] != x), "equal", "a copy is unequal to its source");
                swap(d[a], x);
                m[a] = m[b];
                break;
            }
            case 7: {
                size_t b = c.draw(N - 1);
                if (a == b)
                    break;
                c << "= move " << b;
                d[a] = std::move(d[b]);
                m[a] = m[b];
                d[b] = D();
                m[b].clear();
                break;
            }
            case 8: {
                size_t b = c.draw(N - 1);
                c << "swap " << b;
                if (a != b)
                    swap(d[a], d[b]);
                std::swap(m[a], m[b]);
                break;
            }
            case 9: {
                // a change inside a child shows in no other value
                if (m[a].empty())
                    break;
                size_t p = c.draw(m[a].size() - 1);
                c << "rename child " << p;
                (*(d[a].begin() + p))->element("renamed");
                m[a][p].name = "renamed";
                break;
            }
            case 10: {
                // the children it is made of, kept as they are given
                m[a].clear();
                for (size_t n = 1 + c.draw(2); n; --n)
                    m[a].push_back(Child<E>::gen(c));
                auto x = [&](size_t k) { return Child<E>::make(m[a][k]); };
                c << "made of";
                for (auto& y : m[a])
                    c << " " << show(y);
                d[a] = m[a].size() == 1 ? D(x(0)) : m[a].size() == 2 ? D(x(0), x(1)) : D(x(0), x(1), x(2));
                break;
            }
            default:
                Extra<E>::op(c, d[a], m[a]);
        }
        for (size_t k = 0; k < N; ++k) {
            std::string e = diff(d[k], m[k]);
            REQUIRE_(e.empty(), "content", "value " << k << ": " << e);
        }
        size_t b = c.draw(N - 1);
        bool eq = m[a].size() == m[b].size();
        for (size_t k = 0; eq && k < m[a].size(); ++k)
            eq = same(m[a][k], m[b][k], false);
        REQUIRE_((d[a] == d[b]) == eq && (d[a] != d[b]) == !eq, "equal", "values " << a << " and " << b << " compare " << (d[a] == d[b]) << ", expected " << eq);
    }
    c.nontrivial(shared && ops >= 5);
}
FACET(containers, 60000, 1500000, "histories of up to 15 operations over three values of one of array, object, option, select, extend; non-trivial: five or more operations with a copy among them")
{
    static const char* n[] = { "array", "object", "option", "select", "extend" };
    size_t k = c.weighted({ 2, 4, 1, 2, 1 });
    c << n[k];
    switch (k) {
        case 0: return history<ArrayElement>(c);
        case 1: return history<ObjectElement>(c);
        case 2: return history<OptionElement>(c);
        case 3: return history<SelectElement>(c);
        default: return history<ExtendElement>(c);
    }
}
static std::string seen(const IElement* e) { return e ? show(observe(*e)) : "none"; }
FACET(holders, 60000, 1500000, "members, enums and holders through construction, replacement, claiming, copying, moving and comparing; non-trivial: a nested value")
{
    M k = gen(c, 1, opts()), v = gen(c, 1, opts()), w = gen(c, 1, opts());
    c << show(k) << " / " << show(v) << " / " << show(w);
    c.nontrivial(count(k) + count(v) > 2);
    std::string sk = show(k), sv = show(v), sw = show(w);
    switch (c.draw(2)) {
        case 0: {
            bool text = c.boolean();
            dsd::Member m = text ? dsd::Member(k.str, build(v)) : dsd::Member(build(k), build(v));
            if (text)
                sk = show(str(k.str));
            dsd::Member copy(m);
            REQUIRE_(copy == m && !(copy != m), "equal", "a copied member is unequal");
            REQUIRE_(seen(m.key()) == sk && seen(m.value()) == sv, "member", "got " << seen(m.key()) << " " << seen(m.value()));
            m.value(build(w));
            REQUIRE_(seen(m.key()) == sk && seen(m.value()) == sw, "value", "after setting the value: " << seen(m.key()) << " " << seen(m.value()));
            REQUIRE_(seen(copy.key()) == sk && seen(copy.value()) == sv, "copy", "the copy changed: " << seen(copy.value()));
            REQUIRE_((copy == m) == same(v, w, false), "equal", "comparison of members that differ in their value");
            auto got = m.claim();
            REQUIRE_(seen(got.get()) == sw && !m.value() && seen(m.key()) == sk, "claim", "claimed " << seen(got.get()) << " leaving " << seen(m.value()));
            dsd::Member other;
            REQUIRE_(!other.key() && !other.value(), "member", "a new member is not empty");
            REQUIRE_(!(other == copy) && other != copy, "equal", "an empty member equals another");
            other = copy;
            REQUIRE_(seen(other.key()) == sk && seen(other.value()) == sv && other == copy, "assign", "assigned " << seen(other.value()));
            dsd::Member moved(std::move(other));
            REQUIRE_(seen(moved.key()) == sk && seen(moved.value()) == sv, "move", "moved " << seen(moved.value()));
            swap(moved, m);
            REQUIRE_(seen(m.value()) == sv && !moved.value(), "swap", "swapped " << seen(m.value()));
            break;
        }
        case 1: {
            dsd::Enum e(build(v)), copy(e), o, w2(build(w));
            REQUIRE_(seen(e.value()) == sv && seen(copy.value()) == sv && !o.value(), "enum", "got " << seen(e.value()) << " " << seen(copy.value()));
            REQUIRE_(copy == e && !(o == e) && (w2 == e) == same(v, w, false), "equal", "comparison of enums");
            auto got = e.claim();
            REQUIRE_(seen(got.get()) == sv && !e.value() && seen(copy.value()) == sv && e == o, "claim", "claimed " << seen(got.get()));
            e = w2;
            REQUIRE_(seen(e.value()) == sw && seen(w2.value()) == sw, "assign", "assigned " << seen(e.value()));
            dsd::Enum moved(std::move(e));
            swap(moved, copy);
            REQUIRE_(seen(moved.value()) == sv && seen(copy.value()) == sw, "swap", "swapped " << seen(moved.value()));
            break;
        }
        default: {
            dsd::Holder e(build(v)), copy(e), o, w2(build(w));
            REQUIRE_(seen(e.data()) == sv && seen(copy.data()) == sv && !o.data(), "holder", "got " << seen(e.data()) << " " << seen(copy.data()));
            REQUIRE_(copy == e && !(o == e) && (w2 == e) == same(v, w, false), "equal", "comparison of holders");
            auto got = e.claim();
            REQUIRE_(seen(got.get()) == sv && !e.data() && seen(copy.data()) == sv && e == o, "claim", "claimed " << seen(got.get()));
            e = w2;
            REQUIRE_(seen(e.data()) == sw && seen(w2.data()) == sw, "assign", "assigned " << seen(e.data()));
            dsd::Holder moved(std::move(e));
            swap(moved, copy);
            REQUIRE_(seen(moved.data()) == sv && seen(copy.data()) == sw, "swap", "swapped " << seen(moved.data()));
        }
    }
}
FACET(scalars, 200000, 4000000, "strings, references, numbers and booleans; non-trivial: more than one character or digit")
{
    std::string s = gt::anyBytes(c, 8, true), t = c.boolean() ? s : gt::anyBytes(c, 8, true);
    int64_t n = (int64_t)c.draw(~0ull >> c.draw(63)) * (c.boolean() ? -1 : 1), k = c.boolean() ? n : n + c.range(-1, 1);
    if (k == 0 && n != 0 && (n == LLONG_MAX || n == LLONG_MIN))
        k = n;
    bool b = c.boolean();
    c << pbt::quote(s) << " " << pbt::quote(t) << " " << n << " " << k << " " << b;
    c.nontrivial(s.size() > 1 || n > 9);
    dsd::String a(s), a2(t);
    REQUIRE_(a.get() == s && (const std::string&)a == s && a.empty() == s.empty() && a == s, "string", "got " << pbt::quote(a.get()));
    REQUIRE_((a == a2) == (s == t) && (a != a2) == (s != t) && (a == t) == (s == t), "equal", "comparison of strings");
    dsd::Ref r(s), r2(t);
    REQUIRE_(r.symbol() == s && (r == r2) == (s == t) && (r != r2) == (s != t) && (r == t) == (s == t), "ref", "reference to " << pbt::quote(r.symbol()));
    dsd::Number x(n), y(std::to_string(k));
    REQUIRE_(x.get() == std::to_string(n) && (int64_t)x == n && (int64_t)y == k, "number", "number " << x.get() << " as integer " << (int64_t)x << ", " << y.get() << " as " << (int64_t)y);
    REQUIRE_((x == y) == (n == k) && (x != y) == (n != k), "equal", "comparison of numbers");
    REQUIRE_(dsd::Number(s).get() == s && dsd::Number().get() == "0", "number", "number from text");
    dsd::Boolean p(b), q(!b);
    REQUIRE_(p.get() == b && (bool)p == b && p == dsd::Boolean(b) && !(p == q) && !dsd::Boolean().get(), "boolean", "boolean " << p.get());
    REQUIRE_(dsd::Null() == dsd::Null(), "null", "null differs from null");
    auto e = make_element<StringElement>(s);
    REQUIRE_(!e->empty() && e->get().get() == s && e->element() == "string", "make", "make_element");
    auto f = from_primitive(s);
    REQUIRE_(same(observe(*f), str(s)), "make", "from_primitive of a string is " << show(observe(*f)));
    auto g = from_primitive_t("name", s);
    REQUIRE_(g->element() == "name" && g->get().get() == s, "make", "from_primitive_t");
    REQUIRE_(make_empty<NumberElement>()->empty() && make_empty<NumberElement>()->element() == "number", "make", "make_empty");
}
// which kind an element is
template <typename T>
static void as(const IElement& e, bool expect, const char* name)
{
    auto p = TypeQueryVisitor::as<const T>(&e);
    REQUIRE_((p != nullptr) == expect, "as", "as<" << name << "> is " << (p ? "not null" : "null"));
    REQUIRE_(!p || static_cast<const IElement*>(p) == &e, "as", "as gives another element");
}
FACET(kind, 100000, 2000000, "asking an element for each of the 13 kinds; non-trivial: a value")
{
    M m = gen(c, 1, opts(), (int)c.draw(kKinds - 1));
    c << show(m);
    c.nontrivial(m.has);
    auto e = build(m);
    as<NullElement>(*e, m.kind == kNull, "null");
    as<StringElement>(*e, m.kind == kString, "string");
    as<NumberElement>(*e, m.kind == kNumber, "number");
    as<BooleanElement>(*e, m.kind == kBool, "boolean");
    as<ArrayElement>(*e, m.kind == kArray, "array");
    as<ObjectElement>(*e, m.kind == kObject, "object");
    as<MemberElement>(*e, m.kind == kMember, "member");
    as<EnumElement>(*e, m.kind == kEnum, "enum");
    as<RefElement>(*e, m.kind == kRef, "ref");
    as<ExtendElement>(*e, m.kind == kExtend, "extend");
    as<OptionElement>(*e, m.kind == kOption, "option");
    as<SelectElement>(*e, m.kind == kSelect, "select");
    as<HolderElement>(*e, m.kind == kHolder, "holder");
}
