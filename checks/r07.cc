// R07: visiting reaches every element exactly once, in document order, as its own kind.
#include "pbt.h"
#include "gen_refract.h"
#include "refract/ElementUtils.h"
#include "refract/FilterVisitor.h"
#include "refract/Iterate.h"
#include "refract/PrintVisitor.h"
#include "refract/Query.h"
#include "refract/TypeQueryVisitor.h"
#include "refract/Visitor.h"

PBT_LEAKS

using namespace gr;
using namespace refract;

static Opts opts(bool odd = true)
{
    Opts o;
    o.typeNames = { "A", "B", "annotation" };
    o.oddMembers = odd;
    return o;
}
// records which overload was called with which element
struct Recorder {
    std::vector<std::pair<int, const IElement*> > seen;
    void add(int k, const IElement& e) { seen.emplace_back(k, &e); }
    void operator()(const IElement& e) { add(-1, e); }
    void operator()(const NullElement& e) { add(kNull, e); }
    void operator()(const HolderElement& e) { add(kHolder, e); }
    void operator()(const StringElement& e) { add(kString, e); }
    void operator()(const NumberElement& e) { add(kNumber, e); }
    void operator()(const BooleanElement& e) { add(kBool, e); }
    void operator()(const ArrayElement& e) { add(kArray, e); }
    void operator()(const EnumElement& e) { add(kEnum, e); }
    void operator()(const MemberElement& e) { add(kMember, e); }
    void operator()(const ObjectElement& e) { add(kObject, e); }
    void operator()(const RefElement& e) { add(kRef, e); }
    void operator()(const ExtendElement& e) { add(kExtend, e); }
    void operator()(const OptionElement& e) { add(kOption, e); }
    void operator()(const SelectElement& e) { add(kSelect, e); }
};
typedef std::vector<std::pair<int, const IElement*> > Walk;
template <typename E>
static void push(const E& e, Walk& w);
static int kindOf(const IElement& e)
{
#define K(T, k)                                                                                                       \
    if (dynamic_cast<const T*>(&e))                                                                                    \
        return k;
    K(NullElement, kNull) K(HolderElement, kHolder) K(StringElement, kString) K(NumberElement, kNumber) K(BooleanElement, kBool)
    K(ArrayElement, kArray) K(EnumElement, kEnum) K(MemberElement, kMember) K(ObjectElement, kObject) K(RefElement, kRef)
    K(ExtendElement, kExtend) K(OptionElement, kOption) K(SelectElement, kSelect)
#undef K
    return -1;
}
static std::vector<const IElement*> kids(const IElement& e)
{
    std::vector<const IElement*> r;
    auto all = [&r](auto* p) {
        if (!p->empty())
            for (auto& k : p->get())
                r.push_back(k.get());
    };
    if (auto p = dynamic_cast<const ArrayElement*>(&e)) all(p);
    else if (auto p = dynamic_cast<const ObjectElement*>(&e)) all(p);
    else if (auto p = dynamic_cast<const ExtendElement*>(&e)) all(p);
    else if (auto p = dynamic_cast<const OptionElement*>(&e)) all(p);
    else if (auto p = dynamic_cast<const SelectElement*>(&e)) all(p);
    return r;
}
static void walk(const IElement& e, Walk& w)
{
    w.emplace_back(kindOf(e), &e);
    if (auto p = dynamic_cast<const MemberElement*>(&e)) {
        if (!p->empty()) {
            if (p->get().key())
                walk(*p->get().key(), w);
            if (p->get().value())
                walk(*p->get().value(), w);
        }
        return;
    }
    for (auto k : kids(e))
        walk(*k, w);
}
static std::string show(const Walk& w)
{
    std::ostringstream o;
    for (auto& p : w)
        o << (p.first < 0 ? "?" : p.first == kHolder ? "holder" : kindName(p.first)) << "@" << p.second << " ";
    return o.str();
}
#define SEES(got, want, key) REQUIRE_((got) == (want), key, "visited " << show(got) << "expected " << show(want))

FACET(visit, 150000, 3000000, "one element of each kind, visited in each way; non-trivial: a value")
{
    M m = gen(c, 1, opts(), (int)c.draw(kKinds - 1));
    c << show(m);
    c.nontrivial(m.has);
    auto e = build(m);
    Walk want{ { m.kind, e.get() } };
    {
        Recorder r;
        VisitBy(*e, r);
        SEES(r.seen, want, "VisitBy");
    }
    {
        Recorder r;
        Visitor v(r);
        e->content(v);
        v.visit(*e);
        Walk two{ { m.kind, e.get() }, { -1, e.get() } };
        SEES(r.seen, two, "content");
    }
    {
        Walk got;
        refract::visit(*e, [&got](const auto& x) { got.emplace_back(kindOf(x), &x); });
        SEES(got, want, "visit");
        std::string s = refract::visit(*e, [](const auto& x) { return std::string(std::decay<decltype(x)>::type::ValueType::name); });
        REQUIRE_(s == kindName(m.kind), "visit result", "the result is " << s);
        const IElement& back = refract::visit(*e, [](const auto& x) -> const IElement& { return x; });
        REQUIRE_(&back == e.get(), "visit reference", "another element comes back");
        int n = refract::visit(*e, [](const auto& x) { return kindOf(x) * 3 + 1; });
        REQUIRE_(n == m.kind * 3 + 1, "visit number", "the result is " << n);
    }
    static const TypeQueryVisitor::ElementType t[] = { TypeQueryVisitor::Null, TypeQueryVisitor::String, TypeQueryVisitor::Number, TypeQueryVisitor::Boolean,
        TypeQueryVisitor::Array, TypeQueryVisitor::Object, TypeQueryVisitor::Member, TypeQueryVisitor::Enum, TypeQueryVisitor::Ref, TypeQueryVisitor::Extend,
        TypeQueryVisitor::Option, TypeQueryVisitor::Select, TypeQueryVisitor::Holder };
    TypeQueryVisitor q, p;
    VisitBy(*e, q);
    Visit(p, *e);
    REQUIRE_(q.get() == t[m.kind] && p.get() == t[m.kind], "kind", "the kind is said to be " << q.get() << " / " << p.get());
}
template <typename E>
static void casts(const M& m, int kind, IElement* e)
{
    const IElement* k = e;
    bool own = m.kind == kind;
    auto is = [&](const void* got, const char* how) {
        REQUIRE_(!!got == own && (!got || got == dynamic_cast<const E*>(k)), "as", how << " " << kindName(kind) << (own ? " is refused to " : " is granted to ") << kindName(m.kind));
    };
    is(TypeQueryVisitor::as<E>(e), "as");
    is(TypeQueryVisitor::as<E>(k), "as const");
    is(TypeQueryVisitor::as<const E>(e), "as");
    is(TypeQueryVisitor::as<const E>(k), "as const");
    is(refract::get<const E>(k), "get");
    is(refract::get<E>(e), "get");
    REQUIRE_(!TypeQueryVisitor::as<E>((IElement*)nullptr) && !TypeQueryVisitor::as<E>((const IElement*)nullptr), "as-none", "nothing is taken for an element");
}
FACET(casts, 60000, 1000000, "one element of each kind, taken for each kind; non-trivial: a value")
{
    M m = gen(c, 1, opts(), (int)c.draw(kKinds - 1));
    c << show(m);
    c.nontrivial(m.has);
    auto e = build(m);
    casts<NullElement>(m, kNull, e.get());
    casts<HolderElement>(m, kHolder, e.get());
    casts<StringElement>(m, kString, e.get());
    casts<NumberElement>(m, kNumber, e.get());
    casts<BooleanElement>(m, kBool, e.get());
    casts<ArrayElement>(m, kArray, e.get());
    casts<EnumElement>(m, kEnum, e.get());
    casts<MemberElement>(m, kMember, e.get());
    casts<ObjectElement>(m, kObject, e.get());
    casts<RefElement>(m, kRef, e.get());
    casts<ExtendElement>(m, kExtend, e.get());
    casts<OptionElement>(m, kOption, e.get());
    casts<SelectElement>(m, kSelect, e.get());
    REQUIRE_(same(observe(*e), m), "changed", "taking it for another changes the element");
}
FACET(iterate, 100000, 1500000, "element trees iterated recursively and over the children, queried by name and by predicate; non-trivial: six or more elements")
{
    M m = gen(c, 4, opts(), c.chance(1, 6) ? -1 : (int)c.pick(std::vector<Kind>{ kObject, kObject, kArray, kExtend, kOption, kSelect, kMember }));
    c << show(m);
    auto e = build(m);
    Walk want;
    walk(*e, want);
    c.nontrivial(want.size() >= 6);
    Recorder r;
    Iterate<Recursive> it(r);
    it(*e);
    SEES(r.seen, want, "recursive");
    if (c.chance(1, 4)) {
        it(*e);
        Walk twice = want;
        twice.insert(twice.end(), want.begin(), want.end());
        SEES(r.seen, twice, "again");
    }
    Recorder d;
    Iterate<Children> direct(d);
    direct(*e);
    Walk children;
    for (auto k : kids(*e))
        children.emplace_back(kindOf(*k), k);
    SEES(d.seen, children, "children");
    if (c.chance(1, 4)) {
        direct(*e);
        Walk twice = children;
        twice.insert(twice.end(), children.begin(), children.end());
        SEES(d.seen, twice, "again");
    }
    // queries
    std::string name = c.chance(1, 8) ? std::string(kindName((int)c.draw(kKinds - 1))) : c.pick(opts().typeNames);
    auto run = [&](auto pred, const std::function<bool(const IElement&)>& ref, const char* key) {
        FilterVisitor f(pred);
        Iterate<Recursive> i(f);
        i(*e);
        std::vector<const IElement*> w;
        for (auto& p : want)
            if (ref(*p.second))
                w.push_back(p.second);
        REQUIRE_(f.elements() == w && f.empty() == w.empty(), key, "the query selects " << f.elements().size() << " elements, expected " << w.size());
    };
    run(query::Element(name), [&](const IElement& x) { return x.element() == name; }, "query");
    run([](const IElement& x) { return x.empty(); }, [](const IElement& x) { return x.empty(); }, "predicate");
    run([](const IElement& x) { return !x.meta().empty() || x.attributes().size() > 1; }, [](const IElement& x) { return !x.meta().empty() || x.attributes().size() > 1; }, "predicate");
}
// the printed tree names every element in order
static void names(const M& m, std::vector<std::string>& out);
static void inner(const M& m, std::vector<std::string>& out)
{
    if (m.kind == kHolder || m.kind == kMember || m.kind == kArray || m.kind == kObject || m.kind == kExtend || m.kind == kOption || m.kind == kEnum)
        for (auto& k : m.kids)
            names(k, out);
    if (m.kind == kSelect)
        for (auto& k : m.kids)
            inner(k, out);
}
static void names(const M& m, std::vector<std::string>& out)
{
    out.push_back(m.name);
    for (auto& p : m.meta)
        names(p.second, out);
    for (auto& p : m.attrs)
        if (p.first != "sourceMap")
            names(p.second, out);
    inner(m, out);
}
static void complete(M& m)
{
    if ((m.kind == kMember || m.kind == kHolder) && !m.has)
        m = str("x");
    for (auto& k : m.kids)
        complete(k);
    for (auto& p : m.meta)
        complete(p.second);
    for (auto& p : m.attrs)
        complete(p.second);
}
FACET(print, 20000, 400000, "element trees printed; non-trivial: six or more elements")
{
    M m = gen(c, 3, opts(false));
    complete(m);
    c << show(m);
    c.nontrivial(count(m) >= 6);
    auto e = build(m);
    std::ostringstream o;
    PrintVisitor p(0, o);
    Visit(p, *e);
    std::vector<std::string> want, got;
    names(m, want);
    std::istringstream in(o.str());
    std::string l;
    while (std::getline(in, l)) {
        size_t i = l.find_first_not_of(' ');
        if (i != std::string::npos && l.compare(i, 2, "+ ") == 0)
            got.push_back(l.substr(i + 2));
    }
    REQUIRE_(got == want, "print", "printed " << o.str());
}
