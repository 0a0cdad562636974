// R01: clones and copies of an element hold what the clone flags select and share nothing; equality is structural.
#include "gen_refract.h"

PBT_LEAKS
using namespace gr;

static Opts opts()
{
    Opts o;
    o.typeNames = { "T", "U" };
    return o;
}
static M project(const M& m, int flags)
{
    M r = none(m.kind);
    if (flags & IElement::cElement)
        r.name = m.name;
    if (flags & IElement::cAttributes)
        r.attrs = m.attrs;
    if (flags & IElement::cMeta) {
        r.meta = m.meta;
        if (flags & IElement::cNoMetaId)
            erase(r.meta, "id");
    }
    if (flags & IElement::cValue) {
        r.has = m.has;
        r.str = m.str;
        r.flag = m.flag;
        r.kids = m.kids;
        r.hasKey = m.hasKey;
        r.hasVal = m.hasVal;
    }
    return r;
}
// changes something in the element and its model alike
static void mutate(pbt::Case& c, IElement& e, M& m)
{
    switch (c.draw(4)) {
        case 0: e.element("changed"); m.name = "changed"; return;
        case 1: e.meta().set("id", build(str("changed"))); set(m.meta, "id", str("changed")); return;
        case 2: e.attributes().set("default", build(str("changed"))); set(m.attrs, "default", str("changed")); return;
        case 3: e.meta().clear(); m.meta.clear(); return;
        default:;
    }
    m.has = true;
    auto grow = [&](auto* p) {
        if (p->empty()) {
            p->set();
            m.kids.clear();
        }
        if (!p->get().empty() && c.boolean()) {
            IElement& k = **p->get().begin();
            mutate(c, k, m.kids[0]);
        } else {
            p->get().insert(p->get().begin(), build(str("changed")));
            m.kids.insert(m.kids.begin(), str("changed"));
        }
    };
    if (auto p = dynamic_cast<StringElement*>(&e)) {
        p->set(dsd::String("changed"));
        m.str = "changed";
    } else if (auto p = dynamic_cast<NumberElement*>(&e)) {
        p->set(dsd::Number("77"));
        m.str = "77";
    } else if (auto p = dynamic_cast<BooleanElement*>(&e)) {
        p->set(dsd::Boolean(!m.flag));
        m.flag = !m.flag;
    } else if (auto p = dynamic_cast<RefElement*>(&e)) {
        p->set(dsd::Ref("changed"));
        m.str = "changed";
    } else if (auto p = dynamic_cast<ArrayElement*>(&e))
        grow(p);
    else if (auto p = dynamic_cast<ObjectElement*>(&e))
        grow(p);
    else if (auto p = dynamic_cast<ExtendElement*>(&e))
        grow(p);
    else if (auto p = dynamic_cast<OptionElement*>(&e))
        grow(p);
    else if (auto p = dynamic_cast<EnumElement*>(&e)) {
        p->set(dsd::Enum(build(str("changed"))));
        m.kids = { str("changed") };
    } else if (auto p = dynamic_cast<HolderElement*>(&e)) {
        p->set(dsd::Holder(build(str("changed"))));
        m.kids = { str("changed") };
    } else if (auto p = dynamic_cast<MemberElement*>(&e)) {
        if (p->empty()) {
            p->set();
            m.kids.clear();
            m.hasKey = m.hasVal = false;
        }
        p->get().value(build(str("changed")));
        if (m.hasVal)
            m.kids.pop_back();
        m.kids.push_back(str("changed"));
        m.hasVal = true;
    } else if (auto p = dynamic_cast<SelectElement*>(&e)) {
        if (p->empty())
            p->set();
        p->get().clear();
        m.kids.clear();
    } else if (auto p = dynamic_cast<NullElement*>(&e))
        p->set();
}
#define SEES(el, model, key, what)                                                                                    \
    do {                                                                                                              \
        M got = observe(el);                                                                                          \
        REQUIRE_(same(got, model), key, what << " is " << show(got) << " expected " << show(model));                  \
    } while (0)

FACET(clone, 60000, 1500000, "element trees of all 13 kinds with meta, attributes and odd content, cloned with every flag combination and then changed on one side; non-trivial: four or more elements")
{
    M m = gen(c, 3, opts());
    int flags = c.chance(1, 2) ? IElement::cAll : (int)c.draw(31);
    c << show(m) << " flags=" << flags;
    c.nontrivial(count(m) >= 4);
    auto e = build(m);
    SEES(*e, m, "build", "the built element");
    auto k = c.boolean() || flags != IElement::cAll ? e->clone(flags) : refract::clone(*e);
    M p = project(m, flags);
    SEES(*k, p, "clone", "the clone");
    SEES(*e, m, "source", "the source after cloning");
    size_t n = 1 + c.size(3);
    for (size_t i = 0; i < n; ++i) {
        bool side = c.boolean();
        mutate(c, side ? *k : *e, side ? p : m);
        SEES(*k, p, "independence", "the clone after a change of the " << (side ? "clone" : "source"));
        SEES(*e, m, "independence", "the source after a change of the " << (side ? "clone" : "source"));
    }
    if (c.boolean()) {
        e.reset();
        SEES(*k, p, "independence", "the clone after its source is gone");
    }
}
template <typename E>
static void copies(pbt::Case& c, M& m, M& m2, std::unique_ptr<IElement>& a, std::unique_ptr<IElement>& b)
{
    E& x = dynamic_cast<E&>(*a);
    E& y = dynamic_cast<E&>(*b);
    switch (c.draw(3)) {
        case 0: {
            E z(x);
            SEES(z, m, "copy", "the copy");
            M mz = m;
            mutate(c, z, mz);
            SEES(x, m, "copy", "the source after its copy changed");
            SEES(z, mz, "copy", "the changed copy");
            break;
        }
        case 1: {
            y = x;
            SEES(y, m, "assign", "the assigned element");
            M mz = m;
            mutate(c, x, m);
            SEES(y, mz, "assign", "the assigned element after a change of the source");
            SEES(x, m, "assign", "the changed source");
            break;
        }
        case 2: {
            E z(std::move(x));
            SEES(z, m, "move", "the move constructed element");
            break;
        }
        default: {
            y = std::move(x);
            SEES(y, m, "move", "the move assigned element");
        }
    }
}
FACET(copies, 40000, 800000, "copy and move construction and assignment of whole elements, then a change of one side; non-trivial: four or more elements")
{
    Kind k = (Kind)c.draw(kKinds - 1);
    M m = gen(c, 2, opts(), k), n = gen(c, 2, opts(), k);
    c << show(m) << " over " << show(n);
    c.nontrivial(count(m) >= 4);
    auto a = build(m), b = build(n);
    switch (k) {
        case kNull: copies<NullElement>(c, m, n, a, b); break;
        case kString: copies<StringElement>(c, m, n, a, b); break;
        case kNumber: copies<NumberElement>(c, m, n, a, b); break;
        case kBool: copies<BooleanElement>(c, m, n, a, b); break;
        case kArray: copies<ArrayElement>(c, m, n, a, b); break;
        case kObject: copies<ObjectElement>(c, m, n, a, b); break;
        case kMember: copies<MemberElement>(c, m, n, a, b); break;
        case kEnum: copies<EnumElement>(c, m, n, a, b); break;
        case kRef: copies<RefElement>(c, m, n, a, b); break;
        case kExtend: copies<ExtendElement>(c, m, n, a, b); break;
        case kOption: copies<OptionElement>(c, m, n, a, b); break;
        case kSelect: copies<SelectElement>(c, m, n, a, b); break;
        default: copies<HolderElement>(c, m, n, a, b);
    }
}
FACET(equality, 80000, 2000000, "pairs of equal, nearly equal (one node changed) and unrelated element trees; non-trivial: nearly equal")
{
    M m = gen(c, 3, opts()), n = m;
    int how = (int)c.weighted({ 2, 6, 1 });
    if (how == 2)
        n = gen(c, 3, opts());
    else if (how == 1) {
        std::vector<M*> all;
        nodes(n, all);
        M& t = *all[c.draw(all.size() - 1)];
        c.nontrivial();
        switch (c.draw(7)) {
            case 0: t.name = t.name == "other" ? "another" : "other"; break; // not looked at
            case 1: t.has = !t.has; if (!t.has) { t.str.clear(); t.kids.clear(); t.flag = t.hasKey = t.hasVal = false; } else if (t.kind == kNumber) t.str = "0"; break;
            case 2: if (t.meta.empty()) set(t.meta, "title", str("x")); else t.meta.erase(t.meta.begin() + c.draw(t.meta.size() - 1)); break;
            case 3: if (t.attrs.empty()) set(t.attrs, "x", boolean(true)); else t.attrs.erase(t.attrs.begin() + c.draw(t.attrs.size() - 1)); break;
            case 4:
                if (t.kids.empty() || t.kind == kMember)
                    t.str += t.kind == kString || t.kind == kRef ? "x" : "";
                else
                    t.kids.pop_back();
                break;
            case 5: if (t.kind == kBool && t.has) t.flag = !t.flag; else if (t.kind == kNumber && t.has) t.str += "0"; else if (t.kind == kString && t.has) t.str += 'x'; break;
            case 6: if (t.kids.size() >= 2 && t.kind != kMember) std::swap(t.kids.front(), t.kids.back()); else if (t.meta.size() > 1) std::swap(t.meta[0], t.meta[1]); break;
            default:
                if (!t.meta.empty())
                    t.meta.back().first += "x";
                else if (!t.attrs.empty())
                    t.attrs.back().first += "x";
        }
    }
    c << show(m) << " vs " << show(n);
    auto a = build(m), b = build(n);
    bool e = same(m, n, false);
    REQUIRE_((*a == *b) == e, "equal", "compared as " << (*a == *b) << ", expected " << e);
    REQUIRE_((*b == *a) == e, "symmetric", "the reverse comparison differs");
    REQUIRE_((*a != *b) == !e, "unequal", "!= does not negate ==");
    REQUIRE_(*a == *a, "reflexive", "an element is unequal to itself");
    REQUIRE_(*a == *refract::clone(*a), "clone", "an element is unequal to its clone");
    REQUIRE_((a->meta() == b->meta()) == same(m.meta, n.meta, false) && (a->attributes() != b->attributes()) == !same(m.attrs, n.attrs, false), "info", "the comparison of meta or attributes differs");
}
