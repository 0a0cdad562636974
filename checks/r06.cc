// R06: expansion resolves every type and reference, and terminates.
#include "pbt.h"
#include "ref_expand.h"
#include "refract/ExpandVisitor.h"
#include "refract/IsExpandableVisitor.h"
#include "refract/Registry.h"
#include "refract/VisitorUtils.h"

PBT_LEAKS

using namespace gr;
using namespace refract;

static const std::vector<std::string> T = { "T0", "T1", "T2", "T3", "T4" };
struct World {
    Types types = baseTypes();
    std::map<std::string, Kind> kinds;
    size_t n = 0;
};
// an element whose names and symbols come from the types (and, seldom, name an unknown one)
static M content(pbt::Case& c, const World& w, int depth, int want = -1, bool info = true)
{
    Opts o;
    o.info = false;
    int k = want;
    if (k < 0) {
        if (depth <= 0)
            k = c.pick(std::vector<int>{ kString, kNumber, kBool, kObject, kArray, kEnum, kNull });
        else
            k = c.pick(std::vector<int>{ kString, kNumber, kBool, kObject, kObject, kObject, kArray, kArray, kEnum, kEnum, kNull, kHolder, kExtend });
    }
    std::string typeName;
    if (c.chance(1, 2)) {
        typeName = c.chance(1, 12) ? "Unknown" : T[c.draw(w.n ? w.n - 1 : 0)];
        auto it = w.kinds.find(typeName);
        // an element and the type it names are of one kind
        if (it != w.kinds.end() && want < 0)
            k = it->second;
        else if (it != w.kinds.end() && it->second != k)
            typeName.clear();
    }
    M m = depth > 0 ? M() : gr::gen(c, 0, o, k);
    if (depth > 0) {
        m.kind = (Kind)k;
        m.name = kindName(k);
        m.has = !c.chance(1, 5);
        if (m.has)
            switch (m.kind) {
                case kString:
                case kNumber:
                case kBool:
                case kRef: m = gr::gen(c, 0, o, k); break;
                case kArray: {
                    size_t n = c.size(3);
                    for (size_t i = 0; i < n; ++i)
                        m.kids.push_back(c.chance(1, 6) ? leaf(kRef, c.pick(T)) : content(c, w, depth - 1));
                    break;
                }
                case kExtend: {
                    size_t n = c.size(2);
                    for (size_t i = 0; i < n; ++i)
                        m.kids.push_back(content(c, w, depth - 1));
                    break;
                }
                case kObject: {
                    size_t n = c.size(3);
                    for (size_t i = 0; i < n; ++i)
                        switch (c.weighted({ 8, 2, 1 })) {
                            case 0: {
                                M key = c.chance(1, 5) ? content(c, w, 0, kString) : str(c.pick(o.keys));
                                M x = member(key, content(c, w, depth - 1));
                                if (c.chance(1, 8))
                                    set(x.meta, c.pick(std::vector<std::string>{ "id", "title", "description" }), str(c.pick(o.keys)));
                                if (c.chance(1, 8))
                                    set(x.attrs, c.pick(std::vector<std::string>{ "variable", "typeAttributes", "x" }), seq(kArray, { str("required") }));
                                if (c.chance(1, 12)) {
                                    x.hasVal = false;
                                    x.kids.pop_back();
                                }
                                bool twice = false; // the keys of an object are unique
                                for (auto& y : m.kids)
                                    twice = twice || (y.kind == kMember && y.kids[0].has && x.kids[0].has && y.kids[0].str == x.kids[0].str);
                                if (!twice)
                                    m.kids.push_back(x);
                                break;
                            }
                            case 1: m.kids.push_back(leaf(kRef, c.chance(1, 8) ? std::string() : c.chance(1, 8) ? "string" : c.pick(T))); break;
                            default: {
                                M s = seq(kSelect, {});
                                size_t p = 1 + c.size(2);
                                for (size_t j = 0; j < p; ++j) {
                                    M op = seq(kOption, {});
                                    size_t q = c.size(2);
                                    for (size_t l = 0; l < q; ++l)
                                        op.kids.push_back(member(str(c.pick(o.keys)), content(c, w, depth - 1)));
                                    s.kids.push_back(op);
                                }
                                if (c.chance(1, 4))
                                    set(s.attrs, "x", str("y"));
                                if (c.chance(1, 8))
                                    set(s.meta, c.boolean() ? "id" : "title", str("y"));
                                m.kids.push_back(s);
                            }
                        }
                    break;
                }
                case kEnum:
                case kHolder:
                    if (!c.chance(1, 4))
                        m.kids.push_back(content(c, w, depth - 1));
                    break;
                default:;
            }
    }
    if (!typeName.empty() && k != kNull && k != kHolder && k != kExtend && k != kRef)
        m.name = typeName;
    if (m.kind == kEnum && c.boolean()) {
        M e = seq(kArray, {});
        size_t n = 1 + c.size(2);
        for (size_t i = 0; i < n; ++i)
            e.kids.push_back(content(c, w, depth - 1));
        set(m.attrs, "enumerations", e);
    }
    if (m.kind == kRef && c.chance(1, 10)) // as if it had been expanded before
        set(m.attrs, "resolved", c.boolean() ? none(kObject) : str("x"));
    if (info && c.chance(1, 3)) {
        if (c.boolean())
            set(m.meta, c.pick(std::vector<std::string>{ "id", "title", "description", "ref" }), str(c.pick(o.keys) + "i"));
        if (c.boolean())
            set(m.attrs, c.pick(std::vector<std::string>{ "default", "x", "sourceMap" }), gr::gen(c, 0, o));
        if (c.boolean())
            set(m.attrs, "typeAttributes", seq(kArray, { str(c.boolean() ? "fixed" : "required") }));
    }
    return m;
}
static World world(pbt::Case& c)
{
    World w;
    w.n = 1 + c.draw(3);
    for (size_t i = 0; i < w.n; ++i)
        w.kinds[T[i]] = c.pick(std::vector<Kind>{ kObject, kObject, kArray, kString, kEnum });
    for (size_t i = 0; i < w.n; ++i) {
        M m = content(c, w, 2, w.kinds[T[i]]);
        if (m.name == T[i] && !c.chance(1, 4)) // deriving from itself is the exception
            m.name = kindName(m.kind);
        set(m.meta, "id", str(T[i]));
        w.types[T[i]] = m;
        c << T[i] << " = " << show(m) << "\n";
    }
    return w;
}
static bool usesTypes(const M& m)
{
    // something in the content of m is looked up when it is expanded
    if (m.kind == kRef)
        return true;
    if (m.kind != kHolder && !reservedName(m.name))
        return true;
    if (m.kind == kHolder)
        return false;
    for (auto& k : m.kids)
        if (usesTypes(k))
            return true;
    if (m.kind == kEnum)
        if (auto e = m.attr("enumerations"))
            for (auto& k : e->kids)
                if (usesTypes(k))
                    return true;
    return false;
}
static bool hasHolder(const M& m)
{
    if (m.kind == kHolder)
        return true;
    for (auto& k : m.kids)
        if (hasHolder(k))
            return true;
    if (auto e = m.attr("enumerations"))
        for (auto& k : e->kids)
            if (hasHolder(k))
                return true;
    return false;
}
static void fill(Registry& r, const World& w, pbt::Case& c)
{
    std::vector<std::string> order;
    for (size_t i = 0; i < w.n; ++i)
        order.insert(order.begin() + c.draw(order.size()), T[i]);
    for (auto& t : order)
        REQUIRE_(r.add(build(w.types.at(t))), "add", "registering " << t << " is refused");
}
static void named(const M& m, const Types& t, bool top = true)
{
    // no use of a registered type is left in the content
    REQUIRE_(reservedName(m.name) || m.kind == kHolder || !t.count(m.name), "resolved", "a use of " << m.name << " is left: " << show(m));
    if (m.kind == kHolder)
        return;
    for (auto& k : m.kids)
        named(k, t);
    if (m.kind == kEnum && (m.has || !m.metaOf("ref"))) // a mark keeps its attributes as they are
        if (auto e = m.attr("enumerations"))
            for (auto& k : e->kids)
                named(k, t);
    if (m.kind == kRef)
        if (auto r = m.attr("resolved"))
            named(*r, t);
}
FACET(expand, 150000, 1500000, "elements over registries of one to four types that derive from, contain and mix in one another; non-trivial: some type or reference is used in the element")
{
    World w = world(c);
    M m = content(c, w, 2);
    if (c.chance(1, 8))
        m = leaf(kRef, T[c.draw(w.n - 1)]);
    c << show(m);
    c.nontrivial(usesTypes(m));
    bool cycle = false;
    M want;
    try {
        Expander x(w.types);
        want = x.expand(m);
    } catch (const MixinCycle&) {
        cycle = true;
    } catch (const std::length_error&) {
        c.label("too large");
        c.discard();
    }
    Registry r;
    fill(r, w, c);
    auto e = build(m);
    ExpandVisitor v(r);
    bool threw = false;
    std::unique_ptr<IElement> got;
    try {
        VisitBy(*e, v);
        got = v.get();
    } catch (const snowcrash::Error& err) {
        threw = true;
        REQUIRE_(err.code == snowcrash::MSONError, "error", "error code " << err.code);
    }
    REQUIRE_(threw == cycle, "cycle", "a circular mixin is " << (threw ? "reported but absent" : "not reported"));
    M after = observe(*e);
    REQUIRE_(same(after, m), "source", "the element became " << show(after));
    for (size_t i = 0; i < w.n; ++i)
        REQUIRE_(same(observe(*r.find(T[i])), w.types[T[i]]), "registry", T[i] << " became " << show(observe(*r.find(T[i]))));
    if (cycle) {
        c.label("circular mixin");
        return;
    }
    M g = got ? observe(*got) : m;
    REQUIRE_(same(g, want), "expand", "expanded to " << show(g) << " expected " << show(want));
    named(g, w.types);
    if (!usesTypes(m))
        REQUIRE_(same(g, m), "unused", "an element that uses no type became " << show(g));
    // the same visitor serves the next element
    if (c.chance(1, 3)) {
        M m2 = content(c, w, 1);
        M want2;
        try {
            Expander x(w.types);
            want2 = x.expand(m2);
        } catch (const MixinCycle&) {
            return;
        } catch (const std::length_error&) {
            return;
        }
        c << "\nthen " << show(m2);
        auto e2 = build(m2);
        VisitBy(*e2, v);
        auto got2 = v.get();
        M g2 = got2 ? observe(*got2) : m2;
        REQUIRE_(same(g2, want2), "again", "then expanded to " << show(g2) << " expected " << show(want2));
    }
}
FACET(expandable, 150000, 3000000, "whether an element has something to expand; non-trivial: four or more nodes")
{
    World w;
    w.n = 3;
    for (size_t i = 0; i < w.n; ++i)
        w.kinds[T[i]] = c.pick(std::vector<Kind>{ kObject, kArray, kString });
    M m = content(c, w, 3);
    if (c.boolean()) {
        // most of the time only one use, somewhere
        std::vector<M*> all;
        nodes(m, all);
        size_t keep = c.draw(all.size() - 1);
        for (size_t i = 0; i < all.size(); ++i)
            if (i != keep) {
                if (all[i]->kind == kRef)
                    *all[i] = str("x");
                all[i]->name = kindName(all[i]->kind);
            }
    }
    if (hasHolder(m))
        c.discard();
    c << show(m);
    c.nontrivial(count(m) >= 4);
    auto e = build(m);
    IsExpandableVisitor v;
    VisitBy(*e, v);
    REQUIRE_(v.get() == usesTypes(m), "expandable", "said to be " << (v.get() ? "" : "not ") << "expandable");
}
