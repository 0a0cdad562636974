// R05: merging inherited elements overrides and appends, losing nothing.
#include "pbt.h"
#include "ref_refract.h"
#include "refract/Exception.h"

PBT_LEAKS

using namespace gr;
using namespace refract;

static Opts opts()
{
    Opts o;
    o.typeNames = { "A", "B" };
    o.keys = { "a", "b", "c", "" };
    return o;
}
static M dropExtendKeys(M m)
{
    // keys that are extends hold strings only: anything else is refused elsewhere
    if (m.kind == kMember && m.hasKey && m.kids[0].kind == kExtend) {
        auto& e = m.kids[0].kids;
        for (size_t i = 0; i < e.size();)
            if (e[i].kind != kString)
                e.erase(e.begin() + i);
            else
                ++i;
        if (e.empty())
            m.kids[0] = str("");
    }
    for (auto& k : m.kids)
        k = dropExtendKeys(k);
    return m;
}
static M extendKey(pbt::Case& c)
{
    M k = seq(kExtend, {});
    size_t n = 1 + c.size(2);
    for (size_t i = 0; i < n; ++i) {
        M s = c.boolean() ? none(kString) : str(c.pick(opts().keys));
        if (c.chance(1, 3))
            set(s.attrs, "samples", seq(kArray, { c.boolean() ? str(c.pick(opts().keys)) : leaf(kNumber, "1") }));
        if (c.chance(1, 3))
            set(s.attrs, "default", str(c.pick(opts().keys)));
        if (c.chance(1, 6))
            set(s.attrs, "typeAttributes", seq(kArray, { str("nullable") }));
        k.kids.push_back(s);
    }
    return k;
}
static M link(pbt::Case& c, Kind k)
{
    M m = gen(c, 2, opts(), k);
    if (m.kind == kObject && m.has) {
        size_t n = c.size(4);
        for (size_t i = 0; i < n; ++i) {
            M v = gen(c, 0, opts());
            M x;
            switch (c.weighted({ 6, 2, 2, 1 })) {
                case 0: x = member(str(c.pick(opts().keys)), v); break;
                case 1: {
                    x = seq(kSelect, {});
                    size_t p = 1 + c.size(2);
                    for (size_t j = 0; j < p; ++j) {
                        M o = seq(kOption, {});
                        size_t q = c.size(2);
                        for (size_t l = 0; l < q; ++l)
                            o.kids.push_back(member(str(c.pick(opts().keys)), gen(c, 0, opts())));
                        x.kids.push_back(o);
                    }
                    break;
                }
                case 2: x = leaf(kRef, c.pick(opts().symbols)); break;
                default: x = member(extendKey(c), v);
            }
            m.kids.insert(m.kids.begin() + c.draw(m.kids.size()), x);
        }
    }
    if (m.kind == kEnum && c.boolean()) {
        M e = seq(kArray, {});
        size_t n = c.size(4);
        for (size_t i = 0; i < n; ++i) {
            M v = str(c.pick(opts().keys));
            if (c.chance(1, 4))
                v.name = c.pick(opts().typeNames);
            if (c.chance(1, 4))
                set(v.meta, "description", str("d"));
            e.kids.push_back(v);
        }
        set(m.attrs, "enumerations", e);
    }
    if (c.chance(1, 3))
        set(m.meta, c.pick(std::vector<std::string>{ "id", "prefix", "namespace", "title", "description", "classes", "links", "ref" }), str(c.pick(opts().keys)));
    return dropExtendKeys(m);
}
static const std::vector<Kind> mergeable = { kString, kNumber, kBool, kArray, kObject, kObject, kObject, kEnum, kEnum, kRef };
static void one(pbt::Case& c, const std::vector<M>& chain)
{
    for (auto& m : chain)
        c << show(m) << " <- ";
    M x = seq(kExtend, chain);
    auto e = build(x);
    auto& d = dynamic_cast<ExtendElement&>(*e).get();
    bool refused = false, threw = false;
    M want, drop;
    try {
        want = mergeAll(chain, true);
        drop = mergeAll(chain, false);
    } catch (const MergeError&) {
        refused = true;
    }
    std::unique_ptr<IElement> got;
    try {
        got = d.merge();
    } catch (const LogicError&) {
        threw = true;
    }
    if (chain.empty()) {
        REQUIRE_(!threw && !got, "nothing", "merging nothing gives an element");
        return;
    }
    REQUIRE_(threw == refused, "refuse", "merging is " << (threw ? "refused" : "accepted"));
    M after = observe(*e);
    REQUIRE_(same(after, x), "inputs", "the chain became " << show(after));
    if (refused)
        return;
    REQUIRE_(!!got, "merge", "merging gives nothing");
    M g = observe(*got);
    if (!same(g, want) && same(g, drop) && want.kind == kArray)
        c.failKnown("R05-array-without-value", "array", "merged to " + show(g) + " expected " + show(want));
    else
        REQUIRE_(same(g, want), kindName(want.kind), "merged to " << show(g) << " expected " << show(want));
    // merging is over when it is done: the result stands on its own
    got->element("changed");
    got->meta().clear();
    got->attributes().clear();
    REQUIRE_(same(observe(*e), x), "share", "changing the result changed the chain");
}
FACET(chain, 120000, 3000000, "chains of one to five elements of one kind; non-trivial: three or more, or four or more nodes")
{
    Kind k = c.pick(mergeable);
    std::vector<M> chain;
    size_t n = 1 + c.size(4);
    for (size_t i = 0; i < n; ++i)
        chain.push_back(link(c, k));
    size_t w = 0;
    for (auto& m : chain)
        w += count(m);
    c.nontrivial(n >= 3 || (n >= 2 && w >= 4));
    one(c, chain);
}
FACET(mixed, 30000, 500000, "chains of elements of any kinds, mostly refused; non-trivial: two or more")
{
    std::vector<M> chain;
    size_t n = c.size(4);
    Kind k = (Kind)c.draw(kKinds - 1);
    for (size_t i = 0; i < n; ++i)
        chain.push_back(link(c, c.chance(1, 3) ? (Kind)c.draw(kKinds - 1) : k));
    c.nontrivial(n >= 2);
    one(c, chain);
}
// merging a chain in two steps is merging it at once
FACET(steps, 40000, 800000, "a chain merged at once and in two steps; non-trivial: four or more nodes")
{
    Kind k = c.pick(mergeable);
    std::vector<M> chain;
    size_t n = 2 + c.size(3), w = 0;
    for (size_t i = 0; i < n; ++i) {
        chain.push_back(link(c, k));
        w += count(chain.back());
        c << show(chain.back()) << " <- ";
    }
    c.nontrivial(w >= 4);
    size_t cut = 1 + c.draw(n - 2);
    auto merge = [](const std::vector<M>& v) { return observe(*dynamic_cast<ExtendElement&>(*build(seq(kExtend, v))).get().merge()); };
    M whole = merge(chain);
    std::vector<M> rest(chain.begin() + cut, chain.end());
    rest.insert(rest.begin(), merge(std::vector<M>(chain.begin(), chain.begin() + cut)));
    M two = merge(rest);
    REQUIRE_(same(whole, two), "steps", "at once " << show(whole) << ", in two steps (cut at " << cut << ") " << show(two));
}
KNOWN_PROBE(array, "R05-array-without-value")
{
    auto m = dynamic_cast<ExtendElement&>(*build(seq(kExtend, { none(kArray), seq(kArray, { str("a") }) }))).get().merge();
    return m->empty();
}
