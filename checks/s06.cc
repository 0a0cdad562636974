// S06: the JSON value generated from a data structure is the one the structure stands for.
#include "gen_data.h"
#include "gen_so.h"
#include "refract/JsonValue.h"

PBT_LEAKS

using namespace gd;

FACET(value, 120000, 4000000, "random expanded data structures; non-trivial: six or more elements")
{
    DOpts o;
    int n = 0;
    o.counter = &n;
    o.duplicates = c.chance(1, 3);
    M m = data(c, 1 + (int)c.draw(2), o);
    c << show(m);
    c.nontrivial(count(m) >= 6);
    c.label(kindName(m.kind));
    JV want = value(m), got = gso::fromSo(generateJsonValue(*build(m)));
    REQUIRE_(got == want, "value", "generated " << mj::packed(got) << " instead of " << mj::packed(want));
}
// any tree at all, as long as what the generator dereferences is there
static bool whole(const M& m)
{
    if (m.kind == kMember && (!m.has || !m.hasVal || !(m.key()->kind == kString)))
        return false;
    if ((m.kind == kEnum && m.has && m.kids.empty()) || (m.kind == kExtend && (!m.has || m.kids.empty())))
        return false;
    if ((m.kind == kSelect || m.kind == kOption) && !m.has)
        return false;
    if (m.attr("enumerations") && m.attr("enumerations")->kind != kArray)
        return false;
    for (auto& k : m.kids)
        if (!whole(k))
            return false;
    for (auto& a : m.attrs)
        if (!whole(a.second))
            return false;
    return true;
}
FACET(any_structure, 100000, 4000000, "random element trees, well-formed as data structures or not; non-trivial: four or more elements")
{
    M m = type(c, 3);
    dropArrayWithoutValue(m);
    if (!whole(m))
        c.discard();
    c << show(m);
    c.nontrivial(count(m) >= 4);
    JV want;
    try {
        want = value(m);
    } catch (const MergeError&) {
        c.discard();
    }
    JV got = gso::fromSo(generateJsonValue(*build(m)));
    REQUIRE_(got == want, "value", "generated " << mj::packed(got) << " instead of " << mj::packed(want));
}
