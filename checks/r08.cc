// R08: sizes of data structures are sound and saturate.
#include "pbt.h"
#include "gen_types.h"
#include "refract/Cardinal.h"
#include "refract/ElementSize.h"
#include "refract/ElementUtils.h"
#include <climits>

PBT_LEAKS

using namespace gr;
using namespace refract;

static const uint64_t open_ = UINT_MAX;
static uint64_t add(uint64_t a, uint64_t b) { return std::min(open_, a + b); }
static uint64_t mul(uint64_t a, uint64_t b) { return std::min(open_, a * b); }
static unsigned num(pbt::Case& c)
{
    switch (c.weighted({ 3, 3, 3, 2 })) {
        case 0: return (unsigned)c.size(20);
        case 1: return UINT_MAX - (unsigned)c.size(20);
        case 2: {
            unsigned n = 1u << c.draw(31);
            return n - 1 + (unsigned)c.size(2);
        }
        default: return (unsigned)c.draw(UINT_MAX);
    }
}
FACET(cardinal, 150000, 3000000, "two of the numbers exceed one, or a bound is crossed")
{
    unsigned x = num(c), y = num(c), z = num(c);
    if (c.chance(1, 4))
        y = open_ - x + (unsigned)c.size(1); // sums around the bound
    else if (c.chance(1, 4) && x)
        y = open_ / x + (unsigned)c.size(1); // products around the bound
    c << x << " " << y << " " << z;
    cardinal a{ x }, b{ y }, d{ z };
    REQUIRE_(a.data() == x && cardinal{}.data() == 0 && cardinal::open().data() == open_ && cardinal::empty().data() == 0, "value", "a cardinality keeps its number");
    REQUIRE_((a == b) == (x == y) && (a != b) == (x != y), "equality", "cardinalities are equal when their numbers are");
    REQUIRE_(finite(a) == (x != open_), "finite", "all but the open cardinality are finite");
    REQUIRE_((a + b).data() == add(x, y), "sum", x << " + " << y << " is " << (a + b).data());
    REQUIRE_((a * b).data() == mul(x, y), "product", x << " * " << y << " is " << (a * b).data());
    REQUIRE_(a + b == b + a && a * b == b * a, "commutative", "the order of operands matters");
    REQUIRE_((a + b) + d == a + (b + d), "associative-sum", "sums are not associative");
    REQUIRE_((a * b) * d == a * (b * d), "associative-product", "products are not associative");
    REQUIRE_(a * (b + d) == a * b + a * d, "distributive", "products do not distribute");
    REQUIRE_(a + cardinal::empty() == a && a * cardinal{ 1 } == a && a * cardinal::empty() == cardinal::empty(), "neutral", "nothing added and one multiplied");
    REQUIRE_(a + cardinal::open() == cardinal::open() && (x == 0 || a * cardinal::open() == cardinal::open()), "open", "an open cardinality absorbs");
    if (y <= z)
        REQUIRE_((a + b).data() <= (a + d).data() && (a * b).data() <= (a * d).data(), "monotone", "larger parts make a smaller whole");
    if ((x > 1) + (y > 1) + (z > 1) >= 2 || (uint64_t)x + y >= open_)
        c.nontrivial();
    c.label(add(x, y) == open_ ? "sum-open" : "sum-finite");
    c.label(mul(x, y) == open_ ? "product-open" : "product-finite");
}

// ---- elements
static uint64_t size(const M& m, bool fixed);
static uint64_t product(const std::vector<M>& k, bool fixed)
{
    uint64_t n = 1;
    for (auto& x : k)
        n = mul(n, size(x, fixed));
    return n;
}
static uint64_t sum(const std::vector<M>& k, bool fixed)
{
    uint64_t n = 0;
    for (auto& x : k)
        n = add(n, size(x, fixed));
    return n;
}
static uint64_t size(const M& m, bool fixed)
{
    bool own = typeAttr(m, "fixed"), ownType = typeAttr(m, "fixedType");
    uint64_t n = 0;
    switch (m.kind) {
        case kNull: return 1;
        case kString:
        case kNumber:
        case kBool: n = own || (fixed && defines(m)) ? 1 : m.kind == kBool ? 2 : open_; break;
        case kObject:
            n = open_;
            if (own || fixed || ownType)
                n = m.has ? product(m.kids, own || fixed) : 1;
            break;
        case kMember:
            if (!m.has || !m.hasVal)
                return 0;
            n = mul(variable(m) ? open_ : 1, size(*m.val(), fixed));
            if (typeAttr(m, "optional"))
                n = add(n, 1);
            break;
        case kArray:
            n = open_;
            if (own || fixed)
                n = m.has ? product(m.kids, true) : 1;
            else if (ownType && !m.has)
                n = 0; // of a fixed list of types nothing is known
            break;
        case kEnum: {
            auto e = m.attr("enumerations");
            if (!e || e->kind != kArray || !e->has)
                return 0;
            n = sum(e->kids, fixed || own);
            break;
        }
        case kExtend:
            if (!m.has || m.kids.empty())
                return 0;
            return size(mergeAll(m.kids), fixed);
        case kRef: return m.attr("resolved") ? size(*m.attr("resolved"), fixed) : 0;
        case kHolder: return m.has && !m.kids.empty() ? size(m.kids[0], fixed) : 0;
        case kSelect: return m.has ? sum(m.kids, fixed) : 0;
        default: return m.has ? product(m.kids, fixed) : 0;
    }
    return typeAttr(m, "nullable") ? add(n, 1) : n;
}
FACET(size_of, 120000, 3000000, "the size is neither empty nor open, or is one or more below a fixed type")
{
    M m = type(c, 3);
    dropArrayWithoutValue(m);
    bool fixed = c.chance(1, 3);
    c << show(m) << (fixed ? " inheriting fixed" : "");
    auto e = build(m);
    uint64_t want, got = sizeOf(*e, fixed).data();
    try {
        want = size(m, fixed);
    } catch (const MergeError&) {
        c.discard();
        return;
    }
    REQUIRE_(got == want, std::string("size-") + kindName(m.kind), "size is " << got << ", the values number " << want);
    REQUIRE_(same(observe(*e), m), "changed", "computing the size changes the element");
    if (want && want != open_)
        c.nontrivial();
    c.label(std::string(m.kind == kHolder ? "holder" : kindName(m.kind)) + (want == 0 ? "=0" : want == open_ ? "=open" : want == 1 ? "=1" : "=n"));
}
// fixed types with many parts: exact large sizes, and past the bound saturation
FACET(large, 20000, 400000, "the size exceeds 2^16")
{
    size_t n = 1 + c.draw(20);
    bool enums = c.boolean();
    M m = seq(kArray, {});
    uint64_t want = 1;
    for (size_t i = 0; i < n; ++i) {
        M k;
        uint64_t s;
        if (enums && c.boolean()) {
            k = none(kEnum);
            M e = seq(kArray, {});
            s = 1 + c.draw(40);
            for (size_t j = 0; j < s; ++j)
                e.kids.push_back(str(std::to_string(j)));
            set(k.attrs, "enumerations", e);
        } else {
            k = none(kBool);
            s = 2;
        }
        if (c.chance(1, 4)) {
            tag(k, "nullable");
            ++s;
        }
        want = mul(want, s);
        m.kids.push_back(k);
    }
    tag(m, "fixed");
    c << show(m);
    uint64_t got = sizeOf(*build(m), false).data();
    REQUIRE_(got == want, "large", "size is " << got << " instead of " << want);
    if (want > 65536)
        c.nontrivial();
    c.label(want == open_ ? "saturated" : "finite");
}
