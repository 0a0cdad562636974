// S01: JSON output is well-formed and reads back as exactly the value that was written.
#include "gen_so.h"
#include "utils/so/JsonIo.h"

PBT_LEAKS

using namespace drafter::utils::so;
using mj::JV;

static void check(pbt::Case& c, const JV& v, bool utf8)
{
    c << mj::packed(v);
    c.nontrivial(gso::weight(v) >= 4);
    Value so = gso::toSo(v);
    std::ostringstream a, b;
    serialize_json(a, so);
    serialize_json(b, so, packed{});
    for (int k = 0; k < 2; ++k) {
        const std::string& t = k ? b.str() : a.str();
        mj::JsonParser p(t, utf8);
        JV back;
        REQUIRE_(p.parse(back), "ill-formed", (k ? "packed" : "pretty") << " output is not JSON: " << p.err << ": " << pbt::quote(t));
        REQUIRE_(back == v, "different", (k ? "packed" : "pretty") << " output reads back differently: " << pbt::quote(t) << " for " << pbt::quote(mj::packed(v)));
    }
    REQUIRE_(b.str() == mj::packed(v), "packed-form", "packed output " << pbt::quote(b.str()) << " expected " << pbt::quote(mj::packed(v)));
    REQUIRE_(a.str() == mj::pretty(v), "pretty-form", "pretty output " << pbt::quote(a.str()) << " expected " << pbt::quote(mj::pretty(v)));
    std::ostringstream again;
    serialize_json(again, so);
    REQUIRE_(again.str() == a.str(), "unrepeatable", "a second serialization differs");
    REQUIRE_(gso::fromSo(so) == v, "changed", "serializing changed the value");
}

FACET(tree, 800000, 20000000, "value trees over well-formed UTF-8 strings and unique keys; non-trivial: weight of at least 4 nodes/characters")
{
    check(c, gso::value(c, 4), true);
}
FACET(bytes, 300000, 8000000, "value trees over arbitrary bytes, which pass through verbatim; non-trivial: weight of at least 4")
{
    check(c, gso::value(c, 3, true), false);
}
FACET(integers, 100000, 2000000, "numbers made from integers; non-trivial: more than one digit")
{
    int64_t x = (int64_t)c.draw(~0ull >> c.draw(63));
    uint64_t u = (uint64_t)x;
    if (c.boolean())
        x = -x;
    c << x;
    c.nontrivial(x > 9 || x < -9);
    std::ostringstream a, e;
    Array arr(from_list{}, Value(Number(x)), Value(Number(u)), Value(Number((int)(x & 0xFFFF))));
    serialize_json(a, arr, packed{});
    e << "[" << x << "," << u << "," << (x & 0xFFFF) << "]";
    REQUIRE_(a.str() == e.str(), "integer", a.str() << " expected " << e.str());
}
