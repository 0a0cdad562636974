// S02: YAML output is well-formed and reads back as exactly the value that was written.
#include "gen_so.h"
#include "utils/so/YamlIo.h"

PBT_LEAKS

using namespace drafter::utils::so;
using mj::JV;

static std::string write(const JV& v)
{
    Value so = gso::toSo(v);
    std::ostringstream a;
    serialize_yaml(a, so);
    return a.str();
}
FACET(tree, 800000, 20000000, "value trees over well-formed UTF-8 strings and unique keys; non-trivial: weight of at least 4 nodes/characters")
{
    JV v = gso::value(c, 4);
    c << mj::packed(v);
    c.nontrivial(gso::weight(v) >= 4);
    std::string t = write(v);
    mj::YamlParser p(t);
    JV back;
    REQUIRE_(p.parse(back), "ill-formed", "output is not YAML: " << p.err << ": " << pbt::quote(t));
    REQUIRE_(p.duplicates.empty(), "duplicate", "duplicate key in " << pbt::quote(t));
    REQUIRE_(back == v, "different", "output reads back as " << pbt::quote(mj::packed(back)) << ", written was " << pbt::quote(mj::packed(v)));
    REQUIRE_(write(v) == t, "unrepeatable", "a second serialization differs");
}
FACET(bytes, 300000, 8000000, "strings of arbitrary bytes: the output stays well-formed YAML with the same structure; non-trivial: weight of at least 4")
{
    JV v = gso::value(c, 3, true);
    c << mj::packed(v);
    c.nontrivial(gso::weight(v) >= 4);
    std::string t = write(v);
    mj::YamlParser p(t);
    JV back;
    REQUIRE_(p.parse(back), "ill-formed", "output is not YAML: " << p.err << ": " << pbt::quote(t));
    struct Shape {
        static bool same(const JV& a, const JV& b)
        {
            if (a.t != b.t || a.a.size() != b.a.size() || a.o.size() != b.o.size())
                return false;
            if (a.t == JV::Num && a.s != b.s)
                return false;
            if (a.t == JV::Str && mj::validUtf8(a.s) && a.s != b.s)
                return false;
            for (size_t i = 0; i < a.a.size(); ++i)
                if (!same(a.a[i], b.a[i]))
                    return false;
            for (size_t i = 0; i < a.o.size(); ++i)
                if (!same(a.o[i].second, b.o[i].second))
                    return false;
            return true;
        }
    };
    REQUIRE_(Shape::same(v, back), "different", "output has another structure: " << pbt::quote(t));
}
