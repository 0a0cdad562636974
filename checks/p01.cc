// P01: every NUL-terminated input is parsed, checked and serialised safely, in every option combination.
#include "gen_documents.h"
#include "gen_soup.h"
#include "capi.h"
#include "result.h"

PBT_LEAKS

static void one(pbt::Case& c, const std::string& src)
{
    unsigned o = c.draw(7);
    c << pbt::quote(src) << " opts=" << o;
    capi::Parse p(src, o);
    c.label(p.result ? (p.rc == DRAFTER_OK ? "ok" : "error") : "no-result");
    REQUIRE_(p.result, "no-result", "drafter_parse_blueprint returned no result for a non-null source");
    for (int f = 0; f < 4; ++f) {
        std::string s;
        REQUIRE_(p.serialize(f & 1, f & 2, s), "no-output", "drafter_serialize returned NULL, format " << f);
        REQUIRE_(!s.empty(), "no-output", "drafter_serialize returned an empty string, format " << f);
        mj::JV t;
        if (f & 1) {
            mj::JsonParser j(s, false);
            REQUIRE_(j.parse(t), "json", "format " << f << " is not JSON: " << j.err);
        } else {
            mj::YamlParser y(s);
            REQUIRE_(y.parse(t), "yaml", "format " << f << " is not YAML: " << y.err);
        }
        size_t errors = res::errors(t);
        REQUIRE_((p.rc != 0) == (errors > 0), "code", "the code is " << p.rc << " with " << errors << " error annotations");
        REQUIRE_(p.rc >= 0, "code", "the code is " << p.rc);
        REQUIRE_(errors <= 1, "code", errors << " error annotations");
    }
    drafter_result* chk = nullptr;
    drafter_check_blueprint(src.c_str(), &chk, p.options());
    drafter_free_result(chk);
    c.nontrivial(src.size() > 8);
}

FACET(soup, 12000, 150000, "blueprint vocabulary lines with arbitrary nesting; non-trivial: longer than 8 bytes")
{
    one(c, soup::lines(c, 40));
}
FACET(fixtures, 12000, 150000, "repository fixtures with line and byte mutations; non-trivial: longer than 8 bytes")
{
    one(c, soup::mutatedFixture(c));
}
FACET(documents, 3000, 100000, "blueprints and data structures with odd characters, disturbed in up to three places; non-trivial: longer than 8 bytes")
{
    one(c, docs::any(c));
}
FACET(bytes, 12000, 200000, "raw bytes without NUL; non-trivial: longer than 8 bytes")
{
    one(c, soup::rawBytes(c));
}
