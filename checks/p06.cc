// P06: what a blueprint says about its API is what the parse result says.
#include "gen_blueprint.h"
#include "capi.h"
#include "result.h"

using mj::JV;

static void one(pbt::Case& c, const gb::Blueprint& b, const std::string& src, size_t deprecated = 0)
{
    capi::Parse p(src, 0);
    REQUIRE_(p.result, "no-result", "no result");
    size_t warnings = deprecated;
    JV got, want = gb::Expect(b).category();
    std::string s = p.json();
    mj::JsonParser j(s);
    REQUIRE_(j.parse(got), "json", "the output is not JSON: " << j.err);
    for (auto* a : res::annotations(got))
        if (deprecated && res::text(a).find("'headers' section at this level is deprecated") != std::string::npos)
            --deprecated;
        else
        c.fail(res::hasClass(*a, "error") ? "error" : "warning", "an annotation for a well-formed blueprint: " + res::text(a));
    REQUIRE_(!deprecated, "no-warning", "a deprecated headers section without a warning");
    const JV* content = res::content(got);
    REQUIRE_(content && content->a.size() == 1 + warnings, "shape", "the parse result has another shape");
    JV cat = content->a[0];
    gb::sortKeys(cat);
    gb::sortKeys(want);
    REQUIRE_(cat == want, "different", gb::difference(cat, want));
}
FACET(structure, 4500, 300000, "blueprints of metadata, groups, resources, actions, parameters, transactions, headers, bodies, schemas and models in varied layouts; non-trivial: at least one transaction")
{
    gb::Gen g(c);
    gb::Blueprint b = g.blueprint();
    std::string src = gb::Writer(c).write(b);
    c << src;
    size_t transactions = 0;
    auto count = [&](const gb::Resource& r) {
        for (auto& a : r.actions)
            transactions += a.examples.size();
        if (r.model)
            c.label("model");
        c.label("resource form " + std::to_string(r.form));
    };
    for (auto& r : b.resources)
        count(r);
    for (auto& gr : b.groups)
        for (auto& r : gr.resources)
            count(r);
    c.nontrivial(transactions > 0);
    one(c, b, src);
}

FACET(deprecated, 2500, 150000, "blueprints with headers sections of resources and actions, which belong to the payloads below; non-trivial: a payload below one")
{
    gb::Gen g(c);
    gb::Blueprint b = g.blueprint();
    size_t sections = 0, payloads = 0;
    auto give = [&](gb::Resource& r) {
        r.modelPayload.media.clear(); // the content type of a model replaces the headers of what refers to it
        bool any = r.form < 2 && c.chance(1, 3);
        if (any) {
            r.headers = g.headers();
            ++sections;
        }
        for (auto& a : r.actions) {
            bool own = c.chance(1, 3);
            if (own) {
                a.headers = g.headers();
                ++sections;
            }
            if (any || own)
                payloads += a.examples.size();
        }
    };
    for (auto& r : b.resources)
        give(r);
    for (auto& gr : b.groups)
        for (auto& r : gr.resources)
            give(r);
    std::string src = gb::Writer(c).write(b);
    c << src;
    c.label(sections ? "with headers" : "none");
    c.nontrivial(payloads > 0);
    one(c, b, src, sections);
}
