// P05: one parse result, written as JSON and as YAML, with and without source maps.
#include "gen_documents.h"
#include "gen_soup.h"
#include "capi.h"
#include "result.h"

using mj::JV;

// drops every source map outside annotations, and the meta or attributes it leaves empty
static void stripMaps(JV& v, bool keep)
{
    for (auto& x : v.a)
        stripMaps(x, keep);
    if (v.t != JV::Obj)
        return;
    bool annotation = res::element(v) == "annotation";
    for (auto& p : v.o)
        if (p.first == "meta" || p.first == "attributes") {
            bool k = keep || (p.first == "attributes" && annotation);
            if (!k)
                for (size_t i = 0; i < p.second.o.size();)
                    if (p.second.o[i].first == "sourceMap")
                        p.second.o.erase(p.second.o.begin() + i);
                    else
                        ++i;
            for (auto& x : p.second.o)
                stripMaps(x.second, k);
        } else
            stripMaps(p.second, keep);
    for (size_t i = 0; i < v.o.size();)
        if ((v.o[i].first == "meta" || v.o[i].first == "attributes") && v.o[i].second.t == JV::Obj && v.o[i].second.o.empty())
            v.o.erase(v.o.begin() + i);
        else
            ++i;
}
static void findMaps(const JV& v, bool annotation, size_t& outside)
{
    annotation = annotation || res::element(v) == "annotation";
    for (auto& x : v.a)
        findMaps(x, annotation, outside);
    for (auto& p : v.o) {
        if (p.first == "sourceMap" && !annotation)
            ++outside;
        findMaps(p.second, annotation, outside);
    }
}
static std::string where(const JV& a, const JV& b, const std::string& path = "")
{
    if (a == b)
        return "";
    if (a.t == b.t && a.t == JV::Arr && a.a.size() == b.a.size())
        for (size_t i = 0; i < a.a.size(); ++i)
            if (a.a[i] != b.a[i])
                return where(a.a[i], b.a[i], path + "/" + std::to_string(i));
    if (a.t == b.t && a.t == JV::Obj && a.o.size() == b.o.size())
        for (size_t i = 0; i < a.o.size(); ++i)
            if (a.o[i].first == b.o[i].first && a.o[i].second != b.o[i].second)
                return where(a.o[i].second, b.o[i].second, path + "/" + a.o[i].first);
    return "at " + path + ": " + mj::packed(a).substr(0, 300) + " against " + mj::packed(b).substr(0, 300);
}
static void one(pbt::Case& c, const std::string& src)
{
    if (!mj::validUtf8(src))
        c.discard();
    unsigned o = c.chance(1, 2) ? c.draw(7) : 0;
    c << pbt::quote(src) << " opts=" << o;
    capi::Parse p(src, o);
    REQUIRE_(p.result, "no-result", "no result");
    c.label(p.rc ? "error" : "ok");
    JV tree[4];
    for (int f = 0; f < 4; ++f) {
        std::string s;
        REQUIRE_(p.serialize(f & 1, f & 2, s), "no-output", "format " << f << " has no output");
        if (f & 1) {
            mj::JsonParser j(s);
            REQUIRE_(j.parse(tree[f]), "json", "the output is not JSON: " << j.err);
            REQUIRE_(j.duplicates.empty(), "json-duplicate", "the key " << pbt::quote(j.duplicates[0]) << " stands twice in one object");
        } else {
            mj::YamlParser y(s);
            REQUIRE_(y.parse(tree[f]), "yaml", "the output is not YAML: " << y.err);
        }
    }
    c.nontrivial(src.size() > 40);
    REQUIRE_(tree[0] == tree[1], "formats", "YAML and JSON differ " << where(tree[0], tree[1]));
    REQUIRE_(tree[2] == tree[3], "formats-maps", "YAML and JSON with source maps differ " << where(tree[2], tree[3]));
    size_t outside = 0;
    findMaps(tree[1], false, outside);
    REQUIRE_(!outside, "maps-left", outside << " source maps though none were asked for");
    JV stripped = tree[3];
    stripMaps(stripped, false);
    REQUIRE_(stripped == tree[1], "maps-change", "asking for source maps changes the result " << where(tree[1], stripped));
    REQUIRE_(res::element(tree[1]) == "parseResult", "shape", "the result is an element " << res::element(tree[1]));
}
FACET(soup, 20000, 400000, "blueprint vocabulary lines with arbitrary nesting, in every parse option combination; non-trivial: over 40 bytes")
{
    one(c, soup::lines(c, 30));
}
FACET(fixtures, 6000, 120000, "repository fixtures with line and byte mutations; non-trivial: over 40 bytes")
{
    one(c, soup::mutatedFixture(c));
}
FACET(documents, 3000, 120000, "blueprints and data structures with odd characters, disturbed in up to three places; non-trivial: over 40 bytes")
{
    one(c, docs::any(c));
}
