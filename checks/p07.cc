// P07: data structures come out as described.
#include "gen_mson.h"
#include "capi.h"
#include "result.h"

using mj::JV;

static std::vector<const JV*> structures(const JV& e)
{
    std::vector<const JV*> r;
    if (res::element(e) == "dataStructure") {
        r.push_back(&e);
        return r;
    }
    for (auto& x : e.a)
        for (auto* y : structures(x))
            r.push_back(y);
    for (auto& x : e.o)
        for (auto* y : structures(x.second))
            r.push_back(y);
    return r;
}
static void compare(pbt::Case& c, const std::string& src, std::vector<JV> want)
{
    capi::Parse p(src, capi::SkipBodies | capi::SkipSchemas);
    REQUIRE_(p.result, "no-result", "no result");
    JV got;
    std::string s = p.json();
    mj::JsonParser j(s);
    REQUIRE_(j.parse(got), "json", "the output is not JSON: " << j.err);
    for (auto* a : res::annotations(got))
        c.fail(res::hasClass(*a, "error") ? "error" : "warning", "an annotation for well-formed data structures: " + res::text(a));
    gb::sortKeys(got);
    auto ds = structures(got);
    REQUIRE_(ds.size() == want.size(), "count", "got " << ds.size() << " data structures, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) {
        gb::sortKeys(want[i]);
        const JV* x = res::content(*ds[i]);
        REQUIRE_(x, "empty", "data structure " << i << " is empty");
        REQUIRE_(*x == want[i], "different", "data structure " << i << " " << gb::difference(*x, want[i]));
    }
}
FACET(types, 3000, 200000, "sets of named types in varied layouts; non-trivial: at least two types")
{
    gm::Gen g(c);
    g.declare(6);
    gm::Writer w(c);
    w.line("# API");
    w.blank();
    auto heading = [&] {
        w.line(c.pick(std::vector<std::string>{ "# Data Structures", "# Data Structures", "# Data Structure", "# data structures", "#  Data  Structures " }));
        w.blank();
    };
    heading();
    std::vector<size_t> order(g.types.size());
    for (size_t i = 0; i < order.size(); ++i)
        order[i] = i;
    for (size_t i = order.size(); i > 1; --i)
        std::swap(order[i - 1], order[c.draw(i - 1)]);
    std::vector<JV> want;
    gm::Expect e;
    for (size_t i : order) {
        if (i != order[0] && c.chance(1, 6)) { // several sections, one after the other or apart
            if (c.boolean()) {
                w.line("# Group G" + std::to_string(i));
                w.blank();
                w.line("## /r" + std::to_string(i));
                w.line("### GET");
                w.line("+ Response 204");
                w.blank();
            }
            heading();
        }
        w.named(g.types[i], 2);
        want.push_back(e.structure(g.types[i].node, g.types[i].name));
    }
    c << w.o;
    c.nontrivial(order.size() > 1);
    compare(c, w.o, want);
}
FACET(sections, 2500, 150000, "attributes of resources, actions, requests and responses; non-trivial: at least two sections")
{
    gm::Gen g(c);
    g.declare(3);
    gm::Writer w(c);
    gm::Expect e;
    std::vector<JV> want;
    size_t n = 0;
    auto attributes = [&](int d) {
        if (!c.chance(2, 3))
            return;
        gm::Node x = g.attributesSection();
        w.attributes(x, d);
        w.blank();
        want.push_back(e.structure(x, ""));
        ++n;
    };
    w.line("# API");
    w.blank();
    w.line("## /r");
    w.blank();
    attributes(0);
    w.line("### GET");
    attributes(0);
    if (c.boolean()) {
        w.line("+ Request (text/plain)");
        attributes(1);
        w.blank();
    }
    w.line("+ Response 200 (text/plain)");
    attributes(1);
    w.blank();
    w.line("# Data Structures");
    w.blank();
    for (auto& t : g.types) {
        w.named(t, 2);
        want.push_back(e.structure(t.node, t.name));
    }
    c << w.o;
    c.nontrivial(n > 1);
    compare(c, w.o, want);
}
FACET(models, 1500, 60000, "attributes of resource models, wherever a payload refers to them; non-trivial: two or more references")
{
    gm::Gen g(c);
    g.declare(2);
    gm::Expect e;
    size_t n = 1 + c.draw(2);
    std::vector<gm::Node> attributes;
    for (size_t i = 0; i < n; ++i)
        attributes.push_back(g.attributesSection());
    gm::Writer w(c);
    std::vector<JV> want;
    w.line("# API");
    w.blank();
    size_t defined = 0, references = 0;
    while (defined < n || references == 0) {
        std::string name = "M" + std::to_string(defined);
        bool define = defined < n && c.boolean();
        w.line("## " + (define ? name : "R" + std::to_string(references)) + " [/r" + std::to_string(defined) + "x" + std::to_string(references) + "]");
        w.blank();
        if (define) {
            w.line(c.boolean() ? "+ Model (text/plain)" : "+ Model");
            w.attributes(attributes[defined++], 1);
            w.blank();
            if (c.boolean()) {
                w.line("    + Body");
                w.blank();
                w.line("            text");
                w.blank();
            }
        }
        if (!define || c.boolean()) {
            w.line("### GET");
            for (size_t k = 1 + c.draw(2); k; --k) {
                size_t of = c.draw(n - 1);
                w.line(k == 2 && c.boolean() ? "+ Request" : "+ Response 20" + std::to_string(k));
                w.blank();
                w.line("    [M" + std::to_string(of) + "][]");
                w.blank();
                want.push_back(e.structure(attributes[of], ""));
                ++references;
            }
        }
    }
    w.line("# Data Structures");
    w.blank();
    for (auto& t : g.types) {
        w.named(t, 2);
        want.push_back(e.structure(t.node, t.name));
    }
    c << w.o;
    c.nontrivial(references > 1);
    compare(c, w.o, want);
}
FACET(resources, 1500, 60000, "attributes of named resources, which are types by the name of the resource; non-trivial: a type is used by the name of a resource")
{
    gm::Gen g(c);
    g.declare(3);
    gm::Expect e;
    size_t declared = g.types.size(), n = 1 + c.draw(2);
    for (size_t i = 0; i < n; ++i) {
        gm::Named t;
        t.name = c.pick(std::vector<std::string>{ "Coupon", "My Thing", "\xC5\xBDluva", "v1.x", "lower" }) + " r" + std::to_string(i);
        t.node = g.attributesSection();
        t.kind = t.node.kind;
        g.types.push_back(t);
        g.visible = g.types.size();
    }
    gm::Writer w(c);
    std::vector<JV> want;
    auto dataStructures = [&] {
        w.line("# Data Structures");
        w.blank();
        for (size_t i = 0; i < declared; ++i) {
            w.named(g.types[i], 2);
            want.push_back(e.structure(g.types[i].node, g.types[i].name));
        }
    };
    w.line("# API");
    w.blank();
    bool first = c.boolean(), used = false;
    if (first)
        dataStructures();
    w.line("# Group G");
    w.blank();
    std::vector<size_t> order(n);
    for (size_t i = 0; i < n; ++i)
        order[i] = declared + i;
    for (size_t i = n; i > 1; --i)
        std::swap(order[i - 1], order[c.draw(i - 1)]);
    for (size_t i : order) {
        const gm::Named& t = g.types[i];
        w.line("## " + t.name + " [/r" + std::to_string(i) + "]");
        w.blank();
        w.attributes(t.node, 0);
        w.blank();
        want.push_back(e.structure(t.node, t.name));
        w.line("### GET");
        w.line("+ Response 200 (text/plain)");
        gm::Node x = g.attributesSection();
        w.attributes(x, 1);
        w.blank();
        want.push_back(e.structure(x, ""));
        for (size_t k = declared; k < g.types.size(); ++k)
            used = used || x.type == g.types[k].name || t.node.type == g.types[k].name;
    }
    if (!first)
        dataStructures();
    c << w.o;
    c.nontrivial(used);
    compare(c, w.o, want);
}
