// S04: serialising an element tree writes out every part of it once, in order, and source maps only where asked for.
#include "gen_refract.h"
#include "gen_so.h"
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
#include <set>
#include <sstream>

PBT_LEAKS

using namespace gr;
using mj::JV;

// the text of the API Elements specification as code
static JV expected(const M& m, bool maps);
static JV expected(const M::Info& i, bool maps)
{
    JV r(JV::Obj);
    for (auto& p : i)
        if (maps || p.first != "sourceMap")
            r.o.emplace_back(p.first, expected(p.second, maps));
    return r;
}
static JV expected(const M& m, bool maps)
{
    JV r(JV::Obj);
    r.o.emplace_back("element", JV::str(m.name));
    JV meta = expected(m.meta, maps);
    if (!meta.o.empty())
        r.o.emplace_back("meta", meta);
    JV attrs = expected(m.attrs, maps || m.name == "annotation");
    if (!attrs.o.empty())
        r.o.emplace_back("attributes", attrs);
    if (!m.has)
        return r;
    JV content;
    switch (m.kind) {
        case kNull: content = JV(JV::Null); break;
        case kString:
        case kRef: content = JV::str(m.str); break;
        case kNumber: content = JV::num(m.str); break;
        case kBool: content = JV(m.flag ? JV::True : JV::False); break;
        case kEnum:
        case kHolder: content = expected(m.kids[0], maps); break;
        case kMember:
            content = JV(JV::Obj);
            content.o.emplace_back("key", expected(*m.key(), maps));
            if (m.hasVal)
                content.o.emplace_back("value", expected(*m.val(), maps));
            break;
        default:
            content = JV(JV::Arr);
            for (auto& k : m.kids)
                content.a.push_back(expected(k, maps));
    }
    r.o.emplace_back("content", content);
    return r;
}
// enums and holders with content have a value, members with content a key
static void whole(M& m)
{
    if (m.has && (m.kind == kEnum || m.kind == kHolder) && m.kids.empty())
        m.kids.push_back(str("v"));
    if (m.has && m.kind == kMember && !m.hasKey) {
        m.kids.insert(m.kids.begin(), str("k"));
        m.hasKey = true;
    }
    for (auto& k : m.kids)
        whole(k);
    for (auto& p : m.meta)
        whole(p.second);
    for (auto& p : m.attrs)
        whole(p.second);
}
static Opts opts()
{
    Opts o;
    o.typeNames = { "annotation", "resource", "sourceMap", "Person", "" };
    o.keys = { "a", "b", "", "sourceMap", "annotation", "\xC5\xBE", "line\nbreak" };
    return o;
}
static M sourceMap(pbt::Case& c)
{
    M range = seq(kArray, { leaf(kNumber, number(c)), leaf(kNumber, "7") });
    M sm = seq(kArray, { range });
    sm.name = "sourceMap";
    return seq(kArray, { sm });
}
static M tree(pbt::Case& c, int depth)
{
    M m = gen(c, depth, opts());
    whole(m);
    std::vector<M*> all;
    nodes(m, all);
    size_t n = c.size(4);
    // hang the source maps only on nodes that stay where they are
    for (size_t i = 0; i < n; ++i) {
        M* at = all[c.draw(all.size() - 1)];
        if (c.chance(1, 3))
            at->name = "annotation";
        if (!at->attr("sourceMap") && !at->metaOf("sourceMap")) {
            set(c.chance(5, 6) ? at->attrs : at->meta, "sourceMap", sourceMap(c));
            all.clear();
            nodes(m, all);
        }
    }
    return m;
}
static bool hasMap(const M& m)
{
    for (auto* i : { &m.meta, &m.attrs })
        for (auto& p : *i)
            if (p.first == "sourceMap" || hasMap(p.second))
                return true;
    for (auto& k : m.kids)
        if (hasMap(k))
            return true;
    return false;
}
FACET(serialise, 100000, 8000000, "random element trees with source maps and annotations, with and without source maps asked for; non-trivial: five or more elements")
{
    M m = tree(c, 1 + (int)c.draw(3));
    bool maps = c.boolean();
    c << (maps ? "with" : "without") << " source maps: " << show(m);
    c.nontrivial(count(m) >= 5);
    if (hasMap(m))
        c.label(maps ? "source maps kept" : "source maps dropped");
    auto e = build(m);
    auto value = serialize::renderSo(*e, maps);
    JV got = gso::fromSo(value), want = expected(m, maps);
    REQUIRE_(got == want, "content", "wrote " << mj::packed(got) << " expected " << mj::packed(want));
    REQUIRE_(same(observe(*e), m), "untouched", "the element changed while it was written: " << show(observe(*e)));
    JV again = gso::fromSo(serialize::renderSo(*e, maps));
    REQUIRE_(again == want, "again", "wrote " << mj::packed(again) << " the second time");
}
static void stripMaps(JV& v, bool keep)
{
    for (auto& x : v.a)
        stripMaps(x, keep);
    if (v.t != JV::Obj)
        return;
    const JV* el = v.get("element");
    bool annotation = el && el->t == JV::Str && el->s == "annotation";
    for (auto& p : v.o) {
        if (p.first == "meta" || p.first == "attributes") {
            bool k = keep || (p.first == "attributes" && annotation);
            if (!k)
                for (size_t i = 0; i < p.second.o.size();)
                    if (p.second.o[i].first == "sourceMap")
                        p.second.o.erase(p.second.o.begin() + i);
                    else
                        ++i;
            for (auto& x : p.second.o)
                stripMaps(x.second, k);
        } else
            stripMaps(p.second, keep);
    }
    for (size_t i = 0; i < v.o.size();)
        if ((v.o[i].first == "meta" || v.o[i].first == "attributes") && v.o[i].second.t == JV::Obj && v.o[i].second.o.empty())
            v.o.erase(v.o.begin() + i);
        else
            ++i;
}
FACET(source_maps_only, 60000, 4000000, "the same random tree written with and without source maps: the difference is the sourceMap entries, and none stands outside an annotation; non-trivial: the tree has a source map")
{
    M m = tree(c, 1 + (int)c.draw(3));
    c << show(m);
    c.nontrivial(hasMap(m));
    auto e = build(m);
    JV with = gso::fromSo(serialize::renderSo(*e, true)), without = gso::fromSo(serialize::renderSo(*e, false));
    stripMaps(with, false);
    REQUIRE_(with == without, "difference", "without source maps " << mj::packed(without) << " but dropping them from the other gives " << mj::packed(with));
}
FACET(edit_shows, 50000, 4000000, "two random trees, half of them one edit apart: they are written alike exactly when they are alike; non-trivial: five or more elements")
{
    Opts o = opts();
    M a = gen(c, 3, o), b = a;
    whole(a);
    b = a;
    std::vector<M*> all;
    nodes(b, all);
    M* at = all[c.draw(all.size() - 1)];
    switch (c.draw(4)) {
        case 0: *at = gen(c, 1, o); break;
        case 1:
            if (at->kids.size() > 1 && at->kind != kMember)
                std::swap(at->kids.front(), at->kids.back());
            break;
        case 2:
            if (at->attrs.size() > 1)
                std::swap(at->attrs.front(), at->attrs.back());
            break;
        case 3: at->name += "'"; break;
        default: at->str += "x";
    }
    // options stay options
    bool bad = false;
    all.clear();
    nodes(b, all);
    for (auto* n : all)
        if (n->kind == kSelect)
            for (auto& k : n->kids)
                bad = bad || k.kind != kOption;
    if (bad)
        c.discard();
    whole(b);
    c << show(a) << " against " << show(b);
    c.nontrivial(count(a) >= 5);
    JV ea = expected(a, true), eb = expected(b, true);
    c.label(ea == eb ? "written alike" : "written differently");
    JV ga = gso::fromSo(serialize::renderSo(*build(a), true)), gb = gso::fromSo(serialize::renderSo(*build(b), true));
    REQUIRE_((ga == gb) == (ea == eb), "alike", "written as " << mj::packed(ga) << " and " << mj::packed(gb));
}
