// R03: meta and attributes form an ordered map of named elements.
#include "pbt.h"
#include "gen_refract.h"
#include "refract/InfoElementsUtils.h"
#include "refract/ElementUtils.h"

PBT_LEAKS

using namespace gr;
using namespace refract;

static Opts opts()
{
    Opts o;
    o.typeNames = { "A", "B" };
    return o;
}
static const std::vector<std::string> names = { "a", "b", "id", "typeAttributes", "samples", "", "A", "ab" };
static std::string show(const M::Info& i)
{
    std::ostringstream o;
    for (auto& p : i) {
        o << pbt::quote(p.first) << "=";
        gr::show(o, p.second);
        o << "; ";
    }
    return o.str();
}
#define SEES(el, model, key)                                                                                          \
    do {                                                                                                              \
        M::Info got = observe(el);                                                                                    \
        REQUIRE_(same(got, model, true), key, "holds " << show(got) << " expected " << show(model));                  \
    } while (0)

FACET(history, 100000, 2500000, "histories of up to 16 operations over three sets of named elements; non-trivial: a name is set again and another removed")
{
    const size_t N = 3;
    InfoElements d[N];
    M::Info m[N];
    size_t ops = 2 + c.draw(16);
    bool again = false, removed = false;
    auto uniq = [](const M::Info& i) {
        std::set<std::string> s;
        for (auto& p : i)
            if (!s.insert(p.first).second)
                return false;
        return true;
    };
    for (size_t i = 0; i < ops; ++i) {
        size_t a = c.draw(N - 1), b = c.draw(N - 1);
        std::string k = c.pick(names);
        c << "\n" << a << ": ";
        switch (c.weighted({ 6, 2, 3, 2, 1, 2, 1, 1, 1, 1, 1, 1 })) {
            case 0: {
                M v = gen(c, 1, opts());
                c << "set " << pbt::quote(k) << " " << gr::show(v);
                again = again || gr::find(m[a], k) != m[a].end();
                IElement& r = d[a].set(k, build(v));
                set(m[a], k, v);
                REQUIRE_(&r == d[a].find(k)->second.get(), "set", "set() returned another element");
                break;
            }
            case 1: {
                M v = gen(c, 1, opts());
                auto e = build(v);
                c << "set copy " << pbt::quote(k) << " " << gr::show(v);
                again = again || gr::find(m[a], k) != m[a].end();
                IElement& r = d[a].set(k, *e);
                set(m[a], k, v);
                e->element("changed");
                REQUIRE_(&r == d[a].find(k)->second.get(), "set", "set() returned another element");
                break;
            }
            case 2: {
                c << "erase " << pbt::quote(k);
                removed = removed || gr::find(m[a], k) != m[a].end();
                d[a].erase(k);
                gr::erase(m[a], k);
                break;
            }
            case 3: {
                auto it = gr::find(m[a], k);
                c << "claim " << pbt::quote(k);
                auto e = d[a].claim(k);
                REQUIRE_(!!e == (it != m[a].end()), "claim", "claim gives " << (e ? "an element" : "nothing"));
                if (e) {
                    REQUIRE_(same(observe(*e), it->second), "claim", "claimed " << gr::show(observe(*e)) << " expected " << gr::show(it->second));
                    m[a].erase(it);
                    removed = true;
                }
                break;
            }
            case 4: {
                if (m[a].empty())
                    break;
                size_t p = c.draw(m[a].size() - 1);
                c << "erase@" << p;
                if (c.boolean())
                    d[a].erase(d[a].begin() + p);
                else {
                    auto e = d[a].claim(d[a].begin() + p);
                    REQUIRE_(e && same(observe(*e), m[a][p].second), "claim", "claimed another element than the one at " << p);
                }
                m[a].erase(m[a].begin() + p);
                removed = true;
                break;
            }
            case 5: {
                auto it = gr::find(m[a], k);
                c << "find " << pbt::quote(k);
                auto f = d[a].find(k);
                auto g = static_cast<const InfoElements&>(d[a]).find(k);
                size_t at = it - m[a].begin();
                REQUIRE_((size_t)(f - d[a].begin()) == at && (size_t)(g - static_cast<const InfoElements&>(d[a]).begin()) == at, "find", "found at " << (f - d[a].begin()) << " expected " << at);
                break;
            }
            case 6:
                c << "clear";
                d[a].clear();
                m[a].clear();
                break;
            case 7:
                c << "= " << b;
                d[a] = d[b];
                m[a] = m[b];
                break;
            case 8: {
                c << "copy of " << b;
                InfoElements x(d[b]);
                swap(d[a], x);
                m[a] = m[b];
                break;
            }
            case 9: {
                if (a == b)
                    break;
                c << "= move " << b;
                d[a] = std::move(d[b]);
                m[a] = m[b];
                d[b].clear();
                m[b].clear();
                break;
            }
            case 10: {
                // appends copies; only used with names that are not there yet
                M::Info u = m[a];
                u.insert(u.end(), m[b].begin(), m[b].end());
                if (a == b || !uniq(u))
                    break;
                c << "merge " << b;
                d[a].clone(d[b]);
                m[a] = u;
                break;
            }
            default: {
                if (m[a].empty())
                    break;
                size_t p = c.draw(m[a].size() - 1);
                c << "rename@" << p;
                (d[a].begin() + p)->second->element("renamed");
                m[a][p].second.name = "renamed";
            }
        }
        for (size_t j = 0; j < N; ++j) {
            SEES(d[j], m[j], "content");
            REQUIRE_(d[j].size() == m[j].size() && d[j].empty() == m[j].empty(), "size", "size " << d[j].size() << " expected " << m[j].size());
        }
        REQUIRE_((d[a] == d[b]) == same(m[a], m[b], false) && (d[a] != d[b]) == !same(m[a], m[b], false), "equal", "comparison of " << show(m[a]) << " and " << show(m[b]));
    }
    c.nontrivial(again && removed);
}
// attributes an element collects
FACET(collected, 100000, 2000000, "histories of type attributes, samples, enumerations and defaults added to an element of any kind; non-trivial: three or more")
{
    Opts o = opts();
    o.info = false;
    M m = gen(c, 1, o, (int)c.draw(kKinds - 1));
    m.attrs.clear();
    auto e = build(m);
    size_t ops = 1 + c.size(9);
    static const std::vector<std::string> ta = { "fixed", "fixedType", "required", "optional", "nullable", "x" };
    for (size_t i = 0; i < ops; ++i) {
        c << "\n";
        switch (c.draw(5)) {
            case 0: {
                std::string t = c.pick(ta);
                c << "type attribute " << t;
                if (c.boolean())
                    setTypeAttribute(*e, t);
                else if (t == "fixed" && c.boolean())
                    setFixedTypeAttribute(*e);
                else
                    AppendInfoElement<ArrayElement>(e->attributes(), "typeAttributes", dsd::String{ t });
                auto it = gr::find(m.attrs, "typeAttributes");
                if (it == m.attrs.end())
                    set(m.attrs, "typeAttributes", seq(kArray, { str(t) }));
                else {
                    bool there = false;
                    for (auto& k : it->second.kids)
                        there = there || k.str == t;
                    if (!there)
                        it->second.kids.push_back(str(t));
                }
                break;
            }
            case 1:
            case 2: {
                bool s = c.boolean();
                std::string k = s ? "samples" : "enumerations";
                M v = gen(c, 1, o);
                c << k << " " << gr::show(v);
                if (s)
                    addSample(*e, build(v));
                else
                    addEnumeration(*e, build(v));
                auto it = gr::find(m.attrs, k);
                if (it == m.attrs.end())
                    set(m.attrs, k, seq(kArray, { v }));
                else
                    it->second.kids.push_back(v);
                break;
            }
            case 3: {
                M v = gen(c, 1, o);
                c << "default " << gr::show(v);
                setDefault(*e, build(v));
                set(m.attrs, "default", v);
                break;
            }
            case 4: {
                // an entry of another element kind in a collected attribute
                std::string t = c.pick(ta);
                c << "append to x " << t;
                AppendInfoElement<ArrayElement>(e->meta(), "x", dsd::String{ t });
                auto it = gr::find(m.meta, "x");
                if (it == m.meta.end())
                    set(m.meta, "x", seq(kArray, { str(t) }));
                else {
                    bool there = false;
                    for (auto& k : it->second.kids)
                        there = there || (k.kind == kString && k.str == t);
                    if (!there)
                        it->second.kids.push_back(str(t));
                }
                break;
            }
            default: {
                // an empty collection, and one that holds something else
                bool none_ = c.boolean();
                c << (none_ ? "x empty" : "x number");
                M v = none_ ? gr::none(kArray) : seq(kArray, { leaf(kNumber, "1") });
                set(m.meta, "x", v);
                e->meta().set("x", build(v));
            }
        }
        auto it = gr::find(m.meta, "x");
        if (it != m.meta.end() && !it->second.kids.empty())
            it->second.has = true;
        M got = observe(*e);
        REQUIRE_(same(got, m), "content", "the element is " << gr::show(got) << " expected " << gr::show(m));
        for (auto& t : ta) {
            bool expect = false;
            if (auto a = m.attr("typeAttributes"))
                for (auto& k : a->kids)
                    expect = expect || k.str == t;
            REQUIRE_(hasTypeAttr(*e, t.c_str()) == expect, "type", "type attribute " << t << " found: " << !expect);
        }
        auto seen = [](const IElement* x) { return x ? gr::show(observe(*x)) : std::string("none"); };
        auto d = m.attr("default"), s = m.attr("samples");
        REQUIRE_(seen(findDefault(*e)) == (d ? gr::show(*d) : "none") && hasDefault(*e) == !!d, "default", "default found: " << seen(findDefault(*e)));
        REQUIRE_(seen(findFirstSample(*e)) == (s ? gr::show(s->kids[0]) : "none"), "sample", "first sample found: " << seen(findFirstSample(*e)));
    }
    c.nontrivial(ops >= 3);
}
