// P08: named types do not depend on the order they are declared in.
#include "gen_mson.h"
#include "capi.h"
#include "result.h"

using mj::JV;

namespace
{
    struct Result {
        std::map<std::string, std::string> types; // by name
        std::string rest;                         // all but the types
        std::multiset<std::string> annotations;
        size_t errors = 0;
        bool ok = false;
    };
    // drops data structures of categories, and the annotations
    void split(const JV& e, Result& r, JV& rest)
    {
        rest = e;
        rest.a.clear();
        rest.o.clear();
        for (auto& x : e.a) {
            if (res::element(x) == "annotation") {
                r.annotations.insert(res::text(&x));
                continue;
            }
            if (res::element(x) == "category" && res::hasClass(x, "dataStructures")) {
                for (auto& d : res::content(x)->a) {
                    const JV* s = res::content(d);
                    r.types[s ? res::text(res::metaOf(*s, "id")) : ""] += mj::packed(d);
                }
                continue;
            }
            JV y;
            split(x, r, y);
            rest.a.push_back(y);
        }
        for (auto& x : e.o) {
            JV y;
            split(x.second, r, y);
            rest.o.emplace_back(x.first, y);
        }
    }
    Result process(const std::string& src)
    {
        Result r;
        capi::Parse p(src);
        if (!p.result)
            return r;
        JV v, rest;
        std::string s = p.json();
        mj::JsonParser j(s);
        if (!j.parse(v))
            return r;
        r.ok = true;
        r.errors = res::errors(v);
        split(v, r, rest);
        r.rest = mj::packed(rest);
        return r;
    }
    std::vector<size_t> identity(size_t n)
    {
        std::vector<size_t> o(n);
        for (size_t i = 0; i < n; ++i)
            o[i] = i;
        return o;
    }
    void shuffle(pbt::Case& c, std::vector<size_t>& o)
    {
        for (size_t i = o.size(); i > 1; --i)
            std::swap(o[i - 1], o[c.draw(i - 1)]);
    }
    // the types in the order, in one section or more, before, amid or after the rest
    std::string document(pbt::Case& c, const std::string& resources, const std::vector<std::string>& texts, const std::vector<size_t>& order)
    {
        std::string s = "# API\n\n";
        size_t cut = c.chance(1, 3) ? c.draw(order.size()) : c.boolean() ? 0 : order.size();
        auto types = [&](size_t b, size_t e) {
            if (b == e)
                return;
            s += "# Data Structures\n\n";
            for (; b < e; ++b)
                s += texts[order[b]];
        };
        types(0, cut);
        s += resources;
        types(cut, order.size());
        return s;
    }
    void compare(pbt::Case& c, const Result& a, const Result& b)
    {
        REQUIRE_(a.ok && b.ok, "no-result", "no result");
        for (auto& t : a.types) {
            auto i = b.types.find(t.first);
            REQUIRE_(i != b.types.end(), "missing", "type " << pbt::quote(t.first) << " is missing in the second order");
            REQUIRE_(i->second == t.second, "type", "type " << pbt::quote(t.first) << " is " << t.second << " in the first order, " << i->second << " in the second");
        }
        REQUIRE_(a.types.size() == b.types.size(), "missing", "there are more types in the second order");
        REQUIRE_(a.rest == b.rest, "assets", "all but the types is\n" << a.rest << "\nin the first order,\n" << b.rest << "\nin the second");
        REQUIRE_(a.annotations == b.annotations, "annotations", "there are other annotations in the second order: "
                << (a.annotations.empty() ? "none" : *a.annotations.begin()) << " / " << (b.annotations.empty() ? "none" : *b.annotations.begin()));
    }
    std::string resources(pbt::Case& c, gm::Gen& g)
    {
        gm::Writer w(c);
        w.line("# Group Resources");
        w.blank();
        for (size_t n = 1 + c.size(2); n; --n) {
            w.line("## /r" + std::to_string(n));
            w.blank();
            w.line("### GET");
            w.line("+ Response 200 (application/json)");
            gm::Node x = g.attributesSection();
            if (!g.types.empty() && c.boolean()) {
                auto& t = c.pick(g.types);
                x = gm::Node();
                x.kind = t.kind;
                x.named = true;
                x.type = t.name;
            }
            w.attributes(x, 1);
            w.blank();
        }
        return w.o;
    }
}

FACET(orders, 1500, 60000, "sets of named types with resources which use them, in two orders; non-trivial: at least two types, one of which refers to another")
{
    gm::Opts o;
    gm::Gen g(c, o);
    g.declare(7);
    std::vector<std::string> texts;
    bool refers = false;
    for (auto& t : g.types) {
        gm::Writer w(c);
        w.named(t, 2);
        w.blank();
        texts.push_back(w.o);
        for (auto& u : g.types)
            refers = refers || (u.name != t.name && g.reaches(t.name, u.name));
    }
    std::string r = resources(c, g);
    auto o1 = identity(texts.size()), o2 = o1;
    shuffle(c, o2);
    std::string d1 = document(c, r, texts, o1), d2 = document(c, r, texts, o2);
    c << d1 << "\n======== and ========\n" << d2;
    c.nontrivial(refers && d1 != d2);
    Result a = process(d1), b = process(d2);
    REQUIRE_(a.ok && a.errors == 0, "error", "an error for well-formed types: " << (a.annotations.empty() ? "" : *a.annotations.begin()));
    compare(c, a, b);
}

FACET(many, 250, 12000, "up to sixty types in chains and trees of inheritance, members and mixins, in two orders; non-trivial: at least seventeen types")
{
    size_t n = 2 + c.draw(58);
    std::vector<std::string> names, texts;
    std::vector<size_t> parent;
    for (size_t i = 0; i < n; ++i)
        names.push_back(c.pick(std::vector<std::string>{ "T", "a", "Z", "M m" }) + std::to_string(c.draw(9)) + "x" + std::to_string(i));
    bool chain = c.boolean();
    for (size_t i = 0; i < n; ++i) {
        std::string s = "## " + names[i];
        if (i && c.chance(2, 3))
            s += " (" + names[chain ? i - 1 : c.draw(i - 1)] + ")";
        s += "\n\n+ own" + std::to_string(i) + ": v (string)\n";
        if (c.chance(1, 3)) // of any, itself included; never of what includes or inherits from this, as these are after it
            s += "+ m" + std::to_string(i) + " (" + (c.boolean() ? "array[" : "") ;
        if (s.back() == '[')
            s += names[c.draw(i)] + "])\n";
        else if (s.back() == '(')
            s += names[c.draw(i)] + ")\n";
        if (i && c.chance(1, 5))
            s += "+ Include " + names[c.draw(i - 1)] + "\n";
        texts.push_back(s + "\n");
    }
    std::string r = "# Group R\n\n## /r\n\n### GET\n+ Response 200 (application/json)\n    + Attributes (" + names[c.draw(n - 1)] + ")\n\n";
    auto o1 = identity(n), o2 = o1;
    shuffle(c, o2);
    std::string d1 = document(c, r, texts, o1), d2 = document(c, r, texts, o2);
    c << d2;
    c.nontrivial(n >= 17);
    Result a = process(d1), b = process(d2);
    REQUIRE_(a.ok && a.annotations.empty(), "error", "an annotation for well-formed types: " << (a.annotations.empty() ? "" : *a.annotations.begin()));
    compare(c, a, b);
}

namespace
{
    struct Graph {
        size_t n;
        std::vector<std::set<size_t> > takes, holds; // inheritance and mixins; members
        std::vector<std::string> texts;
        bool cyclic(bool all) const
        {
            std::vector<int> state(n);
            std::function<bool(size_t)> visit = [&](size_t i) {
                state[i] = 1;
                for (auto* g : { &takes, &holds })
                    if (all || g == &takes)
                        for (size_t j : (*g)[i])
                            if (state[j] == 1 || (!state[j] && visit(j)))
                                return true;
                state[i] = 2;
                return false;
            };
            for (size_t i = 0; i < n; ++i)
                if (!state[i] && visit(i))
                    return true;
            return false;
        }
        // a type taken from which leads back to the taker by way of members
        bool mixed() const
        {
            for (size_t i = 0; i < n; ++i)
                for (size_t j : takes[i]) {
                    std::set<size_t> seen;
                    std::vector<size_t> todo(1, j);
                    while (!todo.empty()) {
                        size_t k = todo.back();
                        todo.pop_back();
                        if (!seen.insert(k).second)
                            continue;
                        for (auto* g : { &takes, &holds })
                            for (size_t x : (*g)[k])
                                todo.push_back(x);
                    }
                    if (seen.count(i))
                        return true;
                }
            return false;
        }
    };
    Graph graph(pbt::Case& c)
    {
        Graph g;
        g.n = 1 + c.draw(5);
        g.takes.resize(g.n);
        g.holds.resize(g.n);
        std::vector<std::string> names;
        for (size_t i = 0; i < g.n; ++i)
            names.push_back(c.pick(std::vector<std::string>{ "T", "a", "Z" }) + std::to_string(i));
        for (size_t i = 0; i < g.n; ++i) {
            std::string s = "## " + names[i];
            if (c.chance(1, 3)) {
                size_t j = c.draw(g.n - 1);
                g.takes[i].insert(j);
                s += " (" + names[j] + ")";
            }
            s += "\n\n+ own" + std::to_string(i) + "\n";
            for (size_t k = c.size(2); k; --k) {
                size_t j = c.draw(g.n - 1);
                switch (c.draw(4)) {
                    case 0: s += "+ Include " + names[j] + "\n"; g.takes[i].insert(j); break;
                    case 1: s += "+ nested" + std::to_string(k) + "\n    + Include " + names[j] + "\n"; g.takes[i].insert(j); break;
                    case 2: s += "+ one" + std::to_string(k) + " (" + names[j] + ")\n"; g.holds[i].insert(j); break;
                    case 3: s += "+ many" + std::to_string(k) + " (array[" + names[j] + "])\n"; g.holds[i].insert(j); break;
                    default: s += "+ list" + std::to_string(k) + " (array)\n    + (" + names[j] + ")\n"; g.holds[i].insert(j);
                }
            }
            g.texts.push_back(s + "\n");
        }
        return g;
    }
    std::string uses(pbt::Case& c, const Graph& g)
    {
        std::string t = g.texts[c.draw(g.n - 1)].substr(3);
        t = t.substr(0, t.find_first_of(" \n"));
        return "# Group R\n\n## /r\n\n### GET\n+ Response 200 (application/json)\n    + Attributes (" + t + ")\n\n";
    }
}

FACET(cycles, 2500, 100000, "objects which inherit, mix in and hold one another at random; non-trivial: a cycle of any kind")
{
    Graph g = graph(c);
    auto order = identity(g.n);
    shuffle(c, order);
    std::string d = document(c, uses(c, g), g.texts, order);
    c << d;
    bool cyclic = g.cyclic(false), mixed = g.mixed();
    c.nontrivial(g.cyclic(true));
    c.label(cyclic ? "inclusion-cycle" : mixed ? "mixed-cycle" : g.cyclic(true) ? "member-cycle" : "no-cycle");
    Result r = process(d);
    REQUIRE_(r.ok, "no-result", "no result");
    if (cyclic) {
        REQUIRE_(r.errors > 0, "accepted", "types which take their members from one another in a cycle are accepted");
    } else if (!mixed) {
        REQUIRE_(r.errors == 0, "rejected", "an error without a cycle: " << *r.annotations.begin());
        REQUIRE_(r.types.size() == g.n, "missing", r.types.size() << " types of " << g.n);
    }
    if (mixed && !cyclic) {
        // either is fine, in any order
        auto order2 = identity(g.n);
        shuffle(c, order2);
        std::string d2 = document(c, uses(c, g), g.texts, order2);
        Result r2 = process(d2);
        REQUIRE_(r2.ok, "no-result", "no result");
        if ((r.errors == 0) != (r2.errors == 0))
            c.failKnown("P08-mixed-recursion", "order", "a type mixed into what it refers to is accepted in one order, an error in another");
    }
}
// one ring of types which take from the next, or the same with a link missing, amid others
FACET(rings, 2500, 100000, "two to seven types which take their members from the next one round a ring, by inheritance, mixins or mixins into a property, closed or with a link missing, amid types which take from them; non-trivial: always")
{
    size_t n = 2 + c.draw(5), extra = c.size(2), all = n + extra;
    bool closed = c.boolean();
    size_t gap = c.draw(n - 1);
    std::vector<std::string> names, texts;
    for (size_t i = 0; i < all; ++i)
        names.push_back(c.pick(std::vector<std::string>{ "T", "a", "Z" }) + std::to_string(i));
    for (size_t i = 0; i < all; ++i) {
        std::string s = "## " + names[i], more;
        size_t next = i < n ? (i + 1) % n : c.draw(n - 1);
        if (i >= n || closed || i != gap)
            switch (c.draw(3)) {
                case 0: s += " (" + names[next] + ")"; break;
                case 1: more = "+ nested\n    + Include " + names[next] + "\n"; break;
                default: more = "+ Include " + names[next] + "\n";
            }
        if (c.chance(1, 4))
            more += "+ z: text\n";
        texts.push_back(s + "\n\n+ own" + std::to_string(i) + "\n" + more + "\n");
    }
    auto order = identity(all);
    shuffle(c, order);
    std::string r = "# Group R\n\n## /r\n\n### GET\n+ Response 200 (application/json)\n    + Attributes (" + names[c.draw(all - 1)] + ")\n\n";
    std::string d = document(c, r, texts, order);
    c << d;
    c.nontrivial();
    c.label(closed ? "ring" : "chain");
    Result x = process(d);
    REQUIRE_(x.ok, "no-result", "no result");
    if (closed)
        REQUIRE_(x.errors > 0, "accepted", "types which take their members from one another in a ring of " << n << " are accepted");
    else
        REQUIRE_(x.errors == 0 && x.annotations.empty() && x.types.size() == all, "rejected", "an annotation without a cycle: " << (x.annotations.empty() ? "" : *x.annotations.begin()));
}
KNOWN_PROBE(mixed_recursion, "P08-mixed-recursion")
{
    const char* head = "# API\n\n# Data Structures\n\n";
    const char *a = "## Low\n\n+ z (Zed)\n\n", *b = "## Zed\n\n+ Include Low\n\n";
    return process(std::string(head) + a + b).errors != process(std::string(head) + b + a).errors;
}
