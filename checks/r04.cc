// R04: the type registry resolves names exactly and finds the root of every inheritance chain.
#include "pbt.h"
#include "gen_refract.h"
#include "refract/Exception.h"
#include "refract/Registry.h"
#include "refract/TypeQueryVisitor.h"
#include <map>

PBT_LEAKS

using namespace gr;
using namespace refract;

static const std::vector<std::string> base = { "boolean", "number", "string", "array", "object", "enum", "null" };
static const std::vector<std::string> reserved = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };
static const std::vector<std::string> ids = { "A", "B", "C", "D", "E", "a", "A ", "", "\xC5\xBE", "strin", "strings", "String", "objecu" };
static bool isRes(const std::string& s) { return std::find(reserved.begin(), reserved.end(), s) != reserved.end(); }
static std::string id(pbt::Case& c)
{
    return c.chance(1, 6) ? c.pick(reserved) : c.pick(ids);
}
typedef std::map<std::string, M> Model;
static Model fresh()
{
    Model m;
    static const Kind k[] = { kBool, kNumber, kString, kArray, kObject, kEnum, kNull };
    for (size_t i = 0; i < base.size(); ++i)
        m[base[i]] = none(k[i]);
    return m;
}
static std::string root(const Model& m, const std::string& name)
{
    // the identifier of the root, or "-"
    auto it = m.find(name);
    if (it == m.end())
        return "-";
    std::set<std::string> seen;
    for (;;) {
        if (isRes(it->second.name))
            return it->first;
        seen.insert(it->first);
        auto n = m.find(it->second.name);
        if (n == m.end() || seen.count(n->first))
            return it->first;
        it = n;
    }
}
FACET(history, 70000, 1500000, "histories of additions, refusals, removals and look-ups; non-trivial: two or more types registered at once")
{
    Registry r;
    Model m = fresh();
    Opts o;
    o.typeNames = { "A", "B", "C", "D", "E", "a", "" };
    size_t ops = 2 + c.draw(12);
    for (size_t i = 0; i < ops; ++i) {
        c << "\n";
        switch (c.weighted({ 6, 2, 1, 1 })) {
            case 0: {
                M e = gen(c, 1, o, (int)c.pick(std::vector<int>{ kString, kObject, kArray, kEnum, kNumber, kSelect, kExtend, kMember }));
                gr::erase(e.meta, "id");
                int how = (int)c.weighted({ 10, 1, 1 });
                std::string name;
                if (how == 0) {
                    name = id(c);
                    set(e.meta, "id", str(name));
                } else if (how == 1)
                    set(e.meta, "id", c.boolean() ? leaf(kNumber, "1") : leaf(kRef, "A"));
                c << "add " << show(e);
                bool refused = how != 0 || isRes(name), dup = !refused && m.count(name);
                bool threw = false, added = false;
                try {
                    added = r.add(build(e));
                } catch (const LogicError&) {
                    threw = true;
                }
                REQUIRE_(threw == refused, "refuse", "adding " << (threw ? "is refused" : "is accepted"));
                REQUIRE_(added == (!refused && !dup), "add", "add returned " << added);
                if (added)
                    m[name] = e;
                break;
            }
            case 1: {
                std::string n = c.chance(1, 8) ? c.pick(base) : c.pick(ids);
                c << "remove " << pbt::quote(n);
                bool there = m.count(n), got = r.remove(n);
                m.erase(n);
                REQUIRE_(got == there, "remove", "remove returned " << got);
                break;
            }
            case 2: {
                if (!c.chance(1, 5))
                    break;
                c << "clear";
                r.clear();
                m.clear();
                break;
            }
            default:
                break;
        }
        size_t own = 0;
        for (auto& p : m)
            own += std::find(base.begin(), base.end(), p.first) == base.end();
        c.nontrivial(own >= 2);
        auto look = [&](const std::string& n) {
            auto e = r.find(n);
            auto it = m.find(n);
            REQUIRE_(!!e == (it != m.end()), "find", pbt::quote(n) << (e ? " is found" : " is not found"));
            if (!e)
                return;
            REQUIRE_(same(observe(*e), it->second), "find", pbt::quote(n) << " is " << show(observe(*e)) << " expected " << show(it->second));
        };
        for (auto& n : ids)
            look(n);
        for (auto& n : reserved)
            look(n);
        std::string n = c.boolean() ? c.pick(ids) : c.pick(reserved), want = root(m, n);
        auto got = FindRootAncestor(n, r);
        REQUIRE_(got == (want == "-" ? nullptr : r.find(want)), "root", "the root of " << pbt::quote(n) << " is not " << pbt::quote(want));
    }
}
// inheritance graphs, chains and cycles alike, in any order of registration
FACET(roots, 150000, 3000000, "inheritance graphs of up to 12, now and then 60 types, each deriving from any other, itself, a base or an unknown type; non-trivial: some chain of three or more")
{
    bool large = c.chance(1, 40);
    size_t n = 1 + c.draw(large ? 59 : 11);
    Registry r;
    Model m = fresh();
    bool chain = large || c.boolean();
    for (size_t i = 0; i < n; ++i) {
        std::string name = "T" + std::to_string(i), parent;
        size_t k = c.weighted({ large ? 200u : 8u, 2, 1 });
        if (k == 0)
            parent = "T" + std::to_string(chain ? (i + 1) % n : c.draw(n - 1));
        else
            parent = k == 1 ? c.pick(reserved) : "unknown";
        M e = none((Kind)c.pick(std::vector<int>{ kObject, kString, kArray }));
        e.name = parent;
        set(e.meta, "id", str(name));
        m[name] = e;
        c << name << ":" << parent << " ";
    }
    std::vector<std::string> order;
    for (size_t i = 0; i < n; ++i)
        order.insert(order.begin() + c.draw(order.size()), "T" + std::to_string(i));
    for (auto& t : order)
        REQUIRE_(r.add(build(m[t])), "add", "adding " << t << " is refused");
    for (auto& t : order) {
        std::string want = root(m, t);
        size_t len = 0;
        for (std::string x = t; m.count(x) && len < 20; x = m[x].name)
            ++len;
        c.nontrivial(len >= 3);
        auto got = FindRootAncestor(t, r);
        REQUIRE_(got == r.find(want), "root", "the root of " << t << " is not " << want << " but " << (got ? show(observe(*got)) : std::string("none")));
    }
    REQUIRE_(!FindRootAncestor("unknown", r), "root", "an unknown name has a root");
}
FACET(names, 20000, 200000, "the reserved names and names one edit away; non-trivial: one edit away")
{
    std::string s = c.pick(reserved), t = s;
    switch (c.draw(4)) {
        case 0: break;
        case 1: t.erase(c.draw(t.size() - 1), 1); break;
        case 2: t.insert(t.begin() + c.draw(t.size()), (char)c.range('a', 'z')); break;
        case 3: t[c.draw(t.size() - 1)] = (char)c.range('A', 'z'); break;
        default: t = c.boolean() ? t + c.pick(reserved) : t.substr(0, c.draw(t.size()));
    }
    c << pbt::quote(t);
    c.nontrivial(t != s);
    REQUIRE_(isReserved(t) == isRes(t) && isReserved(t.c_str()) == isRes(t), "reserved", pbt::quote(t) << " is " << (isRes(t) ? "not " : "") << "reserved");
}
