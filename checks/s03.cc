// S03: serialisable objects keep unique keys in insertion order; equality is that of the value.
#include "gen_so.h"

PBT_LEAKS

using namespace drafter::utils::so;
using mj::JV;

static bool sameValue(const JV& a, const JV& b)
{
    if (a.t != b.t || a.s != b.s || a.a.size() != b.a.size() || a.o.size() != b.o.size())
        return false;
    for (size_t i = 0; i < a.a.size(); ++i)
        if (!sameValue(a.a[i], b.a[i]))
            return false;
    for (auto& m : a.o) {
        const JV* o = b.get(m.first);
        if (!o || !sameValue(m.second, *o))
            return false;
    }
    return true;
}

FACET(object_history, 400000, 10000000, "histories of unique insertions and look-ups on one object against an ordered-map model; non-trivial: a key is set twice")
{
    Object o;
    JV m(JV::Obj);
    size_t n = c.size(25);
    std::vector<std::string> keys{ "a", "b", "ab", "", "B", "a ", "\xC5\xBE" };
    for (size_t i = 0; i < n; ++i) {
        std::string k = c.pick(keys);
        unsigned op = c.draw(2);
        if (op < 2) {
            JV v = gso::value(c, 1);
            bool had = m.get(k);
            c.nontrivial(had);
            c << (op ? "set " : "insert ") << pbt::quote(k) << "=" << mj::packed(v) << "; ";
            if (had) {
                for (auto& e : m.o)
                    if (e.first == k)
                        e.second = v;
            } else
                m.o.emplace_back(k, v);
            if (op)
                emplace_unique(o, k, gso::toSo(v));
            else
                emplace_unique(o, Object::container_type::value_type(k, gso::toSo(v)));
        } else {
            Value* f = find(o, k);
            const JV* e = m.get(k);
            c << "find " << pbt::quote(k) << "; ";
            REQUIRE_(!f == !e, "find", "find " << pbt::quote(k) << (f ? " found" : " did not find"));
            REQUIRE_(!f || gso::fromSo(*f) == *e, "find-value", "find " << pbt::quote(k) << " gave " << mj::packed(gso::fromSo(*f)));
        }
        JV now = gso::fromSo(o);
        REQUIRE_(now == m, "contents", "object is " << mj::packed(now) << " expected " << mj::packed(m));
    }
}
FACET(array_history, 400000, 10000000, "histories of unique insertions into one array; non-trivial: an element comes twice")
{
    Array a;
    JV m(JV::Arr);
    size_t n = c.size(16);
    for (size_t i = 0; i < n; ++i) {
        JV v = gso::value(c, c.chance(1, 3) ? 2 : 0);
        if (c.chance(1, 3) && !m.a.empty())
            v = m.a[c.draw(m.a.size() - 1)];
        if (c.chance(1, 3) && v.o.size() > 1)
            std::swap(v.o.front(), v.o.back());
        c << mj::packed(v) << "; ";
        bool had = false;
        for (auto& e : m.a)
            had = had || sameValue(e, v);
        c.nontrivial(had);
        if (!had)
            m.a.push_back(v);
        emplace_unique(a, gso::toSo(v));
        REQUIRE_(gso::fromSo(a) == m, "contents", "array is " << mj::packed(gso::fromSo(a)) << " expected " << mj::packed(m));
    }
}
static JV mutate(pbt::Case& c, JV v)
{
    switch (v.t) {
        case JV::Arr:
            if (!v.a.empty()) {
                size_t i = c.draw(v.a.size() - 1);
                switch (c.draw(3)) {
                    case 0: v.a[i] = mutate(c, v.a[i]); break;
                    case 1: v.a.erase(v.a.begin() + i); break;
                    case 2: v.a.push_back(v.a[i]); break;
                    default: std::swap(v.a[i], v.a[0]);
                }
                return v;
            }
            break;
        case JV::Obj:
            if (!v.o.empty()) {
                size_t i = c.draw(v.o.size() - 1);
                switch (c.draw(3)) {
                    case 0: v.o[i].second = mutate(c, v.o[i].second); break;
                    case 1: v.o.erase(v.o.begin() + i); break;
                    case 2: std::swap(v.o[i], v.o[0]); break;
                    default:
                        if (!v.get(v.o[i].first + "'"))
                            v.o[i].first += "'";
                }
                return v;
            }
            break;
        case JV::Str: v.s += "x"; return v;
        default: break;
    }
    return gso::value(c, 1);
}
FACET(equality, 700000, 20000000, "pairs of value trees, half of them one edit apart; non-trivial: a container is involved")
{
    JV a = gso::value(c, 3), b;
    switch (c.draw(2)) {
        case 0: b = a; break;
        case 1: b = mutate(c, a); break;
        default: b = gso::value(c, 3);
    }
    c << mj::packed(a) << " == " << mj::packed(b);
    c.nontrivial(a.a.size() + a.o.size() > 1);
    bool e = sameValue(a, b);
    c.label(e ? "equal" : "different");
    Value x = gso::toSo(a), y = gso::toSo(b);
    REQUIRE_((x == y) == e, "equality", "compare as " << (x == y));
    REQUIRE_((y == x) == e, "symmetry", "compare the other way round as " << (y == x));
    Value z = x;
    REQUIRE_(z == x, "copy", "a copy differs from its original");
    Value w = std::move(z);
    REQUIRE_(w == x && gso::fromSo(w) == a, "move", "a moved value differs from the original");
}
