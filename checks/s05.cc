// S05: the JSON schema generated from a data structure is well-formed, holds of the value generated from it, and
// describes what the structure describes.
#include "gen_data.h"
#include "gen_so.h"
#include "refract/JsonSchema.h"
#include "refract/JsonValue.h"

PBT_LEAKS

using namespace gd;

static JV schemaOf(const M& m) { return gso::fromSo(schema::generateJsonSchema(*build(m))); }
static JV valueOf_(const M& m) { return gso::fromSo(generateJsonValue(*build(m))); }

FACET(conforms, 150000, 5000000, "random expanded data structures: the generated value is valid against the generated schema; non-trivial: six or more elements")
{
    DOpts o;
    int n = 0;
    o.counter = &n;
    o.duplicates = c.chance(1, 4);
    o.select = o.variable = !o.duplicates;
    M m = data(c, 1 + (int)c.draw(2), o);
    c << show(m);
    c.nontrivial(count(m) >= 6);
    c.label(kindName(m.kind));
    JV s = schemaOf(m), v = valueOf_(m);
    auto w = ms::malformed(s);
    if (!w.empty() && ms::malformed(s, true).empty())
        c.failKnown("S05-empty-choice", "empty-choice", w + " in " + mj::packed(s));
    else
        REQUIRE_(w.empty(), "malformed", w << " in " << mj::packed(s));
    auto id = s.get("$schema");
    REQUIRE_(id && id->t == JV::Str && id->s == "http://json-schema.org/draft-07/schema#", "version", "the schema does not name its version: " << mj::packed(s));
    w = ms::invalid(s, v);
    if (w.empty())
        return;
    std::string text = w + " for " + mj::packed(v) + " against " + mj::packed(s);
    ms::Lenient l;
    l.oneOf = l.extra = true;
    if (ms::invalid(s, v, l).empty())
        return c.failKnown("S05-one-of", "one-of", text);
    l.patterns = true;
    if (ms::invalid(s, v, l).empty())
        return c.failKnown("S05-variable-pattern", "variable", text);
    keepOpenItems() = true;
    JV filled = value(m);
    keepOpenItems() = false;
    if (!mj::packed(filled).empty() && !(filled == v) && ms::invalid(s, filled, l).empty())
        return c.failKnown("S05-fixed-array-open-item", "open-item", text);
    c.fail("invalid", text);
}
// ---- values near the one generated
static JV anyValue(pbt::Case& c)
{
    switch (c.draw(13)) {
        case 0: return JV(JV::Null);
        case 1: return JV(JV::True);
        case 2: return JV(JV::False);
        case 3: return JV::num("0");
        case 4: return JV::num("1");
        case 5: return JV::num("42");
        case 6: return JV::str("");
        case 7: return JV::str("a");
        case 8: return JV::str("b");
        case 9: return JV(JV::Arr);
        case 10: {
            JV v(JV::Arr);
            v.a.push_back(JV::num("1"));
            return v;
        }
        case 11: {
            JV v(JV::Arr);
            v.a.push_back(JV::str("a"));
            v.a.push_back(JV::num("1"));
            return v;
        }
        case 12: return JV(JV::Obj);
        default: {
            JV v(JV::Obj);
            v.o.emplace_back("p0", JV::num("1"));
            return v;
        }
    }
}
static JV near(pbt::Case& c, const JV& v)
{
    JV r = v;
    if (v.t == JV::Obj && !v.o.empty() && c.chance(5, 6)) {
        size_t i = c.draw(v.o.size() - 1);
        switch (c.draw(4)) {
            case 0: r.o.erase(r.o.begin() + i); break;
            case 1: put(r, "extra", anyValue(c)); break;
            default: r.o[i].second = near(c, v.o[i].second);
        }
        return r;
    }
    if (v.t == JV::Arr && !v.a.empty() && c.chance(5, 6)) {
        size_t i = c.draw(v.a.size() - 1);
        switch (c.draw(5)) {
            case 0: r.a.erase(r.a.begin() + i); break;
            case 1: r.a.insert(r.a.begin() + i, c.boolean() ? v.a[c.draw(v.a.size() - 1)] : anyValue(c)); break;
            case 2: std::swap(r.a[0], r.a[i]); break;
            default: r.a[i] = near(c, v.a[i]);
        }
        return r;
    }
    if (v.t == JV::Obj && c.chance(1, 2)) {
        put(r, "extra", anyValue(c));
        return r;
    }
    if (v.t == JV::Str && c.chance(1, 2)) {
        r.s += "x";
        return r;
    }
    if (v.t == JV::Num && c.chance(1, 2)) {
        r.s = "77";
        return r;
    }
    return anyValue(c);
}
FACET(describes, 200000, 7000000, "random expanded data structures and values around the generated one: the schema allows exactly those the structure describes; non-trivial: four or more elements and the value is not the generated one")
{
    DOpts o;
    int n = 0;
    o.counter = &n;
    o.select = o.variable = o.mixinArrays = false;
    M m = data(c, 1 + (int)c.draw(2), o);
    JV s = schemaOf(m);
    JV base = valueOf_(m), v = base;
    for (size_t k = c.size(2); k; --k)
        v = near(c, v);
    c << show(m) << " and " << mj::packed(v);
    c.nontrivial(count(m) >= 4 && !(v == base));
    bool want = accepts(m, v);
    c.label(want ? "described" : "not described");
    auto w = ms::invalid(s, v);
    REQUIRE_(w.empty() == want, want ? "too-narrow" : "too-wide", (w.empty() ? std::string("allowed") : w) << " by " << mj::packed(s));
}
// ---- the pattern of a property with a variable name
static std::string text(pbt::Case& c)
{
    static const std::string marks = "^$*+?.(){}[]|\\/-,:;<>=!#&~@%'\"`_ ab1xz\t";
    std::string s;
    for (size_t n = 1 + c.size(6); n; --n)
        if (c.chance(1, 12))
            s += "\xC5\xBE";
        else
            s += marks[c.draw(marks.size() - 1)];
    return s;
}
FACET(patterns, 30000, 800000, "objects with one property with a variable name: the pattern of a fixed name is found in exactly the names which contain it, that of another in all; non-trivial: a fixed name with punctuation")
{
    std::string t = text(c);
    bool fixed = c.chance(4, 5), filled = fixed || c.boolean();
    M k = filled ? str(t) : none(kString);
    M m = member(k, c.chance(1, 4) ? none(kNumber) : str("v"));
    set(m.attrs, "variable", boolean(true));
    M o = seq(kObject, { m });
    if (fixed)
        tag(o.kids[0].kids[0], "fixed");
    if (c.chance(1, 4)) // an object which is fixed does not fix the name
        tag(o, "fixed");
    JV s = schemaOf(o);
    c << show(o) << " gives " << mj::packed(s);
    c.nontrivial(fixed && std::any_of(t.begin(), t.end(), [](char x) { return ispunct((unsigned char)x); }));
    auto w = ms::malformed(s);
    REQUIRE_(w.empty(), "malformed", w);
    const JV* pp = s.get("patternProperties");
    REQUIRE_(pp && pp->t == JV::Obj && pp->o.size() == 1, "patterns", "not one pattern");
    std::regex r(pp->o[0].first, std::regex::ECMAScript);
    for (int i = 0; i < 6; ++i) {
        std::string n = t;
        switch (i ? c.draw(5) : 0) {
            case 0: break;
            case 1: n.erase(c.draw(n.size() - 1), 1); break;
            case 2: n[c.draw(n.size() - 1)] = text(c)[0]; break;
            case 3: n = text(c) + n + text(c); break;
            case 4: n.insert(c.draw(n.size()), text(c)); break;
            default: n = text(c);
        }
        bool want = !fixed || n.find(t) != std::string::npos;
        REQUIRE_(std::regex_search(n, r) == want, "pattern", "the pattern " << pbt::quote(pp->o[0].first) << (want ? " does not match " : " matches ") << pbt::quote(n));
    }
}

static M prop(const std::string& k, const M& v) { return member(str(k), v); }
static std::string problem(const M& m) { return ms::invalid(schemaOf(m), valueOf_(m)); }
KNOWN_PROBE(one_of, "S05-one-of")
{
    return !problem(seq(kObject, { seq(kSelect, { seq(kOption, { prop("a", str("x")) }), seq(kOption, { prop("b", str("y")) }) }) })).empty();
}
KNOWN_PROBE(empty_choice, "S05-empty-choice")
{
    return !ms::malformed(schemaOf(seq(kObject, { seq(kSelect, { none(kOption) }) }))).empty();
}
KNOWN_PROBE(variable_pattern, "S05-variable-pattern")
{
    M v = prop("a", str("x"));
    set(v.attrs, "variable", boolean(true));
    return !problem(seq(kObject, { v, prop("b", leaf(kNumber, "1")) })).empty();
}
KNOWN_PROBE(open_item, "S05-fixed-array-open-item")
{
    M m = seq(kArray, { none(kString), leaf(kNumber, "1") });
    tag(m, "fixed");
    return !problem(m).empty();
}
