// P09: what is generated from attributes, and when.
#include "capi.h"
#include "gen_data.h"
#include "gen_mson.h"
#include "ref_expand.h"
#include "result.h"

using mj::JV;
using namespace gd;

namespace
{
    struct Reader {
        std::map<std::string, const JV*> named;
        Kind kindOf(std::string n) const
        {
            for (int i = 0; i < 50; ++i) {
                for (int k = 0; k < kHolder; ++k)
                    if (n == kindName(k))
                        return (Kind)k;
                auto it = named.find(n);
                if (it == named.end())
                    break;
                n = res::element(*it->second);
            }
            return kNull;
        }
        void info(M::Info& to, const JV* from) const
        {
            if (from)
                for (auto& p : from->o)
                    set(to, p.first, read(p.second));
        }
        M read(const JV& e) const
        {
            M m = none(kindOf(res::element(e)));
            m.name = res::element(e);
            info(m.meta, e.get("meta"));
            info(m.attrs, e.get("attributes"));
            const JV* x = res::content(e);
            if (!x)
                return m;
            m.has = true;
            switch (m.kind) {
                case kString:
                case kNumber:
                case kRef: m.str = x->s; break;
                case kBool: m.flag = x->t == JV::True; break;
                case kMember: {
                    M r = member(read(*x->get("key")), read(*x->get("value")));
                    r.meta = m.meta;
                    r.attrs = m.attrs;
                    return r;
                }
                case kEnum: m.kids.push_back(read(*x)); break;
                default:
                    for (auto& k : x->a)
                        m.kids.push_back(read(k));
            }
            return m;
        }
    };
    const JV* find(const JV& e, const std::string& name, const std::string& cls)
    {
        if (res::element(e) == name && (cls.empty() || res::hasClass(e, cls)))
            return &e;
        for (auto& x : e.a)
            if (auto* r = find(x, name, cls))
                return r;
        for (auto& x : e.o)
            if (auto* r = find(x.second, name, cls))
                return r;
        return nullptr;
    }
    // an inclusion of what is described by samples only
    bool includesSampled(const M& m)
    {
        if (m.kind == kRef && m.attr("resolved")) {
            const M& x = *m.attr("resolved");
            M y = x.kind == kExtend ? mergeAll(x.kids) : x;
            if (!y.has && defines(y))
                return true;
        }
        for (auto& k : m.kids)
            if (includesSampled(k))
                return true;
        for (auto& p : m.attrs)
            if (includesSampled(p.second))
                return true;
        return false;
    }
    // a property of an option by the name of one outside of the choice, or of an option of another choice
    bool redefinedByChoice(const JV& s)
    {
        std::set<std::string> seen;
        bool twice = false;
        auto add = [&](const JV* o) {
            std::set<std::string> own;
            if (o && o->get("properties"))
                for (auto& p : o->get("properties")->o)
                    own.insert(p.first);
            return own;
        };
        auto take = [&](const std::set<std::string>& n) {
            for (auto& x : n)
                twice = !seen.insert(x).second || twice;
        };
        if (s.t == JV::Obj) {
            take(add(&s));
            if (auto* all = s.get("allOf"))
                for (auto& one : all->a)
                    if (auto* ops = one.get("oneOf")) {
                        std::set<std::string> n;
                        for (auto& op : ops->a)
                            for (auto& x : add(&op))
                                n.insert(x);
                        take(n);
                    }
        }
        for (auto& x : s.a)
            twice = twice || redefinedByChoice(x);
        for (auto& x : s.o)
            twice = twice || redefinedByChoice(x.second);
        return twice;
    }
    bool json(const std::string& s, JV& v)
    {
        mj::JsonParser j(s);
        return j.parse(v);
    }
}

FACET(bodies, 2500, 120000, "attributes of a response which use named types: the body is the value they describe and valid against the schema; non-trivial: a body of six or more values")
{
    gm::Opts o;
    o.emptyEnums = false;
    gm::Gen g(c, o);
    g.declare(4);
    gm::Named resource; // its attributes are a type by its name
    if (c.chance(1, 3)) {
        resource.name = "Coupon r";
        resource.node = g.attributesSection();
        resource.kind = resource.node.kind;
    }
    auto declared = g.types;
    if (!resource.name.empty()) {
        g.types.push_back(resource);
        g.visible = g.types.size();
        c.label("resource");
    }
    gm::Node n = g.attributesSection();
    gm::Writer w(c);
    w.line("# API");
    w.blank();
    if (resource.name.empty())
        w.line("## GET /r");
    else {
        w.line("## " + resource.name + " [/r]");
        w.attributes(resource.node, 0);
        w.blank();
        w.line("### GET");
    }
    w.line("+ Response 200 (application/json)");
    w.attributes(n, 1);
    w.blank();
    w.line("# Data Structures");
    w.blank();
    for (auto& t : declared)
        w.named(t, 2);
    c << w.o;
    capi::Parse p(w.o);
    REQUIRE_(p.result, "no-result", "no result");
    JV got;
    REQUIRE_(json(p.json(), got), "json", "the output is not JSON");
    REQUIRE_(res::annotations(got).empty(), "annotation", "an annotation for well-formed attributes: " << res::text(res::annotations(got)[0]));
    const JV* response = find(got, "httpResponse", "");
    REQUIRE_(response, "no-response", "no response");
    const JV *ds = find(*response, "dataStructure", ""), *body = find(*response, "asset", "messageBody"), *sch = find(*response, "asset", "messageBodySchema");
    REQUIRE_(ds && body && sch, "missing", (!ds ? "data structure" : !body ? "body" : "schema") << " is missing");
    JV v, s;
    REQUIRE_(json(res::text(body), v), "body", "the body is not JSON: " << res::text(body));
    REQUIRE_(json(res::text(sch), s), "schema", "the schema is not JSON: " << res::text(sch));
    std::string lines = res::text(body);
    c.nontrivial(std::count(lines.begin(), lines.end(), '\n') >= 6);

    // elements are told apart by their source maps when they are merged
    JV mapped;
    REQUIRE_(json(p.json(true), mapped), "json", "the output is not JSON");
    ds = find(*find(mapped, "httpResponse", ""), "dataStructure", "");
    Reader r;
    std::vector<const JV*> all;
    if (auto* category = find(mapped, "category", "dataStructures"))
        for (auto& d : res::content(*category)->a)
            all.push_back(res::content(d));
    if (!resource.name.empty())
        all.push_back(res::content(*find(*find(mapped, "resource", ""), "dataStructure", "")));
    for (auto* t : all)
        r.named[res::text(res::metaOf(*t, "id"))] = t;
    Types types = baseTypes();
    for (auto& t : r.named)
        types[t.first] = r.read(*t.second);
    M m;
    try {
        Expander e(types);
        m = e.expand(r.read(*res::content(*ds)));
    } catch (const std::length_error&) {
        c.discard();
        return;
    }
    JV want = value(m);
    if (!(want == v)) {
        keepsAppended() = false;
        JV drops = value(m);
        keepsAppended() = true;
        if (drops == v)
            return c.failKnown("P09-array-without-value", "array-without-value", "the body is " + mj::packed(v) + ", the attributes describe " + mj::packed(want));
    }
    REQUIRE_(want == v, "value", "the body is " << mj::packed(v) << ", the attributes describe " << mj::packed(want));

    if (includesSampled(m)) { // as for S05
        c.label("not-validated");
        return;
    }
    auto bad = ms::malformed(s);
    if (!bad.empty() && ms::malformed(s, true).empty())
        return c.failKnown("P09-empty-choice", "empty-choice", bad + " in " + mj::packed(s));
    REQUIRE_(bad.empty(), "malformed", bad << " in " << mj::packed(s));
    bad = ms::invalid(s, v);
    if (bad.empty())
        return;
    std::string text = bad + " for " + mj::packed(v) + " against " + mj::packed(s);
    ms::Lenient l;
    l.oneOf = l.extra = true;
    if (ms::invalid(s, v, l).empty())
        return c.failKnown("P09-one-of", "one-of", text);
    l.patterns = true;
    if (ms::invalid(s, v, l).empty())
        return c.failKnown("P09-variable-pattern", "variable", text);
    keepOpenItems() = true;
    JV filled = value(m);
    keepOpenItems() = false;
    if (!(filled == v) && ms::invalid(s, filled, l).empty())
        return c.failKnown("P09-fixed-array-open-item", "open-item", text);
    if (redefinedByChoice(s)) { // as for S05
        c.label("not-validated");
        return;
    }
    c.fail("invalid", text);
}

FACET(assets, 4000, 150000, "payloads with and without attributes, bodies, schemas and JSON content types, under all options: exactly the assets called for; non-trivial: attributes in a payload with a content type")
{
    struct Asset {
        std::string cls, type, text;
    };
    struct Payload {
        bool attributes, body, schema, js;
        std::string given, type; // as given, as written in the result
        std::vector<Asset> want(unsigned opts, bool inherited) const
        {
            std::vector<Asset> r;
            bool gen = js && (attributes || inherited);
            if (body)
                r.push_back({ "messageBody", type, "the body\n" });
            else if (gen && !(opts & capi::SkipBodies))
                r.push_back({ "messageBody", type, "" });
            if (schema)
                r.push_back({ "messageBodySchema", js ? "application/schema+json" : "text/plain", "the schema\n" });
            else if (gen && !(opts & capi::SkipSchemas))
                r.push_back({ "messageBodySchema", "application/schema+json", "" });
            return r;
        }
    };
    unsigned opts = (c.boolean() ? capi::SkipBodies : 0) | (c.boolean() ? capi::SkipSchemas : 0);
    std::string s = "# API\n\n## R [/r]\n\n";
    if (c.chance(1, 3))
        s += "+ Attributes\n    + ofResource: 1 (number)\n\n";
    s += "### A [POST]\n\n";
    bool ofAction = c.boolean();
    if (ofAction)
        s += "+ Attributes\n    + ofAction: 1 (number)\n\n";
    static const std::vector<std::vector<std::string>> types = { { "text", "plain", "" }, { "application", "json", "" }, { "application", "json", "" }, { "application", "vnd.x", "json" }, { "application", "hal", "json" }, { "application", "xml", "" },
        { "image", "svg", "xml" }, { "application", "jsonx", "" }, { "application", "jso", "" }, { "text", "json", "" }, { "application", "schema", "json" }, { "application", "json", "xml" }, { "application", "x.json", "" } };
    auto mediaType = [&](Payload& p, bool anyText) {
        p.js = false;
        if (c.chance(1, 10))
            return;
        std::vector<std::string> t = c.pick(types);
        p.js = t[0] == "application" && (t[2].empty() ? t[1] : t[2]) == "json";
        for (auto& x : t)
            for (auto& ch : x)
                if (ch >= 'a' && ch <= 'z' && c.chance(1, 12))
                    ch -= 32;
        p.given = p.type = t[0] + "/" + t[1] + (t[2].empty() ? "" : "+" + t[2]);
        for (size_t n = c.chance(1, 3) ? 1 + c.draw(2) : 0; n; --n) {
            static const std::vector<std::string> names = { "charset", "v", "profile", "x-y", "Q" };
            static const std::vector<std::string> plain = { "utf-8", "1.0", "a+b", "X", "~" };
            static const std::vector<std::string> quoted = { "a b", "x=y", "a;b", "a,b", "a/b", "<x>", "a@b", "what?", "a:b", "[x]", "" };
            bool q = c.boolean();
            std::string v = q ? (anyText && c.chance(1, 8) ? "(p)" : c.pick(quoted)) : c.pick(plain), k = c.pick(names);
            std::string x = k + "=" + (q || c.chance(1, 4) ? "\"" + v + "\"" : v);
            p.given += (c.boolean() ? ";" : "; ") + x;
            p.type += "; " + k + "=" + (q ? "\"" + v + "\"" : v);
        }
    };
    bool inHeaders = false;
    auto payload = [&](const std::string& head) {
        Payload p;
        inHeaders = c.chance(1, 3);
        mediaType(p, inHeaders);
        p.attributes = c.boolean();
        p.body = c.chance(1, 3);
        p.schema = c.chance(1, 3);
        inHeaders = !p.given.empty() && inHeaders;
        std::string header = c.pick(std::vector<std::string>{ "Content-Type", "content-type", "Content-type", "CONTENT-TYPE" });
        s += "+ " + head + (p.type.empty() || inHeaders ? "" : " (" + p.given + ")") + "\n\n";
        if (inHeaders)
            s += "    + Headers\n\n            " + header + ": " + p.given + "\n\n";
        if (p.attributes)
            s += "    + Attributes\n        + own: x (string)\n\n";
        bool first = c.boolean();
        for (int i = 0; i < 2; ++i)
            if (first == !i) {
                if (p.body)
                    s += "    + Body\n\n            the body\n\n";
            } else if (p.schema)
                s += "    + Schema\n\n            the schema\n\n";
        return p;
    };
    bool hasRequest = c.boolean();
    Payload q, a;
    if (hasRequest)
        q = payload("Request");
    bool model = c.chance(1, 4);
    if (model) { // the response refers to a model, defined before or after it
        std::string r = s + (c.boolean() ? "+ Response 200\n\n    [M][]\n\n" : "+ Response 200\n\n    [ M ][]\n\n");
        s = "## M [/m]\n\n";
        a = payload("Model");
        s = c.boolean() ? r + s : r.substr(0, 7) + s + r.substr(7);
    } else
        a = payload("Response 200");
    c.label(model ? "model" : "no model");
    c << s << "\noptions " << opts;
    c.nontrivial((a.attributes && !a.type.empty()) || (hasRequest && q.attributes && !q.type.empty()));
    capi::Parse p(s, opts);
    REQUIRE_(p.result, "no-result", "no result");
    JV got;
    REQUIRE_(json(p.json(), got), "json", "the output is not JSON");
    auto check = [&](const char* name, const std::vector<Asset>& want, const std::string& member) {
        const JV* e = find(got, name, "");
        REQUIRE_(e, "no-payload", "no " << name);
        std::vector<const JV*> assets;
        if (auto* k = res::content(*e))
            for (auto& x : k->a)
                if (res::element(x) == "asset")
                    assets.push_back(&x);
        std::ostringstream o;
        o << name << " has";
        for (auto* x : assets)
            o << " " << mj::packed(*x);
        o << ", expected";
        for (auto& x : want)
            o << " " << x.cls << " (" << x.type << ")";
        REQUIRE_(assets.size() == want.size(), "count", o.str());
        for (size_t i = 0; i < want.size(); ++i) {
            auto& w = want[i];
            auto& x = *assets[i];
            const JV* t = res::attribute(x, "contentType");
            std::string type = res::text(t);
            REQUIRE_(res::hasClass(x, w.cls) && type == w.type, "kind", o.str());
            std::string text = res::text(&x);
            if (!w.text.empty()) {
                REQUIRE_(text == w.text, "text", o.str());
            } else {
                JV v;
                REQUIRE_(json(text, v) && v.t == JV::Obj, "generated", o.str());
                if (w.cls == "messageBody")
                    REQUIRE_(v.o.size() == 1 && v.o[0].first == member, "member", o.str());
            }
        }
    };
    check("httpResponse", a.want(opts, false), "own");
    if (hasRequest)
        check("httpRequest", q.want(opts, ofAction), q.attributes ? "own" : "ofAction");
}

namespace
{
    std::string problem(const std::string& attributes, bool schemaOnly = false)
    {
        capi::Parse p("# API\n\n## GET /r\n+ Response 200 (application/json)\n    + Attributes" + attributes);
        JV got, v, s;
        json(p.json(), got);
        const JV *body = find(got, "asset", "messageBody"), *sch = find(got, "asset", "messageBodySchema");
        if (!body || !sch || !json(res::text(body), v) || !json(res::text(sch), s))
            return "none";
        return schemaOnly ? ms::malformed(s) : ms::invalid(s, v);
    }
}
KNOWN_PROBE(array_without_value, "P09-array-without-value")
{
    capi::Parse p("# API\n\n## GET /r\n+ Response 200 (application/json)\n    + Attributes (A)\n        + x\n\n# Data Structures\n\n## A (array)\n");
    JV got;
    json(p.json(), got);
    return res::text(find(got, "asset", "messageBody")).find('x') == std::string::npos;
}
KNOWN_PROBE(one_of, "P09-one-of") { return !problem("\n        + One Of\n            + a: x\n            + b: y\n").empty(); }
KNOWN_PROBE(empty_choice, "P09-empty-choice") { return !problem("\n        + One Of\n", true).empty(); }
KNOWN_PROBE(variable_pattern, "P09-variable-pattern") { return !problem("\n        + *a*: x\n        + b: 1 (number)\n").empty(); }
KNOWN_PROBE(open_item, "P09-fixed-array-open-item") { return !problem(" (array, fixed)\n        + (string)\n        + 1 (number)\n").empty(); }
