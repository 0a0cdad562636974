// P04: every mistake is reported, where it is, and nothing else is.
#include "capi.h"
#include "gen_blueprint.h"
#include "result.h"

using mj::JV;
using namespace gb;

struct Want {
    int mark, code;
    std::string has;
    std::string keeps; // what the body of a payload says nevertheless
};

class Spoil
{
    pbt::Case& c;
    Blueprint& b;
    int next = 0;

    std::vector<Resource*> resources()
    {
        std::vector<Resource*> o;
        for (auto& r : b.resources)
            o.push_back(&r);
        for (auto& g : b.groups)
            for (auto& r : g.resources)
                o.push_back(&r);
        return o;
    }
    template <class T>
    T* any(const std::vector<T*>& v)
    {
        return v.empty() ? nullptr : v[c.draw(v.size() - 1)];
    }
    struct At {
        Resource* r;
        Action* a;
    };
    template <class F>
    bool action(At& out, F&& good)
    {
        std::vector<At> o;
        for (auto* r : resources())
            for (auto& a : r->actions)
                if (!a.spoiled && good(*r, a))
                    o.push_back({ r, &a });
        if (o.empty())
            return false;
        out = o[c.draw(o.size() - 1)];
        out.a->spoiled = true;
        return true;
    }
    bool action(At& out)
    {
        return action(out, [](Resource&, Action&) { return true; });
    }
    // a payload of an action nothing else is wrong with
    template <class F>
    Payload* payload(At& at, F&& good)
    {
        std::vector<std::pair<At, Payload*> > o;
        for (auto* r : resources())
            for (auto& a : r->actions)
                if (!a.spoiled)
                    for (auto& e : a.examples) {
                        for (auto& p : e.requests)
                            if (p.ref.empty() && good(p))
                                o.push_back({ { r, &a }, &p });
                        for (auto& p : e.responses)
                            if (p.ref.empty() && good(p))
                                o.push_back({ { r, &a }, &p });
                    }
        if (o.empty())
            return nullptr;
        auto& x = o[c.draw(o.size() - 1)];
        at = x.first;
        at.a->spoiled = true;
        return x.second;
    }
    template <class F>
    Resource* resource(F&& good)
    {
        std::vector<Resource*> o;
        for (auto* r : resources())
            if (!r->spoiled && good(*r))
                o.push_back(r);
        Resource* r = any(o);
        if (r)
            r->spoiled = true;
        return r;
    }
    std::string fresh() { return "bad" + std::to_string(++next); }
    int want(int code, const std::string& has)
    {
        wants.push_back({ ++next, code, has, "" });
        return next;
    }
    static void sectioned(Payload& p)
    {
        if (!p.sections) {
            p.sections = true;
            p.params.clear();
        }
    }
    std::string line(const std::string& bulletless) { return "+ " + bulletless; }
    static bool bodiless(const Payload& p) { return !p.request && (p.name == "204" || p.name == "304" || p.name[0] == '1'); }

    std::string otherCase(std::string s)
    {
        if (c.boolean())
            for (auto& x : s)
                if (isalpha((unsigned char)x) && c.boolean())
                    x ^= 0x20;
        return s;
    }
    bool header()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return p.sections; });
        if (!p)
            return false;
        std::string n = "X-" + fresh(), l, has;
        int code = 13;
        switch (c.draw(5)) {
            case 0:
                l = n + " value";
                has = "missing colon after header name '" + n + "'";
                break;
            case 1: {
                std::string bad = c.pick(std::vector<std::string>{ "(", "@", "/", "[", "\"", "\xC5\xBE", "=" });
                l = n + bad + "x: v";
                has = "HTTP header name '" + n + bad + "x' contains illegal character '" + bad + "'";
                break;
            }
            case 2:
                if (p->headers.empty())
                    p->headers.emplace_back("X-First", "1");
                n = c.pick(p->headers).first;
                if (n == "Set-Cookie" || n == "set-cookie") // which may be repeated
                    n = p->headers[0].first;
                n = otherCase(n);
                l = n + ": again";
                has = "duplicate definition of '" + n + "' header";
                break;
            case 3:
                l = n + c.pick(std::vector<std::string>{ ":", " : ", ":  " });
                has = "HTTP header '" + n + "' has no value";
                break;
            case 4:
                l = c.pick(std::vector<std::string>{ ": v", ":", " : v w" });
                has = "unable to parse HTTP header";
                code = 3;
                break;
            default:
                p->media = p->media.empty() ? "text/plain" : p->media;
                n = otherCase("Content-Type");
                l = n + ": text/css";
                has = "duplicate definition of '" + n + "' header";
        }
        if (p->headers.empty())
            p->headers.emplace_back("X-Ok", "1");
        p->rawHeaders = { l };
        size_t colon = l.find(':');
        if (code == 13 && has.find("illegal") == std::string::npos) {
            std::string v = colon == std::string::npos ? "value" : l.substr(colon + 1);
            p->keptHeaders = { { n, has.find("no value") != std::string::npos ? "" : v == "value" ? v : v.substr(1) } };
        }
        p->lineMark = want(code, has);
        if (c.boolean()) { // does not concern the next one
            std::string k = "X-Next" + fresh();
            p->rawHeaders.push_back(k + ": next");
            p->keptHeaders.emplace_back(k, "next");
        }
        return true;
    }
    bool status()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return !p.request && !bodiless(p); });
        if (!p)
            return false;
        p->name = c.pick(std::vector<std::string>{ "204", "304", "100", "102" });
        if (p->body.empty())
            p->body = { "x" };
        for (auto& e : at.a->examples) // stays the only one
            for (auto& q : e.responses)
                if (&q != p && q.name == p->name)
                    q.name = "598";
        p->mark = want(6, "the " + p->name + " response MUST NOT include a ");
        return true;
    }
    bool method()
    {
        At at;
        if (!action(at, [](Resource& r, Action& a) {
                for (auto& e : a.examples)
                    for (auto& p : e.responses)
                        if (!p.ref.empty())
                            return false;
                for (auto& x : r.actions)
                    if (x.method == "HEAD" || x.method == "CONNECT")
                        return false;
                return true;
            }))
            return false;
        at.a->method = c.boolean() ? "HEAD" : "CONNECT";
        bool connect = at.a->method == "CONNECT";
        for (auto& e : at.a->examples)
            for (auto& p : e.responses)
                if (!p.body.empty() && (!connect || p.name[0] == '2'))
                    p.mark = want(6, connect ? "the response for " + p.name + " CONNECT request MUST NOT include a " : std::string("the response for HEAD request MUST NOT include a "));
        return true;
    }
    bool emptyRequest()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return p.request; });
        if (!p)
            return false;
        p->body.clear();
        p->schema.clear();
        switch (c.draw(2)) {
            case 0:
                *p = Payload();
                p->request = true;
                p->name = "Named " + fresh();
                p->mark = want(6, "empty request message-body");
                break;
            case 1:
                sectioned(*p);
                p->headers = { { "Content-Length", "12" } };
                p->mark = want(6, "expected message-body for '12' Content-Length");
                break;
            default:
                sectioned(*p);
                p->headers = { { "Transfer-Encoding", "chunked" } };
                p->mark = want(6, "expected message-body for 'chunked' Transfer-Encoding");
        }
        return true;
    }
    bool duplicatePayload()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return p.sections; });
        if (!p)
            return false;
        Payload copy = *p;
        copy.headers.clear();
        copy.params.clear();
        copy.desc.clear();
        copy.headers.emplace_back("X-Other", "1");
        int m = want(2, std::string(p->request ? "request" : "response") + " payload `" + p->name + "` already defined for `" + at.a->method + "` method");
        copy.mark = m;
        for (auto& e : at.a->examples)
            for (auto* l : { &e.requests, &e.responses })
                for (size_t i = 0; i < l->size(); ++i)
                    if (&(*l)[i] == p) {
                        l->insert(l->begin() + i + 1 + c.draw(l->size() - i - 1), copy);
                        return true;
                    }
        return true;
    }
    bool missingStatus()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return !p.request && !bodiless(p); });
        if (!p)
            return false;
        for (auto& e : at.a->examples) // the assumed status stays the only one
            for (auto& q : e.responses)
                if (&q != p && q.name == "200")
                    q.name = "598";
        p->raw = true;
        p->name = "200";
        p->rawName = p->media.empty() ? "" : " (" + p->media + ")";
        p->mark = want(6, "missing response HTTP status code, assuming 'Response 200'");
        return true;
    }
    bool twice()
    {
        At at;
        bool body = c.boolean();
        Payload* p = payload(at, [](Payload& p) { return p.sections && !bodiless(p); });
        if (!p)
            return false;
        (body ? p->body : p->schema) = { "x" };
        p->rawLines = { std::string("    + ") + (body ? "Body" : "Schema"), "", "            second", "" };
        p->lineMark = want(4, std::string("ignoring additional '") + (body ? "body" : "schema") + "' content, it is already defined");
        return true;
    }
    bool parametersOfResponse()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return p.sections && !p.request; });
        if (!p)
            return false;
        p->rawLines = { "    + Parameters", "        + a: 1" };
        p->lineMark = want(5, "ignoring parameters section in a non request payload section");
        return true;
    }
    bool emptyHeaders()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return p.sections; });
        if (!p)
            return false;
        p->headers.clear();
        p->media.clear(); // a content type counts as a header
        if (p->request)
            p->body = { "x" };
        p->rawLines = { "    + Headers", "" };
        p->lineMark = want(3, "no valid headers specified");
        return true;
    }
    bool looseBody()
    {
        At at;
        Payload* p = payload(at, [](Payload& p) { return !bodiless(p); });
        if (!p)
            return false;
        p->headers.clear();
        p->schema.clear();
        p->params.clear();
        p->desc.clear();
        p->body.clear();
        const std::string loose = "loose " + fresh();
        switch (c.draw(2)) {
            case 0: // not a code block
                p->sections = false;
                p->rawLines = { "    " + loose, "" };
                p->keptBody = { loose };
                p->lineMark = want(10, "message-body asset is expected to be a pre-formatted code block, every of its line indented by exactly 8 spaces or 2 tabs");
                break;
            case 1:
                p->sections = true;
                p->rawLines = { "    + Body", "", "        " + loose, "" };
                p->keptBody = { loose };
                p->lineMark = want(10, "message-body asset is expected to be a pre-formatted code block, every of its line indented by exactly 12 spaces or 3 tabs");
                break;
 default:
                p->sections = false;
                if (p->media.empty())
                    p->media = "text/plain"; // else the request is empty until the line is found
                p->rawLines = { loose, "" };
                p->keptBody = { loose };
                p->lineMark = want(10, "dangling message-body asset, expected a pre-formatted code block, indent every of it's line by 8 spaces or 2 tabs");
        }
        wants.back().keeps = loose;
        return true;
    }
    bool noResponse()
    {
        At at;
        if (!action(at, [](Resource&, Action& a) { return !a.examples.empty(); }))
            return false;
        Example& last = at.a->examples.back();
        if (at.a->examples.size() == 1 && c.boolean()) {
            at.a->examples.clear();
            at.a->mark = want(6, "action is missing a response");
            return true;
        }
        if (last.requests.empty()) {
            Payload p;
            p.request = true;
            p.media = "text/plain";
            last.requests.push_back(p);
        }
        last.responses.clear();
        std::string n = last.requests.back().name;
        at.a->mark = want(6, "action is missing a response for " + (n.empty() ? std::string("a request") : "the '" + n + "' request"));
        return true;
    }
    bool relation()
    {
        At at;
        if (!action(at))
            return false;
        at.a->relation.clear();
        at.a->rawLines = { line("Relation: " + c.pick(std::vector<std::string>{ "Upper", "two words", "a_b", "9x!", "\xC5\xBE" })) };
        at.a->lineMark = want(3, "relation identifier contains illegal characters");
        return true;
    }
    bool assetOfAction()
    {
        At at;
        if (!action(at))
            return false;
        bool body = c.boolean();
        if (at.a->relation.empty()) // without a section before it a list is a description
            at.a->relation = "self-" + fresh();
        at.a->rawLines = { line(body ? "Body" : "Schema"), "", "        text", "" };
        at.a->lineMark = want(5, std::string("Ignoring ") + (body ? "message-body" : "message-schema") + " list item");
        return true;
    }
    bool deprecatedHeaders()
    {
        At at;
        if (!action(at, [](Resource&, Action& a) {
                for (auto& e : a.examples)
                    for (auto* l : { &e.requests, &e.responses })
                        for (auto& p : *l)
                            if (!p.ref.empty())
                                return false;
                return true;
            }))
            return false;
        at.a->headers = { { "X-" + fresh(), "value" } };
        at.a->lineMark = want(9, "the 'headers' section at this level is deprecated");
        return true;
    }
    bool duplicateAction()
    {
        Resource* r = resource([](Resource& r) { return r.form < 2 && !r.actions.empty(); });
        if (!r)
            return false;
        Action& old = r->actions[c.draw(r->actions.size() - 1)];
        if (old.spoiled)
            return false;
        old.spoiled = true;
        Action a;
        a.name = "Again " + fresh();
        a.method = old.method;
        a.uri = old.uri;
        a.spoiled = true;
        Example e;
        Payload p;
        p.name = "200";
        e.responses.push_back(p);
        a.examples.push_back(e);
        a.mark = want(2, "action with method '" + a.method + "' already defined for resource '" + r->uri + "'");
        r->actions.push_back(a);
        return true;
    }
    bool duplicateRelation()
    {
        Resource* r = resource([](Resource& r) {
            bool any = false;
            for (auto& a : r.actions)
                any = any || (!a.relation.empty() && !a.spoiled);
            return r.form < 2 && any && r.actions.size() < 5;
        });
        if (!r)
            return false;
        Action a;
        a.name = "Related " + fresh();
        a.spoiled = true;
        for (auto& x : r->actions)
            if (!x.relation.empty() && !x.spoiled && a.relation.empty()) {
                a.relation = x.relation;
                x.spoiled = true;
            }
        std::set<std::string> used;
        for (auto& x : r->actions)
            used.insert(x.method);
        for (auto* m : { "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS" })
            if (!used.count(m))
                a.method = m;
        Example e;
        Payload p;
        p.name = "200";
        e.responses.push_back(p);
        a.examples.push_back(e);
        a.mark = want(2, "relation identifier '" + a.relation + "' already defined for resource '" + r->uri + "'");
        r->actions.push_back(a);
        return true;
    }
    bool duplicateResource()
    {
        Resource* old = resource([](Resource&) { return true; });
        if (!old)
            return false;
        Resource n;
        n.name = "Again " + fresh();
        n.uri = old->uri;
        n.spoiled = true;
        n.mark = want(2, "the resource '" + n.uri + "' is already defined");
        if (!b.groups.empty() && c.boolean())
            b.groups.back().resources.push_back(n);
        else if (b.groups.empty())
            b.resources.push_back(n);
        else {
            wants.pop_back();
            return false;
        }
        return true;
    }
    bool duplicateGroup()
    {
        if (b.groups.empty())
            return false;
        Group g;
        g.name = b.groups[c.draw(b.groups.size() - 1)].name;
        g.spoiled = true;
        g.mark = want(2, "group '" + g.name + "' is already defined");
        b.groups.push_back(g);
        return true;
    }
    // ------------------------------------------------------------------------------------- parameters
    Param* param(Resource*& r, Action*& a)
    {
        struct P {
            Resource* r;
            Action* a;
            Param* p;
        };
        std::vector<P> o;
        for (auto* x : resources()) {
            for (auto& p : x->params)
                if (!p.spoiled)
                    o.push_back({ x, nullptr, &p });
            for (auto& y : x->actions)
                for (auto& p : y.params)
                    if (!p.spoiled)
                        o.push_back({ x, &y, &p });
        }
        if (o.empty())
            return nullptr;
        auto& y = o[c.draw(o.size() - 1)];
        r = y.r;
        a = y.a;
        y.p->spoiled = true;
        return y.p;
    }
    bool parameter()
    {
        Resource* r;
        Action* a;
        Param* p = param(r, a);
        if (!p)
            return false;
        Param n;
        n.name = p->name;
        n.spoiled = true;
        switch (c.draw(6)) {
            case 0: // twice
            {
                Param again = n;
                again.value = "7";
                again.mark = want(4, "overshadowing previous parameter '" + p->name + "' definition");
                (a ? a->params : r->params).push_back(again);
                return true;
            }
            case 1:
                n.deflt = "d";
                n.use = c.draw(1);
                n.mark = want(8, "specifying parameter '" + n.name + "' as required supersedes its default value");
                break;
            case 2:
                n.value = "lost";
                n.values = { "a", "b" };
                n.old = c.boolean();
                n.mark = want(8, "the example value 'lost' of parameter '" + n.name + "' is not in its list of expected values");
                break;
            case 3:
                n.deflt = "lost";
                n.use = 2;
                n.values = { "a", "b" };
                n.old = c.boolean();
                n.mark = want(8, "the default value 'lost' of parameter '" + n.name + "' is not in its list of expected values");
                break;
            case 4:
                n.badTrait = "surplus one";
                n.value = "x";
                n.use = 1;
                n.type = "string";
                n.old = c.boolean();
                n.mark = want(3, "unable to parse additional parameter traits");
                break;
            case 5: // values twice
                n.deflt = "a";
                n.use = 2;
                n.old = true;
                n.values = { "b" };
                n.rawItems = { "+ Values", "    + `a`" };
                n.itemMark = want(4, "overshadowing previous 'values' definition for parameter '" + n.name + "'");
                break;
            default:
                n.deflt = "a";
                n.use = 2;
                n.old = true;
                n.rawItems = { "+ Values", "    + `a`", "    + bare" };
                n.itemMark = want(5, "ignoring the 'bare' element, expected '`bare`'");
        }
        *p = n;
        return true;
    }
    bool unknownParameter()
    {
        Resource* r;
        Param n;
        n.name = fresh();
        n.spoiled = true;
        std::vector<Param>* list = nullptr;
        Action* of_action = nullptr; // its heading is what is reported
        std::string uri;
        if (c.boolean()) {
            r = resource([](Resource& r) { return r.form < 2; });
            if (!r)
                return false;
            list = &r->params;
            uri = r->uri;
        } else {
            At at;
            if (!action(at))
                return false;
            list = &at.a->params;
            of_action = at.a;
            uri = at.a->uri.empty() ? at.r->uri : at.a->uri;
        }
        (of_action ? of_action->mark : n.mark) = want(8, "parameter '" + n.name + "' is not found within the URI template '" + uri); // which may be spoiled too
        list->insert(list->begin() + c.draw(list->size()), n);
        return true;
    }
    bool noParameters()
    {
        At at;
        if (!action(at, [](Resource&, Action& a) { return a.params.empty(); }))
            return false;
        at.a->rawLines = { line("Parameters") };
        at.a->lineMark = want(3, "no parameters specified");
        return true;
    }
    // ------------------------------------------------------------------------------------ uri templates
    bool uri()
    {
        Resource* r = resource([](Resource& r) { return r.form < 2; });
        if (!r)
            return false;
        struct U {
            const char *add, *has;
        };
        static const std::vector<U> us = { { "/{a-b}", "URI template variable 'a-b' contains invalid" }, { "/{a b}", "URI template variable 'a b' contains invalid" },
            { "{/seg}", "URI template 'path segment' expansion is not supported" }, { "{.lab}", "URI template 'label' expansion is not supported" },
            { "{;par}", "URI template 'path segment parameter' expansion is not supported" }, { "/{open", "URI Template expression is missing closing bracket '}'" },
            { "/\"x", "URI template contains disallowed" }, { "/x|y", "URI template contains disallowed" }, { "/<x", "URI template contains disallowed" },
            { "/%zz", "URI template contains disallowed percent encoded character '%zz'" }, { "/%\xC5\xBE\xE6\x97\xA5x", "URI template contains disallowed percent encoded character '%\xC5\xBE\xE6\x97\xA5'" },
            { "/{a...b}", "URI template variable 'a...b' contains invalid continuous dots '...'" }, { "/{a%z}", "URI template variable 'a%z' contains invalid" } };
        auto& u = c.pick(us);
        r->uri += u.add;
        if (r->form == 2)
            r->actions[0].uri = r->uri;
        r->mark = want(12, u.has);
        return true;
    }
    bool metadata()
    {
        if (!b.rawMeta.empty() || b.meta.empty())
            return false;
        if (c.boolean()) {
            b.rawMeta = { b.meta[0].first + ": again" };
            wants.push_back({ 0, 2, "duplicate definition of '" + b.meta[0].first + "'", "" });
        } else {
            b.rawMeta = { "NOVALUE" };
            wants.push_back({ 0, 3, "ignoring possible metadata, expected '<key> : <value>', one one per line", "" });
        }
        return true;
    }

public:
    std::vector<Want> wants;
    std::vector<std::string> kinds;
    Spoil(pbt::Case& c_, Blueprint& b_) : c(c_), b(b_) {}
    void one()
    {
        struct K {
            const char* name;
            bool (Spoil::*f)();
        };
        static const std::vector<K> ks = { { "header", &Spoil::header }, { "status with body", &Spoil::status }, { "method with body", &Spoil::method }, { "empty request", &Spoil::emptyRequest },
            { "payload twice", &Spoil::duplicatePayload }, { "no status", &Spoil::missingStatus }, { "asset twice", &Spoil::twice }, { "parameters of a response", &Spoil::parametersOfResponse },
            { "empty headers", &Spoil::emptyHeaders }, { "loose body", &Spoil::looseBody }, { "no response", &Spoil::noResponse }, { "relation", &Spoil::relation },
            { "asset of an action", &Spoil::assetOfAction }, { "headers of an action", &Spoil::deprecatedHeaders }, { "action twice", &Spoil::duplicateAction }, { "relation twice", &Spoil::duplicateRelation },
            { "resource twice", &Spoil::duplicateResource }, { "group twice", &Spoil::duplicateGroup }, { "parameter", &Spoil::parameter }, { "unknown parameter", &Spoil::unknownParameter },
            { "no parameters", &Spoil::noParameters }, { "uri", &Spoil::uri }, { "metadata", &Spoil::metadata } };
        auto& k = c.pick(ks);
        if ((this->*k.f)()) {
            kinds.push_back(k.name);
            c.label(k.name);
        }
    }
};

struct Seen {
    int code;
    bool error;
    std::string text;
    size_t from = 0, to = 0; // lines
};
static size_t num(const JV* e)
{
    const JV* v = e ? res::content(*e) : nullptr;
    return v && v->t == JV::Num ? strtoull(v->s.c_str(), nullptr, 10) : 0;
}
static std::vector<Seen> annotations(const JV& whole)
{
    std::vector<Seen> o;
    for (auto* a : res::annotations(whole)) {
        Seen s;
        s.text = res::text(a);
        s.error = res::hasClass(*a, "error");
        s.code = num(res::attribute(*a, "code"));
        if (const JV* sm = res::attribute(*a, "sourceMap"))
            for (auto& m : res::content(*sm)->a)
                for (auto& r : res::content(m)->a) {
                    size_t f = num(res::attribute(res::content(r)->a[0], "line")), t = num(res::attribute(res::content(r)->a[1], "line"));
                    s.from = s.from ? std::min(s.from, f) : f;
                    s.to = std::max(s.to, t);
                }
        o.push_back(s);
    }
    return o;
}
static std::string listed(const std::vector<Seen>& v)
{
    std::ostringstream o;
    for (auto& s : v)
        o << "\n  " << (s.error ? "error " : "warning ") << s.code << " at " << s.from << "-" << s.to << " " << s.text;
    return o.str();
}

static void elements(const JV& v, const char* name, std::vector<const JV*>& o)
{
    const JV* e = v.t == JV::Obj ? v.get("element") : nullptr;
    if (e && e->s == name)
        o.push_back(&v);
    for (auto& x : v.a)
        elements(x, name, o);
    for (auto& x : v.o)
        elements(x.second, name, o);
}
static void without(JV& v, const char* key)
{
    for (auto& x : v.a)
        without(x, key);
    for (size_t i = 0; i < v.o.size(); ++i)
        if (v.o[i].first == key)
            v.o.erase(v.o.begin() + i--);
        else
            without(v.o[i].second, key);
    for (size_t i = 0; i < v.o.size(); ++i)
        if (v.o[i].first == "attributes" && v.o[i].second.o.empty())
            v.o.erase(v.o.begin() + i--);
}
static void trimLoose(JV& v) // the newlines after a dangling asset vary
{
    if (v.t == JV::Str && v.s.compare(0, 6, "loose ") == 0)
        v.s.erase(v.s.find_last_not_of('\n') + 1);
    for (auto& x : v.a)
        trimLoose(x);
    for (auto& x : v.o)
        trimLoose(x.second);
}
// what has no mistake is as it would be without the mistakes elsewhere
static void untouched(pbt::Case& c, const Blueprint& b, capi::Parse& p)
{
    JV whole;
    std::string text = p.json();
    mj::JsonParser pj(text, false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    std::vector<const JV*> rs;
    elements(whole, "resource", rs);
    std::vector<const Resource*> want;
    for (auto& r : b.resources)
        want.push_back(&r);
    for (auto& g : b.groups)
        for (auto& r : g.resources)
            want.push_back(&r);
    REQUIRE_(rs.size() == want.size(), "resources", "got " << rs.size() << " resources instead of " << want.size());
    Expect x(b);
    for (size_t i = 0; i < rs.size(); ++i) {
        const Resource& r = *want[i];
        auto good = [](const std::vector<Param>& ps) { return std::none_of(ps.begin(), ps.end(), [](const Param& p) { return p.spoiled; }); };
        bool fine = good(r.params);
        for (auto& a : r.actions)
            fine = fine && good(a.params);
        JV got = *rs[i], exp = x.one(r);
        if (!fine) { // the effect of a mistake in a parameter is not modelled
            without(got, "hrefVariables");
            without(exp, "hrefVariables");
        }
        trimLoose(got);
        trimLoose(exp);
        sortKeys(got);
        sortKeys(exp);
        REQUIRE_(got == exp, "result", "the result is not as written beside mistakes: " << difference(got, exp));
    }
}

FACET(warnings, 4000, 400000, "a blueprint of the documented structure with up to four mistakes put into it; non-trivial: two mistakes or more")
{
    Gen g(c);
    Blueprint b = g.blueprint();
    Spoil s(c, b);
    size_t n = 1 + c.size(3);
    for (size_t i = 0; i < n; ++i)
        s.one();
    if (s.wants.empty())
        c.discard();
    Writer w(c);
    std::string src = w.write(b);
    c << src;
    c.nontrivial(s.wants.size() > 1);
    capi::Parse p(src, 0);
    JV whole;
    std::string text = p.json(true);
    mj::JsonParser pj(text, false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    std::vector<Seen> seen = annotations(whole);
    REQUIRE_(p.rc == 0, "code", "parsing returns " << p.rc << " with warnings only" << listed(seen));
    std::vector<bool> used(seen.size());
    for (auto& x : s.wants) {
        int line = x.mark ? w.lines[x.mark] : 1;
        bool found = false;
        for (size_t i = 0; i < seen.size() && !found; ++i)
            if (!used[i] && !seen[i].error && seen[i].code == x.code && seen[i].text.find(x.has) != std::string::npos
                && ((int(seen[i].from) <= line && line <= int(seen[i].to)) || x.has.find("indented by exactly") != std::string::npos)) // their ranges are P03's finding
                used[i] = found = true;
        REQUIRE_(found, "missed", "no warning " << x.code << " \"" << x.has << "\" on line " << line << "; reported:" << listed(seen));
    }
    for (size_t i = 0; i < seen.size(); ++i)
        REQUIRE_(used[i], "surplus", "a warning " << seen[i].code << " at " << seen[i].from << "-" << seen[i].to << " about nothing wrong: " << seen[i].text);
    untouched(c, b, p);
    std::vector<const JV*> bodies;
    elements(whole, "asset", bodies);
    for (auto& x : s.wants)
        if (!x.keeps.empty())
            REQUIRE_(std::any_of(bodies.begin(), bodies.end(), [&](const JV* v) { return res::hasClass(*v, "messageBody") && res::content(*v)->s.find(x.keeps) == 0; }), "lost", "no body with \"" << x.keeps << "\", which is reported but kept");
}

// one thing that cannot be accepted
struct Fatal {
    int code = 0, mark = 0;
    std::string has, token, tail; // the line holding token, when there is no mark; text after the blueprint
};
static bool refused(pbt::Case& c, Blueprint& b, Gen& g, Fatal& f)
{
    std::vector<Resource*> rs;
    for (auto& r : b.resources)
        rs.push_back(&r);
    for (auto& x : b.groups)
        for (auto& r : x.resources)
            rs.push_back(&r);
    int kind = c.draw(7);
    std::string lost = "Lost " + g.fresh();
    f.code = 3;
    if (kind <= 1) {
        std::vector<Payload*> ps;
        for (auto* r : rs)
            for (auto& a : r->actions)
                if (!a.spoiled)
                    for (auto& e : a.examples)
                        for (auto* l : { &e.requests, &e.responses })
                            for (auto& p : *l)
                                if (p.name != "204" && p.ref.empty())
                                    ps.push_back(&p);
        if (ps.empty())
            return false;
        Payload& p = *ps[c.draw(ps.size() - 1)];
        Payload n;
        n.request = p.request;
        n.name = p.name;
        n.ref = lost;
        p = n;
        p.mark = 1000;
        f.mark = 1000;
        f.has = "Undefined resource model " + lost;
        c.label("undefined model");
        return true;
    }
    if (kind == 2 || kind == 3) {
        std::vector<Resource*> o;
        for (auto* r : rs)
            if (kind == 2 ? r->form == 1 && !r->spoiled && !r->model : r->model)
                o.push_back(r);
        if (o.empty())
            return false;
        Resource* r = o[c.draw(o.size() - 1)];
        if (kind == 2) {
            r->model = true;
            r->modelPayload = Payload();
            r->modelPayload.request = true;
            r->modelPayload.body = { "x" };
            r->modelPayload.mark = f.mark = 1000;
            f.has = "resource model can be specified only for a named resource, name your resource, e.g. '# <resource name> [" + r->uri;
            c.label("model without a name");
            return true;
        }
        Resource n;
        n.name = r->modelName();
        n.uri = "/again" + g.fresh();
        n.model = n.spoiled = true;
        n.modelPayload.request = true;
        n.modelPayload.body = { "x" };
        n.modelPayload.mark = f.mark = 1000;
        f.has = "symbol '" + n.name + "' already defined";
        c.label("model twice");
        if (b.groups.empty())
            b.resources.push_back(n);
        else
            b.groups.back().resources.push_back(n);
        return true;
    }
    f.code = 4;
    std::string u = g.fresh(), t = "Type" + u, base = c.pick(std::vector<std::string>{ "object", "array", "string", "enum" });
    f.tail = "\n\n# Data Structures\n\n## Fine" + u + " (object)\n+ a (number)\n\n";
    switch (kind) {
        case 4:
            f.token = "## " + t;
            f.tail += f.token + " (" + lost + ")\n\n";
            f.has = "base type '" + lost + "' is not defined in the document";
            c.label("undefined base");
            break;
        case 5: {
            std::string m = c.pick(std::vector<std::string>{ "+ a (" + lost + ")", "+ Include " + lost, "+ a (array[" + lost + "])", "+ a\n    + b (" + lost + ")", "+ One of\n    + a (" + lost + ")\n    + b" });
            f.tail += "## " + t + " (object)\n" + m + "\n\n";
            f.token = lost;
            f.has = "base type '" + lost + "' is not defined in the document";
            c.label("undefined type of a member");
            break;
        }
        case 6:
            f.tail += "## " + t + " (" + base + ")\n\n## Between" + u + "\n\n## " + t + " (object)\n+ x\n\n";
            f.token = "## " + t + " (object)\n+ x";
            f.has = "named type '" + t + "' is defined more than once";
            c.label("type twice");
            break;
        default: {
            size_t n = 1 + c.size(3);
            for (size_t i = 0; i < n; ++i)
                f.tail += "## " + t + char('a' + i) + " (" + t + char('a' + (i + 1) % n) + ")\n\n";
            f.token = "## " + t;
            f.has = "' circularly referencing itself";
            c.label("circular bases");
        }
    }
    return true;
}
KNOWN_PROBE(error_lost, "P04-error-lost")
{
    capi::Parse p("# A\n\n# Data Structures\n\n## T (Lost)\n\n## R [/a{.b}]\n\n### GET\n+ Response 200\n", 0);
    return p.rc == 0;
}
FACET(errors, 2500, 200000, "a blueprint with one thing that cannot be accepted, among up to three lesser mistakes; non-trivial: with another mistake")
{
    Gen g(c);
    Blueprint b = g.blueprint();
    Spoil s(c, b);
    Fatal f;
    size_t n = c.size(3);
    for (size_t i = 0; i < n; ++i)
        s.one();
    if (!refused(c, b, g, f))
        c.discard();
    Writer w(c);
    std::string src = w.write(b) + f.tail;
    c << src;
    c.nontrivial(!s.wants.empty());
    capi::Parse p(src, 0);
    JV whole;
    std::string text = p.json(true);
    mj::JsonParser pj(text, false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    std::vector<Seen> seen = annotations(whole);
    size_t errors = 0;
    int from = f.mark ? w.lines[f.mark] : 1 + int(std::count(src.begin(), src.begin() + src.find(f.token), '\n'));
    int to = f.has.find("circularly") != std::string::npos ? 1 << 30 : from + 2; // a loop has no beginning
    for (auto& x : seen)
        if (x.error) {
            ++errors;
            REQUIRE_(x.code == f.code && x.text.find(f.has) != std::string::npos, "other-error", "expected an error " << f.code << " \"" << f.has << "\", got" << listed(seen));
            REQUIRE_(int(x.to) >= from && int(x.from) <= to, "error-place", "the error is on lines " << from << "-" << to << "; reported:" << listed(seen));
        }
    bool faultyUri = false;
    for (auto& x : s.wants)
        faultyUri = faultyUri || x.code == 12;
    if (!errors && faultyUri && f.has.find("Undefined resource model") != 0) {
        c.failKnown("P04-error-lost", "error-count", "the error \"" + f.has + "\" is not reported in a document with a faulty URI template" + listed(seen));
        return;
    }
    REQUIRE_(errors == 1, "error-count", errors << " errors instead of one: " << f.has << listed(seen));
    REQUIRE_(p.rc == f.code, "code", "parsing returns " << p.rc << ", the error is " << f.code);
    REQUIRE_(res::content(whole)->a.size() == seen.size(), "only-annotations", "a refused document has a result beside its annotations");
}

// ---------------------------------------------------------------- mistakes in MSON
// Lines are numbered from 1 as they are written; documents are ASCII since positions of conversion warnings are P03-conversion-bytes.
struct Mson {
    pbt::Case& c;
    std::vector<std::string> lines;
    struct Want {
        int code;
        std::string has;
        size_t from, to;
    };
    std::vector<Want> wants;
    std::vector<std::string> kept; // what is not wrong
    size_t budget = 0, counter = 0;
    Mson(pbt::Case& c_) : c(c_) {}
    void put(size_t indent, const std::string& s) { lines.push_back(s.empty() ? s : std::string(indent, ' ') + s); }
    std::string name() { return "n" + std::to_string(++counter); }
    void want(int code, const std::string& has, size_t from = 0) { wants.push_back({ code, has, from ? from : lines.size(), lines.size() }); }
    bool spend()
    {
        if (!budget || !c.chance(1, 2))
            return false;
        --budget;
        return true;
    }
    std::string text(const std::string& n) { return n + (c.chance(1, 4) ? " - about " + n : ""); }
    const char* NUMBER = "invalid value format for 'number' type";
    const char* BOOLEAN = "invalid value for 'boolean' type";

    // members of an object
    void members(size_t in, size_t depth)
    {
        size_t n = 1 + c.size(3);
        for (size_t i = 0; i < n; ++i) {
            if (spend())
                wrongMember(in, depth);
            else
                goodMember(in, depth);
        }
    }
    void goodMember(size_t in, size_t depth)
    {
        std::string k = name();
        int kind = c.draw(depth ? 10 : 5);
        if (kind != 9)
            kept.push_back(k);
        k = "+ " + k;
        switch (kind) {
            case 0: put(in, k); break;
            case 1: put(in, text(k + ": some")); break;
            case 2: put(in, text(k + ": 12 (number, required)")); break;
            case 3: put(in, text(k + ": true (boolean, optional)")); break;
            case 4: put(in, k + ": 1, 2 (array[number])"); break;
            case 5: put(in, k + " (Shared)"); break;
            case 6:
                put(in, k + " (object)");
                members(in + 4, depth - 1);
                break;
            case 7:
                put(in, k + " (array)");
                items(in + 4, depth - 1);
                break;
            case 8:
                put(in, k + " (enum)");
                choices(in + 4);
                break;
            case 9:
                put(in, "+ One of");
                put(in + 4, "+ " + name() + " (string)");
                put(in + 4, "+ " + name() + ": 5 (number)");
                break;
            default:
                put(in, k + " (object)");
                put(in + 4, "+ Properties");
                members(in + 8, depth - 1);
        }
    }
    void wrongMember(size_t in, size_t depth)
    {
        std::string k = "+ " + name();
        int kind = c.draw(26);
        c.label("member " + std::to_string(kind));
        switch (kind) {
            case 0: put(in, k + ": 12x (number)"); want(4, NUMBER); break;
            case 1: put(in, k + ": maybe (boolean)"); want(4, BOOLEAN); break;
            case 2: put(in, k + " (number, default)"); want(4, "no value present when 'default' is specified"); break;
            case 3: put(in, k + " (string, sample)"); want(4, "no value present when 'sample' is specified"); break;
            case 4: put(in, k + ": v (object)"); want(8, "'object' with value definition"); break;
            case 5: put(in, k + " (string, required, optional)"); want(4, "cannot use 'required' and 'optional' together"); break;
            case 6: put(in, k + ": 1 (string, fixed, optional)"); want(4, "cannot use 'fixed' and 'optional' together"); break;
            case 7: put(in, k + ": 1 (string, default, sample)"); want(4, "cannot use 'default' and 'sample' together"); break;
            case 8: put(in, k + " (object, fixed, fixed-type)"); want(4, "cannot use 'fixed' and 'fixed-type' together"); break;
            case 9: put(in, k + " (string[number])"); want(8, "nested types should be present only for types"); break;
            case 10: put(in, k + " (string, number)"); want(5, "ignoring unrecognized type attribute"); break;
            case 11: put(in, k + " (string)"); put(in + 4, "+ x"); want(8, "sub-types of primitive types should not have nested members"); break;
            case 12: put(in, k + " (object)"); put(in + 4, "+ Sample: a"); want(8, "a sample and/or default type section for a type which is sub-typed from an object"); break;
            case 13: put(in, k + " (object)"); put(in + 4, "+ Include List"); want(8, "mixin base type should be the same as parent base type"); break;
            case 14: put(in, "+ One of"); want(6, "one of type must have nested members"); break;
            case 15: put(in, k + ":"); want(6, "no value(s) specified"); break;
            case 16: put(in, k + " (object)"); put(in + 4, "+ Items"); want(8, "type section `Items` not allowed"); put(in + 8, "+ x"); break;
            case 17: put(in, k + " (number)"); put(in + 4, "+ " + c.pick(std::vector<std::string>{ "Sample", "Default" }) + ": bad"); want(4, NUMBER); break;
            case 18: put(in, k + " (array, sample)"); want(4, "no value present when 'sample' is specified"); put(in + 4, "+ x"); break;
            case 19: put(in, "+ " + c.pick(std::vector<std::string>{ "(array)", ": x (string)" })); want(6, "no identifier specified"); break;
            case 20: put(in, k + " (Shared)"); put(in + 4, "+ " + name() + ": q (boolean)"); want(4, BOOLEAN); break;
            case 21: put(in, k + " (array)"); wrongItem(in + 4, depth); break;
            case 22: put(in, k + " (enum)"); wrongChoices(in + 4); break;
            case 23:
                put(in, "+ One of");
                put(in + 4, "+ " + name());
                wrongMember(in + 4, 0);
                break;
            case 24:
                put(in, k + ": a, b, a (enum)");
                want(4, "duplicit value in enumeration");
                break;
            case 25:
                put(in, k + " (object)");
                put(in + 4, "+ Default");
                put(in + 8, "+ " + c.pick(std::vector<std::string>{ "Include Shared", "One of" }));
                want(8, "sample and default type sections cannot have");
                break;
            default:
                put(in, k + ": 1x, 2 (array[number])");
                want(4, NUMBER);
                wants.pop_back(); // values beside the name are not checked
                put(in, "+ " + name() + ": no (number)");
                want(4, NUMBER);
        }
    }
    // items of an array
    void items(size_t in, size_t depth)
    {
        size_t n = 1 + c.size(3);
        for (size_t i = 0; i < n; ++i)
            if (spend())
                wrongItem(in, depth);
            else
                switch (c.draw(depth ? 4 : 2)) {
                    case 0: kept.push_back(name()); put(in, "+ " + kept.back()); break;
                    case 1: put(in, "+ 5 (number)"); break;
                    case 2: put(in, "+ (Shared)"); break;
                    case 3: put(in, "+ (object)"); members(in + 4, depth - 1); break;
                    default: put(in, "+ (array)"); items(in + 4, depth - 1);
                }
    }
    void wrongItem(size_t in, size_t depth)
    {
        int kind = c.draw(7);
        c.label("item " + std::to_string(kind));
        switch (kind) {
            case 0: put(in, "+ 1.2.3 (number)"); want(4, NUMBER); break;
            case 1: put(in, "+ yes (boolean)"); want(4, BOOLEAN); break;
            case 2: put(in, "+ v (object)"); want(8, "array member definition of type 'object' contains value"); break;
            case 3: put(in, "+ One of"); want(8, "one of may be a nested member of a object sub-types only"); put(in + 4, "+ a"); break;
            case 4: put(in, "+ Include Shared"); want(8, "mixin base type should be the same as parent base type"); break;
            case 5: put(in, "+ (array)"); put(in + 4, "+ Properties"); want(8, "type section `Properties` is only allowed"); put(in + 8, "+ x"); break;
            case 6: put(in, "+ v (string, what)"); want(5, "ignoring unrecognized type attribute"); break;
            default: put(in, "+ (object)"); wrongMember(in + 4, depth);
        }
    }
    void choices(size_t in)
    {
        size_t n = 1 + c.size(3);
        for (size_t i = 0; i < n; ++i)
            put(in, text("+ v" + std::to_string(i)));
    }
    void wrongChoices(size_t in, bool ofType = false) // sections of a type itself are headings, in another form
    {
        int kind = c.draw(ofType ? 1 : 3);
        c.label("enumeration " + std::to_string(kind));
        size_t first = lines.size() + 1;
        if (kind == 0) {
            if (!ofType && c.boolean()) {
                put(in, "+ Members");
                in += 4;
            }
            choices(in);
            put(in, "+ v0");
            want(4, "duplicit value in enumeration", first);
        } else if (kind == 1) {
            choices(in);
            put(in, "+ 1.x (number)");
            want(4, NUMBER);
        } else {
            choices(in);
            first = lines.size() + 1;
            if (kind == 2)
                put(in, "+ Default: v0, v1");
            else {
                put(in, "+ Default: v0");
                put(in, "+ Default: v1");
            }
            want(4, "multiple definitions of 'default' value", first);
        }
    }
    void types()
    {
        put(0, "# Data Structures");
        put(0, "");
        put(0, "## Shared (object)");
        put(0, "+ common: 1 (number)");
        put(0, "");
        put(0, "## List (array)");
        put(0, "+ common");
        put(0, "");
        size_t n = 1 + c.size(3);
        for (size_t i = 0; i < n; ++i) {
            std::string t = "Type" + std::to_string(i);
            switch (c.draw(5)) {
                case 0:
                    put(0, "## " + t + " (Shared)");
                    members(0, 2);
                    break;
                case 1:
                    put(0, "## " + t + " (array)");
                    items(0, 2);
                    break;
                case 2:
                    put(0, "## " + t + " (enum)");
                    if (spend())
                        wrongChoices(0, true);
                    else
                        choices(0);
                    break;
                case 3:
                    if (spend()) {
                        bool escape = c.boolean();
                        put(0, escape ? "## " + t + ":x (object)" : "## " + t + " (object, something)");
                        c.label(escape ? "unescaped name" : "attribute of a type");
                        if (escape)
                            want(3, "please escape the name of the data structure");
                        else
                            want(5, "ignoring unrecognized type attribute");
                    } else
                        put(0, "## " + t + " (object)");
                    members(0, 2);
                    break;
                default:
                    put(0, "## " + t + " (object)");
                    members(0, 2);
            }
            put(0, "");
        }
    }
};

FACET(types, 3000, 400000, "data structures and attributes of actions and payloads with up to four mistakes among their members, at any depth; non-trivial: two mistakes or more")
{
    Mson m(c);
    m.budget = 1 + c.size(3);
    m.put(0, "# My API");
    m.put(0, "");
    m.types();
    bool more = c.boolean();
    if (more) {
        m.put(0, "# Things [/things]");
        if (c.boolean()) {
            m.put(0, "");
            m.put(0, "+ Attributes");
            m.members(4, 1);
        }
        m.put(0, "");
        m.put(0, "## Change [PUT]");
        m.put(0, "");
        if (c.boolean()) {
            m.put(0, "+ Attributes" + c.pick(std::vector<std::string>{ "", " (object)", " (Shared)" }));
            m.members(4, 2);
            m.put(0, "");
        }
        m.put(0, "+ Request (application/json)");
        m.put(4, "+ Attributes (array)");
        m.items(8, 2);
        m.put(0, "");
        m.put(0, "+ Response 200 (application/json)");
        m.put(4, "+ Attributes");
        m.members(8, 2);
    }
    if (m.wants.empty())
        c.discard();
    std::string src;
    for (auto& l : m.lines)
        src += l + "\n";
    c << src;
    c.nontrivial(m.wants.size() > 1);
    capi::Parse p(src, 0);
    JV whole;
    std::string text = p.json(true);
    mj::JsonParser pj(text, false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    std::vector<Seen> seen = annotations(whole);
    REQUIRE_(p.rc == 0, "code", "parsing returns " << p.rc << " with warnings only" << listed(seen));
    for (auto& x : m.kept)
        REQUIRE_(text.find("\"content\": \"" + x + "\"") != std::string::npos, "lost", "\"" + x + "\" beside a mistake is missing from the result" << listed(seen));
    std::vector<bool> used(seen.size());
    for (auto& x : m.wants) {
        bool found = false;
        for (size_t i = 0; i < seen.size() && !found; ++i)
            if (!used[i] && !seen[i].error && seen[i].code == x.code && seen[i].text.find(x.has) != std::string::npos && seen[i].from && seen[i].from <= x.to && seen[i].to >= x.from)
                used[i] = found = true;
        REQUIRE_(found, "missed", "no warning " << x.code << " \"" << x.has << "\" on lines " << x.from << "-" << x.to << "; reported:" << listed(seen));
    }
    for (size_t i = 0; i < seen.size(); ++i)
        REQUIRE_(used[i], "surplus", "a warning " << seen[i].code << " at " << seen[i].from << "-" << seen[i].to << " about nothing wrong: " << seen[i].text);
}
