// P02: a result depends on the text and the options only, through every entry point.
#include "gen_documents.h"
#include "gen_soup.h"
#include "capi.h"
#include "result.h"
#include <memory>

using mj::JV;

struct Seen {
    int rc = 0;
    std::string out[4];
    bool operator==(const Seen& r) const
    {
        for (int i = 0; i < 4; ++i)
            if (out[i] != r.out[i])
                return false;
        return rc == r.rc;
    }
};
static void firstDifference(std::ostringstream& o, const Seen& a, const Seen& b)
{
    if (a.rc != b.rc)
        o << "code " << a.rc << " and " << b.rc << "; ";
    for (int i = 0; i < 4; ++i)
        if (a.out[i] != b.out[i]) {
            size_t k = 0;
            while (k < a.out[i].size() && k < b.out[i].size() && a.out[i][k] == b.out[i][k])
                ++k;
            size_t f = k < 60 ? 0 : k - 60;
            o << "format " << i << " differs at byte " << k << ": " << pbt::quote(a.out[i].substr(f, 160)) << " and " << pbt::quote(b.out[i].substr(f, 160));
            return;
        }
}
static drafter_serialize_options* serOptions(int f)
{
    drafter_serialize_options* so = drafter_init_serialize_options();
    drafter_set_format(so, f & 1 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
    if (f & 2)
        drafter_set_sourcemaps_included(so);
    return so;
}
static Seen see(capi::Parse& p)
{
    Seen s;
    s.rc = p.rc;
    for (int f = 0; f < 4; ++f)
        p.serialize(f & 1, f & 2, s.out[f]);
    return s;
}
static Seen seeTo(const std::string& src, unsigned o)
{
    Seen s;
    capi::Parse opts("", o); // its options only
    for (int f = 0; f < 4; ++f) {
        drafter_serialize_options* so = serOptions(f);
        char* out = nullptr;
        int rc = drafter_parse_blueprint_to(src.c_str(), &out, opts.options(), so);
        drafter_free_serialize_options(so);
        if (f && rc != s.rc)
            s.out[f] = "other code";
        else if (out)
            s.out[f] = out;
        s.rc = rc;
        free(out);
    }
    return s;
}
static void compare(const char* key, const char* what, const Seen& a, const Seen& b)
{
    if (a == b)
        return;
    std::ostringstream o;
    o << what << ": ";
    firstDifference(o, a, b);
    throw pbt::Failure{ key, o.str() };
}
static std::string serialised(drafter_result* r, int f)
{
    drafter_serialize_options* so = serOptions(f);
    char* s = drafter_serialize(r, so);
    drafter_free_serialize_options(so);
    std::string o = s ? s : "";
    free(s);
    return o;
}
// the annotations checkBlueprint reports against those of the parse result
static void checkAgrees(const std::string& src, unsigned o, const Seen& parsed)
{
    capi::Parse opts("", o);
    drafter_result* chk = reinterpret_cast<drafter_result*>(&opts); // must be overwritten
    int rc = drafter_check_blueprint(src.c_str(), &chk, opts.options());
    REQUIRE_(rc == parsed.rc, "check-code", "checking returns " << rc << ", parsing " << parsed.rc);
    REQUIRE_(drafter_check_blueprint(src.c_str(), nullptr, opts.options()) == rc, "check-code", "checking without asking for annotations returns another code");
    JV whole;
    mj::JsonParser pj(parsed.out[3], false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    auto want = res::annotations(whole);
    if (!chk) {
        REQUIRE_(want.empty(), "check-missing", "checking reports nothing, parsing " << want.size() << " annotations");
        return;
    }
    std::string text = serialised(chk, 3), plain = serialised(chk, 1);
    drafter_free_result(chk);
    JV got;
    mj::JsonParser pc(text, false);
    REQUIRE_(pc.parse(got), "json", "the annotations are not JSON: " << pc.err);
    REQUIRE_(res::element(got) == "parseResult", "check-element", "the annotations come in an element " << res::element(got));
    const JV* list = res::content(got);
    REQUIRE_(!want.empty() && list && list->a.size() == want.size(), "check-count", "checking reports " << (list ? list->a.size() : 0) << " annotations, parsing " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        REQUIRE_(list->a[i] == *want[i], "check-annotation", "annotation " << i << " is " << mj::packed(list->a[i]) << " when checking and " << mj::packed(*want[i]) << " when parsing");
    REQUIRE_(plain == text, "check-maps", "annotations lose their positions when source maps are not asked for");
}
static std::string doc(pbt::Case& c, size_t lines = 30)
{
    if (!c.chance(1, 3))
        return soup::any(c, lines);
    std::string s = docs::any(c);
    return s.substr(0, s.find('\0'));
}

FACET(entry_points, 2400, 150000, "a document of blueprint vocabulary, a mutated fixture, a disturbed blueprint or raw bytes, in every option combination: parsed, parsed and serialised at once, checked, parsed again; non-trivial: the result has an annotation or the document over 40 bytes")
{
    std::string src = doc(c);
    unsigned o = c.draw(7);
    c << pbt::quote(src) << " opts=" << o;
    capi::Parse p(src, o);
    REQUIRE_(p.result, "no-result", "no result");
    Seen a = see(p);
    c.label(a.rc ? "error" : "ok");
    c.nontrivial(src.size() > 40);
    compare("serialise-again", "serialising the same result again", a, see(p));
    if (c.boolean())
        checkAgrees(src, o, a);
    compare("parse-to", "parsing and serialising in one call", a, seeTo(src, o));
    compare("kept", "serialising the first result after other calls", a, see(p));
    capi::Parse q(src, o);
    compare("parse-again", "parsing again", a, see(q));
}
FACET(histories, 1000, 60000, "three documents and a history of up to 16 calls on them with changing options, results kept and freed out of order; every call is compared with the first of its kind; non-trivial: a document was parsed again after another one")
{
    std::vector<std::string> docs;
    for (int i = 0; i < 3; ++i)
        docs.push_back(doc(c, 16));
    for (auto& d : docs)
        c << pbt::quote(d) << "\n";
    std::vector<std::pair<bool, Seen> > first(24);
    std::vector<std::pair<unsigned, std::unique_ptr<capi::Parse> > > live;
    std::vector<unsigned> order;
    auto note = [&](unsigned k, const Seen& s, const char* how) {
        if (!first[k].first)
            first[k] = { true, s };
        else {
            if (order.size() > 1)
                c.nontrivial();
            compare("history", how, first[k].second, s);
        }
        order.push_back(k);
    };
    size_t n = 3 + c.size(13);
    for (size_t i = 0; i < n; ++i) {
        unsigned d = c.draw(2), o = c.chance(1, 3) ? c.draw(7) : 0, k = d * 8 + o;
        switch (c.draw(4)) {
            case 0:
            case 1: {
                c << " parse " << d << "/" << o;
                live.emplace_back(k, std::make_unique<capi::Parse>(docs[d], o));
                note(k, see(*live.back().second), "parsing after other calls");
                break;
            }
            case 2:
                c << " parse_to " << d << "/" << o;
                note(k, seeTo(docs[d], o), "parsing and serialising in one call after other calls");
                break;
            case 3:
                c << " check " << d << "/" << o;
                if (first[k].first)
                    checkAgrees(docs[d], o, first[k].second);
                break;
            default:
                if (!live.empty()) {
                    size_t at = c.draw(live.size() - 1);
                    note(live[at].first, see(*live[at].second), "a result kept over other calls");
                    if (c.boolean())
                        live.erase(live.begin() + at);
                }
        }
    }
}
FACET(arguments, 2000, 40000, "calls without a source, without options, without a place for the result; non-trivial: always")
{
    std::string src = soup::lines(c, 12);
    c << pbt::quote(src);
    c.nontrivial();
    drafter_result* r = nullptr;
    char* out = nullptr;
    REQUIRE_(drafter_parse_blueprint(nullptr, &r, nullptr) == DRAFTER_EINVALID_INPUT && !r, "null-source", "parsing no source");
    REQUIRE_(drafter_check_blueprint(nullptr, &r, nullptr) == DRAFTER_EINVALID_INPUT && !r, "null-source", "checking no source");
    REQUIRE_(drafter_parse_blueprint_to(nullptr, &out, nullptr, nullptr) == DRAFTER_EINVALID_INPUT && !out, "null-source", "parsing no source");
    REQUIRE_(drafter_serialize(nullptr, nullptr) == nullptr, "null-result", "serialising no result");
    drafter_free_result(nullptr);
    drafter_free_parse_options(nullptr);
    drafter_free_serialize_options(nullptr);
    capi::Parse p(src, 0);
    Seen a = see(p);
    int rc = drafter_parse_blueprint(src.c_str(), &r, nullptr);
    REQUIRE_(rc == a.rc && r, "no-options", "parsing without options returns " << rc << " instead of " << a.rc);
    char* s = drafter_serialize(r, nullptr);
    std::string yaml = s ? s : "";
    free(s);
    std::string json = serialised(r, 3);
    drafter_free_result(r);
    REQUIRE_(yaml == a.out[0], "no-options", "serialising without options is not the same as YAML without source maps");
    REQUIRE_(json == a.out[3], "no-options", "parsing without options gives another result");
    rc = drafter_parse_blueprint(src.c_str(), nullptr, nullptr);
    REQUIRE_(rc == a.rc, "no-place", "parsing without a place for the result returns " << rc << " instead of " << a.rc);
    rc = drafter_parse_blueprint_to(src.c_str(), nullptr, nullptr, nullptr);
    REQUIRE_(rc == a.rc, "no-place", "parsing without a place for the output returns " << rc << " instead of " << a.rc);
}
