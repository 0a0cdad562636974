// P03: source maps and annotation positions.
#include "gen_documents.h"
#include "gen_soup.h"
#include "capi.h"
#include "result.h"

using mj::JV;

struct Doc {
    std::string src;
    std::vector<size_t> at;          // byte offset of each character, and of the end
    std::vector<size_t> line, column; // of each character
    explicit Doc(const std::string& s) : src(s)
    {
        size_t l = 1, k = 1;
        for (size_t i = 0; i < s.size();) {
            at.push_back(i);
            line.push_back(l);
            column.push_back(k);
            if (s[i] == '\n') {
                ++l;
                k = 1;
            } else
                ++k;
            mj::nextUtf8(s, i);
        }
        at.push_back(s.size());
        line.push_back(l);
        column.push_back(k);
    }
    size_t chars() const { return at.size() - 1; }
    bool boundary(size_t byte) const { return byte == src.size() || (byte < src.size() && (src[byte] & 0xC0) != 0x80); }
};
// raised while data structures are converted; their positions are those of the elements
static bool fromConversion(const std::string& message)
{
    static const char* const m[] = { "invalid value format for 'number'", "invalid value for 'boolean' type", "sub-types of primitive types should have no nested members",
        "only one value is supported for primitive types", "no value present when '", "duplicit value in enumeration", "multiple definitions of 'default'",
        "multiple variables in property definition", "'variable named property' must be", "cannot use '", "unknown type of mson member", " is a reserved keyword and cannot be used.",
        "Undefined named type '" };
    for (auto* x : m)
        if (message.find(x) != std::string::npos)
            return true;
    return false;
}
static bool number(const JV* e, size_t& n)
{
    const JV* v = e ? res::content(*e) : nullptr;
    if (!v || v->t != JV::Num || v->s.empty() || v->s.find_first_not_of("0123456789") != std::string::npos)
        return false;
    n = strtoull(v->s.c_str(), nullptr, 10);
    return true;
}
struct Walk {
    pbt::Case& c;
    const Doc& d;
    size_t maps = 0, compared = 0;
    std::string path;

    // text selected by a sourceMap attribute
    std::string select(const JV& sm, const JV* annotation)
    {
        std::string text;
        const JV* outer = res::content(sm);
        REQUIRE_(outer && outer->t == JV::Arr && outer->a.size() == 1, "shape", "source map of another shape: " << mj::packed(sm));
        const JV& inner = outer->a[0];
        const JV* ranges = res::content(inner);
        REQUIRE_(res::element(inner) == "sourceMap" && ranges && ranges->t == JV::Arr, "shape", "source map of another shape: " << mj::packed(sm));
        for (auto& r : ranges->a) {
            const JV* pair = res::content(r);
            size_t loc, len;
            REQUIRE_(pair && pair->t == JV::Arr && pair->a.size() == 2 && number(&pair->a[0], loc) && number(&pair->a[1], len), "range", "a range of another shape: " << mj::packed(r));
            // annotations count characters, everything else bytes
            if (annotation && d.chars() < d.src.size() && fromConversion(res::text(annotation))) {
                std::string why;
                if (loc > d.src.size() || len > d.src.size() + 1 - loc)
                    why = "beyond the document";
                else if (!d.boundary(loc) || !d.boundary(std::min(loc + len, d.src.size())))
                    why = "cuts a character";
                REQUIRE_(why.empty(), "conversion-range", "the range " << loc << "+" << len << " of the annotation " << pbt::quote(res::text(annotation)) << ", in bytes, " << why);
                c.failKnown("P03-conversion-bytes", "conversion-bytes", "the annotation " + pbt::quote(res::text(annotation)) + " is positioned in bytes");
                continue;
            }
            size_t all = annotation ? d.chars() : d.src.size();
            if (!annotation && loc + len == all + 1 && (d.src.empty() || d.src.back() != '\n'))
                --len; // the line end sundown adds
            if (loc > all || len > all - loc) {
                std::string m = "a range " + std::to_string(loc) + "+" + std::to_string(len) + " goes beyond the " + std::to_string(all) + (annotation ? " characters" : " bytes") + " of the document, at " + path;
                if (annotation && res::text(annotation).find(" is expected to be a pre-formatted code block, every of its line indented by exactly ") != std::string::npos) {
                    c.failKnown("P03-code-block-range", "beyond", m);
                    continue;
                }
                c.fail("beyond", m);
            }
            if (!annotation) {
                REQUIRE_(d.boundary(loc) && d.boundary(loc + len), "boundary", "the range " << loc << "+" << len << " cuts a character, " << path);
                auto word = [&](size_t i) { return i < d.src.size() && (isalnum((unsigned char)d.src[i]) || (d.src[i] & 0x80)); };
                REQUIRE_(!len || !loc || !word(loc - 1) || !word(loc), "cut", "the range " << loc << "+" << len << " starts within a word, " << path);
                REQUIRE_(!len || !word(loc + len - 1) || !word(loc + len), "cut", "the range " << loc << "+" << len << " ends within a word, " << path);
                text += d.src.substr(loc, len);
            }
            text += '\n';
            if (annotation) {
                bool block = res::text(annotation).find(" is expected to be a pre-formatted code block") != std::string::npos; // P03-code-block-range
                size_t bb = d.at[loc], be = d.at[loc + len];
                auto word = [&](size_t i) { return i < d.src.size() && (isalnum((unsigned char)d.src[i]) || (d.src[i] & 0x80)); };
                REQUIRE_(block || !len || !bb || !word(bb - 1) || !word(bb), "cut", "the range " << loc << "+" << len << " of " << pbt::quote(res::text(annotation)) << " starts within a word");
                REQUIRE_(block || !len || !word(be - 1) || !word(be), "cut", "the range " << loc << "+" << len << " of " << pbt::quote(res::text(annotation)) << " ends within a word");
                size_t fl, fc, tl, tc;
                REQUIRE_(number(res::attribute(pair->a[0], "line"), fl) && number(res::attribute(pair->a[0], "column"), fc) && number(res::attribute(pair->a[1], "line"), tl)
                        && number(res::attribute(pair->a[1], "column"), tc), "position", "an annotation without line or column: " << mj::packed(r));
                REQUIRE_(fl == d.line[loc] && fc == d.column[loc], "from", "range " << loc << "+" << len << " starts at " << fl << ":" << fc << ", expected " << d.line[loc] << ":" << d.column[loc]);
                size_t last = loc + len ? loc + len - 1 : 0;
                REQUIRE_(tl == d.line[last], "to-line", "range " << loc << "+" << len << " ends at line " << tl << ", expected " << d.line[last]);
                bool unterminated = loc + len > 0 && d.line[last] == d.line[d.chars()];
                if (unterminated)
                    REQUIRE_(tc == 1 || tc == d.column[last], "to-column", "range " << loc << "+" << len << " ends at column " << tc << ", expected " << d.column[last]);
                else
                    REQUIRE_(tc == d.column[last], "to-column", "range " << loc << "+" << len << " ends at column " << tc << ", expected " << d.column[last]);
            }
        }
        return text;
    }
    void element(const JV& e, const JV* annotation)
    {
        std::string saved = path;
        path += "/" + res::element(e);
        if (res::element(e) == "annotation")
            annotation = &e;
        for (const char* where : { "attributes", "meta" })
            if (const JV* a = e.get(where)) {
                if (const JV* sm = a->get("sourceMap")) {
                    ++maps;
                    std::string text = select(*sm, annotation);
                    const JV* v = e.get("content");
                    if (v && (v->t == JV::Str) && !annotation)
                        words(v->s, text);
                    if (v && v->t == JV::Obj && v->get("key") && !annotation)
                        for (const char* k : { "key", "value" }) // what has no place of its own
                            if (const JV* m = v->get(k)) {
                                const JV* x = m->get("content");
                                if (x && x->t == JV::Str && x->s != "Content-Type" && !res::attribute(*m, "sourceMap"))
                                    words(x->s, text);
                            }
                }
                for (auto& p : a->o)
                    if (p.first != "sourceMap") {
                        std::string s = path;
                        path += "." + p.first;
                        element(p.second, annotation);
                        path = s;
                    }
            }
        if (const JV* v = e.get("content"))
            value(*v, annotation);
        path = saved;
    }
    void value(const JV& v, const JV* annotation)
    {
        if (v.t == JV::Arr)
            for (auto& x : v.a)
                element(x, annotation);
        else if (v.t == JV::Obj) {
            if (v.get("element"))
                element(v, annotation);
            else
                for (const char* k : { "key", "value" })
                    if (const JV* m = v.get(k))
                        element(*m, annotation);
        }
    }
    // runs of letters, digits and characters outside ASCII
    void words(const std::string& content, const std::string& text)
    {
        auto in = [](unsigned char x) { return isalnum(x) || x >= 0x80; };
        // a value of several lines is joined to one, without its backticks
        std::string joined;
        for (char x : text)
            if (!strchr("\n\r`", x) || !x)
                joined += x;
        size_t i = 0;
        while (i < content.size()) {
            while (i < content.size() && !in(content[i]))
                ++i;
            size_t b = i;
            while (i < content.size() && in(content[i]))
                ++i;
            if (i > b) {
                ++compared;
                std::string w = content.substr(b, i - b);
                REQUIRE_(text.find(w) != std::string::npos || joined.find(w) != std::string::npos, "words", "the word " << pbt::quote(w) << " of " << path << " is not in the text its source map selects, " << pbt::quote(text));
            }
        }
    }
};
static void one(pbt::Case& c, std::string src)
{
    // characters of several bytes ahead of everything else
    if (c.chance(1, 3))
        src = c.pick(std::vector<std::string>{ "# \xC5\xBDlu\xC5\xA5\n\n", "\xE2\x82\xAC \xF0\x9F\x98\x80\n\n", "K: \xC4\x8C\n" }) + src;
    if (!mj::validUtf8(src))
        c.discard();
    unsigned o = c.chance(1, 4) ? c.draw(7) : 0;
    c << pbt::quote(src) << " opts=" << o;
    Doc d(src);
    capi::Parse p(src, o);
    REQUIRE_(p.result, "no-result", "no result");
    c.label(p.rc ? "error" : "ok");
    JV t;
    std::string s = p.json(true);
    mj::JsonParser j(s);
    REQUIRE_(j.parse(t), "json", "the output is not JSON: " << j.err);
    Walk w{ c, d };
    w.element(t, nullptr);
    c.nontrivial(w.maps >= 2);
    if (w.compared)
        c.label("words compared");
}
FACET(soup, 40000, 800000, "blueprint vocabulary lines with arbitrary nesting; non-trivial: two or more source maps")
{
    one(c, soup::lines(c, 30));
}
FACET(fixtures, 12000, 200000, "repository fixtures with line and byte mutations; non-trivial: two or more source maps")
{
    one(c, soup::mutatedFixture(c));
}
FACET(documents, 6000, 150000, "blueprints and data structures with odd characters, disturbed in up to three places; non-trivial: two or more source maps")
{
    one(c, docs::any(c));
}
KNOWN_PROBE(code_block_range, "P03-code-block-range")
{
    capi::Parse p("# GET /\n+ Response 200\n    + Body\n\n        text\n");
    std::string s = p.json(true);
    return s.find("every of its line indented by exactly") != std::string::npos;
}
KNOWN_PROBE(conversion_bytes, "P03-conversion-bytes")
{
    const std::string src = "# Data Structures\n\n## A (object)\n+ a: \xC4\x8D\xC3\xADslo (number)\n";
    capi::Parse p(src);
    JV t;
    std::string s = p.json(true);
    mj::JsonParser(s).parse(t);
    for (auto* a : res::annotations(t))
        if (const JV* sm = res::attribute(*a, "sourceMap")) {
            const JV& r = res::content(res::content(*sm)->a[0])->a[0];
            size_t loc, len;
            if (number(&res::content(r)->a[0], loc) && number(&res::content(r)->a[1], len) && fromConversion(res::text(a)))
                return loc + len > Doc(src).chars();
        }
    return false;
}
