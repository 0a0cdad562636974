// R10: reports, options and serialised keys say exactly what they are given.
#include "pbt.h"
#include "gen_refract.h"
#include "SerializeKey.h"
#include "options.h"
#include "reporting.h"

PBT_LEAKS

using namespace gr;

namespace
{
    struct Stderr {
        std::ostringstream text;
        std::streambuf* was;
        Stderr() : was(std::cerr.rdbuf(text.rdbuf())) {}
        ~Stderr() { std::cerr.rdbuf(was); }
    };
    typedef std::pair<size_t, size_t> Range;
    struct Note {
        bool error = false;
        int code = 0;
        std::string text;
        std::vector<Range> at;
    };
    // text which ends in a line break, and ranges of one character or more inside it
    std::string source(pbt::Case& c, std::vector<uint32_t>& cps)
    {
        std::string s;
        size_t n = 1 + c.size(30);
        for (size_t i = 0; i < n; ++i) {
            uint32_t u = i + 1 == n || c.chance(1, 5) ? '\n' : gt::codepoint(c);
            cps.push_back(u);
            mj::putUtf8(s, u);
        }
        return s;
    }
    Note note(pbt::Case& c, size_t n)
    {
        static const std::vector<std::string> texts = { "", "a message", "no: 1 (2) ; line 3", "it's \xC3\xA9 \"quoted\"", "error: nested", "OK." };
        Note r;
        r.error = c.boolean();
        r.code = c.chance(1, 6) ? 0 : c.chance(1, 8) ? -1 - (int)c.size(3) : 1 + (int)c.draw(13);
        r.text = c.pick(texts);
        for (size_t k = c.chance(2, 3) ? 1 : c.size(3); k; --k) {
            size_t b = c.draw(n - 1);
            r.at.emplace_back(b, 1 + c.draw(n - 1 - b));
        }
        return r;
    }
    std::string place(const Range& r, const std::vector<uint32_t>& cps, bool lines, bool first)
    {
        std::ostringstream o;
        if (!lines) {
            o << (first ? " :" : ";") << r.first << ":" << r.second;
            return o.str();
        }
        auto at = [&](size_t pos, const char* sep) {
            size_t l = 1, k = 1;
            for (size_t i = 0; i < pos; ++i)
                if (cps[i] == '\n') {
                    ++l;
                    k = 1;
                } else
                    ++k;
            o << sep << "line " << l << ", column " << k;
        };
        at(r.first, "; ");
        at(r.first + r.second - 1, " - ");
        return o.str();
    }
    void tell(pbt::Case& c, const std::string& s, const std::vector<Note>& notes, bool lines)
    {
        c << pbt::quote(s) << (lines ? " lines" : "");
        for (auto& n : notes) {
            c << " [" << (n.error ? "error " : "warning ") << n.code << " " << pbt::quote(n.text);
            for (auto& r : n.at)
                c << " " << r.first << "+" << r.second;
            c << "]";
        }
    }
}
FACET(report, 60000, 1000000, "two or more annotations, one with a range")
{
    std::vector<uint32_t> cps;
    std::string s = source(c, cps);
    bool lines = c.boolean();
    snowcrash::Report r;
    std::vector<Note> notes;
    std::string want = "\n";
    size_t n = c.size(5), ranges = 0;
    for (size_t i = 0; i <= n; ++i) {
        Note t = note(c, cps.size());
        t.error = i == 0;
        if (!i && c.boolean())
            t.code = 0;
        notes.push_back(t);
        mdp::CharactersRangeSet set;
        for (auto& x : t.at)
            set.push_back(mdp::CharactersRange(x.first, x.second));
        snowcrash::SourceAnnotation a(t.text, t.code, set);
        if (i)
            r.warnings.push_back(a);
        else
            r.error = a;
        if (!i && !t.code) {
            want += "OK.\n";
            continue;
        }
        want += i ? "warning:" : "error:";
        if (t.code)
            want += " (" + std::to_string(t.code) + ") ";
        if (!t.text.empty())
            want += " " + t.text;
        for (size_t k = 0; k < t.at.size(); ++k)
            want += place(t.at[k], cps, lines, !k);
        want += "\n";
        ranges += t.at.size();
    }
    tell(c, s, notes, lines);
    std::string got;
    {
        Stderr e;
        PrintReport(r, s, lines);
        got = e.text.str();
    }
    REQUIRE_(got == want, "report", "the report is " << pbt::quote(got) << " instead of " << pbt::quote(want));
    c.nontrivial(n && ranges);
    c.label(notes[0].code ? "error" : "ok");
}
FACET(result, 60000, 1000000, "two or more annotations, one with a range")
{
    std::vector<uint32_t> cps;
    std::string s = source(c, cps);
    bool lines = c.boolean(), ok = c.boolean();
    M m = seq(kArray, {});
    m.name = "parseResult";
    std::vector<Note> notes;
    std::string want = ok ? "\nOK.\n" : "\n";
    size_t n = c.size(5), ranges = 0;
    for (size_t i = 0; i < n; ++i) {
        if (c.chance(1, 4)) { // not an annotation
            Opts o;
            o.typeNames = { "category", "annotations", "Annotation" };
            m.kids.push_back(gen(c, 1, o));
        }
        Note t = note(c, cps.size());
        notes.push_back(t);
        M a = str(t.text);
        a.name = "annotation";
        set(a.meta, "classes", seq(kArray, { str(t.error ? "error" : "warning") }));
        if (t.code)
            set(a.attrs, "code", leaf(kNumber, std::to_string(t.code)));
        if (!t.at.empty()) {
            M l = seq(kArray, {});
            for (auto& x : t.at)
                l.kids.push_back(seq(kArray, { leaf(kNumber, std::to_string(x.first)), leaf(kNumber, std::to_string(x.second)) }));
            l.name = "sourceMap";
            set(a.attrs, "sourceMap", seq(kArray, { l }));
        }
        m.kids.push_back(a);
        want += t.error ? "error: " : "warning: ";
        if (t.code)
            want += "(" + std::to_string(t.code) + ")  ";
        want += t.text;
        for (size_t k = 0; k < t.at.size(); ++k)
            want += place(t.at[k], cps, lines, !k);
        want += "\n";
        ranges += t.at.size();
    }
    tell(c, s, notes, lines);
    auto e = build(m);
    std::string got;
    {
        Stderr err;
        PrintReport(static_cast<const drafter_result*>(e.get()), s, lines, ok ? 0 : 1 + (int)c.draw(3));
        got = err.text.str();
    }
    REQUIRE_(got == want, "result", "the report is " << pbt::quote(got) << " instead of " << pbt::quote(want));
    REQUIRE_(same(observe(*e), m), "changed", "reporting changes the result");
    c.nontrivial(n > 1 && ranges);
    c.label(ok ? "ok" : "failed");
}

namespace
{
    struct Parse {
        drafter_parse_options* o = nullptr;
        bool flag[3] = { false, false, false };
    };
    struct Ser {
        drafter_serialize_options* o = nullptr;
        bool maps = false;
        drafter_format format = DRAFTER_SERIALIZE_YAML;
    };
}
FACET(options, 300000, 2000000, "two or more option objects and as many settings")
{
    std::vector<Parse> p(1);
    std::vector<Ser> s(1); // the first are the absent ones
    size_t sets = 0;
    for (size_t n = c.size(16); n; --n) {
        switch (c.draw(3)) {
            case 0:
                if (c.boolean()) {
                    p.emplace_back();
                    p.back().o = drafter_init_parse_options();
                    c << "parse" << p.size() - 1 << " ";
                } else {
                    s.emplace_back();
                    s.back().o = drafter_init_serialize_options();
                    c << "serialise" << s.size() - 1 << " ";
                }
                break;
            case 1:
                if (p.size() > 1) {
                    auto& x = p[1 + c.draw(p.size() - 2)];
                    size_t f = c.draw(2);
                    c << "parse" << (&x - p.data()) << "." << f << " ";
                    (f == 0 ? drafter_set_name_required : f == 1 ? drafter_set_skip_gen_bodies : drafter_set_skip_gen_body_schemas)(x.o);
                    x.flag[f] = true;
                    ++sets;
                }
                break;
            default:
                if (s.size() > 1) {
                    auto& x = s[1 + c.draw(s.size() - 2)];
                    if (c.boolean()) {
                        c << "maps" << (&x - s.data()) << " ";
                        drafter_set_sourcemaps_included(x.o);
                        x.maps = true;
                    } else {
                        x.format = c.boolean() ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML;
                        c << "format" << (&x - s.data()) << "=" << (int)x.format << " ";
                        drafter_set_format(x.o, x.format);
                    }
                    ++sets;
                }
        }
        for (auto& x : p)
            REQUIRE_(drafter::is_name_required(x.o) == x.flag[0] && drafter::is_skip_gen_bodies(x.o) == x.flag[1]
                    && drafter::is_skip_gen_body_schemas(x.o) == x.flag[2],
                "parse-options", "parse options " << (&x - p.data()) << " are " << drafter::is_name_required(x.o) << drafter::is_skip_gen_bodies(x.o) << drafter::is_skip_gen_body_schemas(x.o) << " instead of " << x.flag[0] << x.flag[1] << x.flag[2]);
        for (auto& x : s)
            REQUIRE_(drafter::are_sourcemaps_included(x.o) == x.maps && drafter::get_format(x.o) == x.format, "serialise-options",
                "serialise options " << (&x - s.data()) << " are " << drafter::are_sourcemaps_included(x.o) << (int)drafter::get_format(x.o) << " instead of " << x.maps << (int)x.format);
    }
    for (auto& x : p)
        drafter_free_parse_options(x.o);
    for (auto& x : s)
        drafter_free_serialize_options(x.o);
    c.nontrivial(p.size() + s.size() > 3 && sets > 1);
}
FACET(keys, 200, 200, "always")
{
    typedef drafter::SerializeKey K;
    static const std::pair<const std::string*, const char*> t[] = { { &K::Element, "element" }, { &K::Content, "content" },
        { &K::Meta, "meta" }, { &K::Attributes, "attributes" }, { &K::Id, "id" }, { &K::Title, "title" }, { &K::Description, "description" },
        { &K::Classes, "classes" }, { &K::Ref, "ref" }, { &K::Href, "href" }, { &K::Path, "path" }, { &K::Variable, "variable" },
        { &K::Samples, "samples" }, { &K::Default, "default" }, { &K::Enumerations, "enumerations" }, { &K::TypeAttributes, "typeAttributes" },
        { &K::Required, "required" }, { &K::Optional, "optional" }, { &K::Fixed, "fixed" }, { &K::FixedType, "fixedType" },
        { &K::Nullable, "nullable" }, { &K::Category, "category" }, { &K::Copy, "copy" }, { &K::API, "api" }, { &K::User, "user" },
        { &K::Metadata, "metadata" }, { &K::ResourceGroup, "resourceGroup" }, { &K::Resource, "resource" }, { &K::DataStructure, "dataStructure" },
        { &K::DataStructures, "dataStructures" }, { &K::Transition, "transition" }, { &K::HrefVariables, "hrefVariables" },
        { &K::HTTPHeaders, "httpHeaders" }, { &K::HTTPTransaction, "httpTransaction" }, { &K::HTTPRequest, "httpRequest" },
        { &K::HTTPResponse, "httpResponse" }, { &K::ContentType, "contentType" }, { &K::StatusCode, "statusCode" }, { &K::Method, "method" },
        { &K::Asset, "asset" }, { &K::MessageBody, "messageBody" }, { &K::MessageBodySchema, "messageBodySchema" }, { &K::Data, "data" },
        { &K::ParseResult, "parseResult" }, { &K::Annotation, "annotation" }, { &K::SourceMap, "sourceMap" }, { &K::AnnotationCode, "code" },
        { &K::Relation, "relation" }, { &K::Enum, "enum" }, { &K::Generic, "generic" }, { &K::Error, "error" }, { &K::Warning, "warning" },
        { &K::Value, "value" }, { &K::Name, "name" }, { &K::Resolved, "resolved" } };
    auto& x = t[c.draw(sizeof(t) / sizeof(t[0]) - 1)];
    c << x.second;
    c.nontrivial();
    REQUIRE_(*x.first == x.second, "key", "the key " << x.second << " is serialised as " << pbt::quote(*x.first));
}
