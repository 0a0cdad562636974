// T06: URI templates are split into scheme, host and path, and each construct that is not supported is warned about.
#include "UriTemplateParser.h"
#include "gen_text.h"

PBT_LEAKS

using namespace snowcrash;

// defined among the blueprint parser's sources, which this harness leaves out
__attribute__((weak)) const int snowcrash::SourceAnnotation::OK = 0;

static std::string lit(pbt::Case& c, bool unicode)
{
    static const std::string ok = "abzAZ019!#$&()*+,-.:;=?@_/";
    std::string s;
    size_t n = 1 + c.size(6);
    for (size_t i = 0; i < n; ++i)
        switch (c.weighted({ 10, 2, unicode ? 1u : 0u })) {
            case 0: s += ok[c.draw(ok.size() - 1)]; break;
            case 1: s += c.pick(std::vector<std::string>{ "%41", "%fF", "%00" }); break;
            default: mj::putUtf8(s, (uint32_t)c.pick(std::vector<int>{ 0xA0, 0x17E, 0x3042, 0x1F600, 0xE000, 0xFFEF }));
        }
    return s;
}
static std::string var(pbt::Case& c)
{
    static const std::string ok = "abzAZ019_";
    std::string s;
    size_t n = 1 + c.size(4);
    for (size_t i = 0; i < n; ++i)
        switch (c.weighted({ 8, 1, i && i + 1 < n && s.back() != '.' ? 2u : 0u })) {
            case 0: s += ok[c.draw(ok.size() - 1)]; break;
            case 1: s += "%2D"; break;
            default: s += '.';
        }
    return s;
}
static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char ch : s) {
        snprintf(b, 4, "%%%02X", ch);
        o += b;
    }
    return o;
}
FACET(templates, 200000, 10000000, "templates of valid and invalid literals and expressions, with the warnings they call for; non-trivial: two or more expressions or a warning")
{
    std::string s;
    std::vector<std::vector<std::string> > expect; // fragments each warning contains
    size_t n = 1 + c.size(5), exprs = 0;
    bool prevLit = false, open = false;
    for (size_t i = 0; i < n && !open; ++i) {
        if (!prevLit && c.boolean()) {
            prevLit = true;
            std::string l = lit(c, true);
            if (c.chance(1, 6)) { // one disallowed character
                static const std::vector<std::string> bad = { " ", "\"", "<", ">", "\\", "^", "`", "|", "~", "[", "]", "\t", "\x01", "'", "}", "\xC2\x85" };
                std::string b = c.pick(bad);
                if (b == "}" && c.boolean())
                    b = "|";
                if (c.chance(1, 4)) {
                    expect.push_back({ "disallowed percent encoded character '%zz'" });
                    l += "%zz";
                } else {
                    expect.push_back({ "disallowed character '" + b + "'" });
                    l += b;
                }
                l += lit(c, true);
            }
            s += l;
            continue;
        }
        prevLit = false;
        ++exprs;
        static const std::vector<std::string> ops = { "", "+", "#", "?", "&", ".", "/", ";", "=", ",", "!", "@", "|" };
        std::string op = c.pick(ops);
        if (op == ".")
            expect.push_back({ "'label' expansion is not supported" });
        else if (op == "/")
            expect.push_back({ "'path segment' expansion is not supported" });
        else if (op == ";")
            expect.push_back({ "'path segment parameter' expansion is not supported" });
        else if (!op.empty() && std::string("=,!@|").find(op) != std::string::npos)
            expect.push_back({ "'reserved operator' expansion is not supported" });
        s += "{" + op;
        size_t vars = 1 + c.size(3);
        for (size_t k = 0; k < vars; ++k) {
            std::string v = var(c);
            if (c.chance(1, 6)) {
                std::string before = v;
                switch (c.draw(2)) {
                    case 0: {
                        static const std::vector<std::string> bad = { "-", " ", "\xC5\xBE", "\t", "{", "?", "~" };
                        std::string b = c.pick(bad);
                        v += b + var(c);
                        expect.push_back({ "URI template variable '" + v + "'",
                            b == "{" ? std::string("nested expression brace '{'") : "character '" + b + "'", "encoded as '" + hex(b) + "'" });
                        break;
                    }
                    case 1:
                        v += ".." + var(c);
                        expect.push_back({ "URI template variable '" + v + "'", "continuous dots '..'" });
                        break;
                    default:
                        v += "%zz" + var(c);
                        expect.push_back({ "URI template variable '" + v + "'", "percent encoded character '%zz'" });
                }
            } else
                switch (c.weighted({ 4, 1, 1 })) {
                    case 1: v += "*"; break;
                    case 2: v += ":" + std::to_string(c.draw(999)); break;
                    default: break;
                }
            s += (k ? "," : "") + v;
        }
        if (i + 1 == n && c.chance(1, 6)) {
            open = true;
            expect.push_back({ "missing closing bracket '}'" });
        } else
            s += "}";
    }
    c << pbt::quote(s);
    c.nontrivial(exprs > 1 || !expect.empty());
    ParsedURITemplate r;
    mdp::CharactersRangeSet sm;
    sm.push_back(mdp::CharactersRange(3, 4));
    URITemplateParser::parse(s, sm, r);
    std::ostringstream got;
    for (auto& w : r.report.warnings)
        got << "\n    " << pbt::quote(w.message);
    REQUIRE_(r.report.error.code == Error::OK, "error", "error " << r.report.error.message);
    REQUIRE_(r.report.warnings.size() == expect.size(), "count", "expected " << expect.size() << " warnings, got " << r.report.warnings.size() << got.str());
    for (size_t i = 0; i < expect.size(); ++i) {
        auto& w = r.report.warnings[i];
        for (auto& f : expect[i])
            REQUIRE_(w.message.find(f) != std::string::npos, "message", "warning " << i << " lacks " << pbt::quote(f) << got.str());
        REQUIRE_(w.code == URIWarning && w.location.size() == 1 && w.location[0].location == 3 && w.location[0].length == 4, "location", "warning " << i << " has code " << w.code << " or another location");
    }
}
FACET(split, 200000, 8000000, "URIs made of scheme, host and path; non-trivial: all three present")
{
    static const std::vector<std::string> schemes = { "", "http", "https", "ftp", "file" };
    std::string sch = c.pick(schemes), host, path;
    static const std::string hc = "abz019.-:{}?";
    size_t n = c.size(6);
    for (size_t i = 0; i < n; ++i)
        host += hc[c.draw(hc.size() - 1)];
    if (c.chance(3, 4)) {
        path = "/";
        n = c.size(6);
        static const std::string pc = "ab/{}?:.=h";
        for (size_t i = 0; i < n; ++i)
            path += pc[c.draw(pc.size() - 1)];
    }
    if (host.empty() && !sch.empty()) // the C library's regular expressions split "https://" inside the scheme
        host = "h";
    bool sep = !sch.empty() || (c.chance(1, 4) && !host.empty());
    if (!sep) // a host cannot start like a scheme without the separator
        host = host.empty() ? "" : "x" + host;
    std::string s = sch + (sep ? "://" : "") + host + path;
    c << pbt::quote(s);
    c.nontrivial(!sch.empty() && !host.empty() && !path.empty());
    if (s.empty())
        return;
    ParsedURITemplate r;
    URITemplateParser::parse(s, mdp::CharactersRangeSet(), r);
    REQUIRE_(r.scheme == sch && r.host == host && r.path == path, "parts", "scheme " << pbt::quote(r.scheme) << " host " << pbt::quote(r.host) << " path " << pbt::quote(r.path));
}
FACET(anything, 120000, 8000000, "arbitrary text: parsing ends, reports at most one error, every warning carries the given location; non-trivial: contains '{'")
{
    std::string s;
    static const std::vector<std::string> tok = { "{", "}", "a", "/", "?", ",", ".", "..", "%", "%4", "%41", "*", ":", "1", " ", "-", "+", "#", "\xC5\xBE", "\xC5", "\xFF", "http", "://", "\n" };
    size_t n = c.size(14);
    for (size_t i = 0; i < n; ++i)
        s += c.pick(tok);
    c << pbt::quote(s);
    c.nontrivial(s.find('{') != std::string::npos);
    ParsedURITemplate r, q;
    mdp::CharactersRangeSet sm;
    sm.push_back(mdp::CharactersRange(1, 2));
    URITemplateParser::parse(s, sm, r);
    URITemplateParser::parse(s, sm, q);
    REQUIRE_(r.report.warnings.size() == q.report.warnings.size(), "unrepeatable", "a second parse gives other warnings");
    for (auto& w : r.report.warnings)
        REQUIRE_(w.location.size() == 1 && !w.message.empty(), "warning", "a warning without location or text");
}
