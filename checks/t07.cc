// T07: markdown nodes are deep values; pattern matching and section names are functions of their arguments.
#include "MarkdownNode.h"
#include "Section.h"
#include "RegexMatch.h"
#include "gen_text.h"
#include <regex>
#include <regex.h>

PBT_LEAKS

using namespace mdp;

struct Model {
    int type = -1;
    std::string text;
    int data = 0;
    std::vector<std::pair<size_t, size_t> > map;
    std::vector<Model> kids;
    bool operator==(const Model& o) const { return type == o.type && text == o.text && data == o.data && map == o.map && kids == o.kids; }
    size_t count() const
    {
        size_t n = 1;
        for (auto& k : kids)
            n += k.count();
        return n;
    }
};
static Model observe(const MarkdownNode& n)
{
    Model m;
    m.type = n.type;
    m.text = n.text;
    m.data = n.data;
    for (auto& r : n.sourceMap)
        m.map.emplace_back(r.location, r.length);
    for (auto& k : n.children())
        m.kids.push_back(observe(k));
    return m;
}
static void fill(pbt::Case& c, MarkdownNode& n, Model& m)
{
    m.type = n.type = (MarkdownNodeType)c.range(-1, 10);
    m.text = n.text = c.bytes(6, "ab \n");
    m.data = n.data = (int)c.range(-2, 100);
    n.sourceMap.clear();
    m.map.clear();
    size_t k = c.size(3);
    for (size_t i = 0; i < k; ++i) {
        size_t a = c.draw(50), b = c.draw(50);
        n.sourceMap.push_back(BytesRange(a, b));
        m.map.emplace_back(a, b);
    }
}
static void build(pbt::Case& c, MarkdownNode& n, Model& m, int depth)
{
    fill(c, n, m);
    size_t k = depth ? c.size(3) : 0;
    for (size_t i = 0; i < k; ++i) {
        n.children().push_back(MarkdownNode((MarkdownNodeType)0, &n));
        m.kids.emplace_back();
        build(c, n.children().back(), m.kids.back(), depth - 1);
    }
}
static MarkdownNode* walk(pbt::Case& c, MarkdownNode* n, Model** m)
{
    while (!(*m)->kids.empty() && c.chance(2, 3)) {
        size_t i = c.draw((*m)->kids.size() - 1);
        n = &n->children()[i];
        *m = &(*m)->kids[i];
    }
    return n;
}
FACET(values, 100000, 4000000, "histories of construction, copying, assignment (from a descendant or itself included), editing and erasing over a set of trees, against a value model; non-trivial: a tree with three nodes is copied")
{
    const size_t N = 3;
    std::vector<std::unique_ptr<MarkdownNode> > t;
    std::vector<Model> m(N);
    for (size_t i = 0; i < N; ++i) {
        t.emplace_back(new MarkdownNode);
        build(c, *t[i], m[i], 3);
    }
    size_t n = c.size(12);
    for (size_t s = 0; s < n; ++s) {
        size_t a = c.draw(N - 1), b = c.draw(N - 1);
        Model *ma = &m[a], *mb = &m[b];
        MarkdownNode *na = walk(c, t[a].get(), &ma), *nb = walk(c, t[b].get(), &mb);
        switch (c.draw(5)) {
            case 0: {
                // assigning to a node destroys its descendants, so a node may take the value of a descendant but not of an ancestor
                bool inside = false;
                if (a == b) {
                    std::function<bool(Model*)> has = [&](Model* x) {
                        if (x == ma && x != mb)
                            return true;
                        for (auto& k : x->kids)
                            if (has(&k))
                                return true;
                        return false;
                    };
                    inside = mb != ma && has(mb);
                }
                if (inside)
                    break;
                c << "assign; ";
                c.nontrivial(mb->count() >= 3);
                Model v = *mb;
                *na = *nb;
                *ma = v;
                break;
            }
            case 1: {
                c << "copy; ";
                c.nontrivial(mb->count() >= 3);
                Model v = *mb;
                std::unique_ptr<MarkdownNode> x(new MarkdownNode(*nb));
                t[a] = std::move(x);
                m[a] = v;
                break;
            }
            case 2:
                c << "edit; ";
                fill(c, *na, *ma);
                break;
            case 3: {
                c << "push; ";
                Model v;
                MarkdownNode x(ParagraphMarkdownNodeType, na, "p", 7);
                build(c, x, v, 1);
                na->children().push_back(x);
                ma->kids.push_back(v);
                break;
            }
            case 4:
                if (!ma->kids.empty()) {
                    size_t i = c.draw(ma->kids.size() - 1);
                    c << "erase; ";
                    na->children().erase(na->children().begin() + i);
                    ma->kids.erase(ma->kids.begin() + i);
                }
                break;
            default: {
                c << "parent; ";
                MarkdownNode x(*nb);
                x.setParent(t[a].get());
                REQUIRE_(x.hasParent() && &x.parent() == t[a].get(), "parent", "the parent set is not the parent reported");
                x.setParent(nullptr);
                REQUIRE_(!x.hasParent(), "parent", "a node whose parent was cleared has one");
                bool threw = false;
                try {
                    x.parent();
                } catch (const char*) {
                    threw = true;
                }
                REQUIRE_(threw, "parent", "no exception for a missing parent");
                MarkdownNode y(x);
                REQUIRE_(!y.hasParent(), "parent", "the copy of a root has a parent");
            }
        }
        for (size_t i = 0; i < N; ++i)
            REQUIRE_(observe(*t[i]) == m[i], "contents", "tree " << i << " is not the tree of the model");
    }
}
// an extended regular expression with optional, repeated and alternative groups
static std::string pattern(pbt::Case& c, int depth)
{
    static const std::vector<std::string> atoms = { "a", "b", "c", ".", "[ab]", "[^a]", "[[:space:]]", "[[:digit:]]", "\\(", "x" };
    static const std::vector<std::string> rep = { "", "", "", "?", "*", "+", "{1,2}" };
    std::string r;
    size_t n = 1 + c.size(3);
    for (size_t i = 0; i < n; ++i) {
        std::string x = depth > 0 && c.chance(1, 2) ? "(" + pattern(c, depth - 1) + (c.chance(1, 4) ? "|" + pattern(c, depth - 1) : "") + ")" : c.pick(atoms);
        r += x + c.pick(rep);
    }
    return r;
}
FACET(regex, 100000, 1000000, "the section and signature patterns and generated ones over matching and mutated text, against the C library's matcher (and, whether the text matches at all, std::regex); non-trivial: the pattern matches")
{
    static const std::vector<std::string> pats = { "^[[:blank:]]*[Rr]esponse([[:blank:]]+([[:digit:]]+))?([[:blank:]]*\\(([^)]*)\\))?[[:blank:]]*$",
        "^[[:blank:]]*(GET|POST|PUT)[[:blank:]]+(/.*)$", "(a+)(b?)(c*)", "^([^:]+)(:)?$", "x", "[[:space:]]", "(a|b)*c", "^$", "(z)?(a)", "\\[(.*)]", "^(a)?(b)?(c)?(x)?$", "(", "a{2,1}", "[a" };
    static const std::vector<std::string> tok = { "Response", " ", "200", "(a/b)", "GET", "/x", "a", "b", "c", "x", ":", "[", "]", "\t", "z", "\n" };
    bool own = c.chance(1, 3);
    std::string p = own ? pattern(c, 1) : c.pick(pats), s;
    if (own && c.chance(1, 3))
        p = "^" + p;
    if (own && c.chance(1, 3))
        p += "$";
    size_t n = c.size(8);
    for (size_t i = 0; i < n; ++i)
        s += own ? std::string(1, "abcx1 ("[c.draw(6)]) : c.pick(tok);
    c << pbt::quote(p) << " on " << pbt::quote(s);
    regex_t re;
    bool valid = !regcomp(&re, p.c_str(), REG_EXTENDED);
    regmatch_t m[8];
    bool e = !s.empty() && valid && !regexec(&re, s.c_str(), 8, m, 0);
    if (valid)
        regfree(&re);
    if (valid && !own) {
        std::smatch sm;
        REQUIRE_(e == (!s.empty() && std::regex_search(s, sm, std::regex(p, std::regex::extended))), "oracles", "the two matchers disagree");
    }
    c.nontrivial(e);
    c.label(!valid ? "invalid" : own ? "generated" : "fixed");
    REQUIRE_(snowcrash::RegexMatch(s, p) == e, "match", "matches " << !e);
    snowcrash::CaptureGroups g(c.chance(1, 3) ? c.draw(9) : 0, "old"); // what was in it is replaced
    size_t gs = 1 + c.draw(7);
    bool r = snowcrash::RegexCapture(s, p, g, gs);
    REQUIRE_(r == e, "capture", "captures " << r);
    if (r) {
        REQUIRE_(g.size() == gs, "groups", g.size() << " groups instead of " << gs);
        for (size_t i = 0; i < gs; ++i) {
            std::string want = m[i].rm_so < 0 ? "" : s.substr(m[i].rm_so, m[i].rm_eo - m[i].rm_so);
            REQUIRE_(g[i] == want, i ? "group" : "whole", "group " << i << " is " << pbt::quote(g[i]) << " instead of " << pbt::quote(want));
        }
        if (gs >= 2)
            REQUIRE_(snowcrash::RegexCaptureFirst(s, p) == g[1], "first", "the first group differs");
    } else
        REQUIRE_(snowcrash::RegexCaptureFirst(s, p).empty(), "first", "a first group without a match");
}
