// T01: byte ranges convert to character ranges exactly.
#include "ByteBuffer.h"
#include "gen_text.h"

PBT_LEAKS

struct Text {
    std::string s;
    std::vector<size_t> at; // byte offset of every code point, and of the end
};
static Text text(pbt::Case& c, size_t max)
{
    Text t;
    size_t n = c.size(max);
    for (size_t i = 0; i < n; ++i) {
        t.at.push_back(t.s.size());
        mj::putUtf8(t.s, gt::codepoint(c));
    }
    t.at.push_back(t.s.size());
    return t;
}
static std::string show(const mdp::RangeSet<mdp::Range>& r)
{
    std::ostringstream o;
    for (auto& x : r)
        o << x.location << ":" << x.length << " ";
    return o.str();
}

FACET(wellformed, 1200000, 10000000, "well-formed text and sets of byte ranges on character boundaries, the end and past the end included, converted through the text and through the index; non-trivial: a multi-byte character lies before the end of a range")
{
    Text t = text(c, 24);
    size_t chars = t.at.size() - 1;
    mdp::BytesRangeSet in;
    mdp::CharactersRangeSet expect;
    size_t n = c.size(5);
    bool over = c.chance(1, 4);
    for (size_t i = 0; i < n; ++i) {
        size_t b = c.draw(chars), e = b + c.draw(chars - b);
        size_t extra = over && e == chars ? c.draw(3) : 0;
        in.push_back(mdp::BytesRange(t.at[b], t.at[e] - t.at[b] + extra));
        expect.push_back(t.s.empty() ? mdp::CharactersRange() : mdp::CharactersRange(b, e - b));
        c.nontrivial(t.at[e] > e && e > b);
    }
    c << pbt::quote(t.s) << " " << show(in);
    mdp::ByteBufferCharacterIndex index;
    mdp::BuildCharacterIndex(index, t.s);
    REQUIRE_(index.size() == t.s.size(), "index-size", "the index has " << index.size() << " entries for " << t.s.size() << " bytes");
    for (size_t k = 0; k < chars; ++k)
        for (size_t b = t.at[k]; b < t.at[k + 1]; ++b)
            REQUIRE_(index[b] == k, "index", "byte " << b << " maps to character " << index[b] << ", not " << k);
    std::string a = show(mdp::BytesRangeSetToCharactersRangeSet(in, t.s)), b = show(mdp::BytesRangeSetToCharactersRangeSet(in, index)), e = show(expect);
    REQUIRE_(a == e, "by-text", "through the text " << a << "expected " << e);
    REQUIRE_(b == e, "by-index", "through the index " << b << "expected " << e);
}
FACET(illformed, 800000, 5000000, "arbitrary NUL-free bytes: conversion stays inside the buffers, never starts past the last character, and a character never has more than its bytes; non-trivial: ill-formed text")
{
    std::string s = gt::anyBytes(c, 20, false);
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    std::string heap(s); // exactly sized
    size_t loc = c.draw(s.size()), len = c.draw(s.size() - loc) + c.draw(1);
    c << pbt::quote(s) << " " << loc << ":" << len;
    c.nontrivial(!mj::validUtf8(s));
    mdp::ByteBufferCharacterIndex index;
    mdp::BuildCharacterIndex(index, heap);
    mdp::BytesRangeSet in;
    in.push_back(mdp::BytesRange(loc, len));
    REQUIRE_(index.size() == s.size(), "index-size", "the index has " << index.size() << " entries");
    for (size_t i = 0; i < index.size(); ++i)
        REQUIRE_(index[i] <= i && (i == 0 || (index[i] >= index[i - 1] && index[i] <= index[i - 1] + 1)), "index", "index is not a walk at byte " << i);
    auto r = mdp::BytesRangeSetToCharactersRangeSet(in, index);
    auto q = mdp::BytesRangeSetToCharactersRangeSet(in, heap);
    REQUIRE_(r.size() == 1 && q.size() == 1, "count", "one range became " << r.size() << " and " << q.size());
    REQUIRE_(r[0].location <= s.size() && r[0].length <= s.size(), "range", "through the index " << show(r));
    REQUIRE_(q[0].location <= s.size() && q[0].length <= len, "range", "through the text " << show(q));
}
FACET(map, 800000, 5000000, "mapping byte range sets back to text: the concatenation of the pieces, one extra byte past the end tolerated; non-trivial: two or more ranges")
{
    std::string s = gt::anyBytes(c, 20, true);
    mdp::BytesRangeSet in;
    std::string expect;
    size_t n = c.size(4);
    bool over = false, dead = false;
    for (size_t i = 0; i < n; ++i) {
        size_t b = c.draw(s.size()), len = c.draw(s.size() - b);
        if (!over && b + len == s.size() && c.chance(1, 4)) {
            over = true;
            size_t x = 1 + c.draw(2);
            in.push_back(mdp::BytesRange(b, len + x));
            if (x == 1)
                expect += s.substr(b, len);
            else
                dead = true;
            break;
        }
        in.push_back(mdp::BytesRange(b, len));
        expect += s.substr(b, len);
    }
    if (s.empty() || dead)
        expect.clear();
    c << pbt::quote(s) << " " << show(in);
    c.nontrivial(n > 1);
    std::string got = mdp::MapBytesRangeSet(in, s);
    REQUIRE_(got == expect, "text", "mapped to " << pbt::quote(got) << " expected " << pbt::quote(expect));
}
FACET(append, 800000, 5000000, "appending range sets covers exactly the concatenated positions and merges a continuous seam; non-trivial: a seam is continuous")
{
    mdp::BytesRangeSet a;
    std::vector<size_t> positions;
    size_t n = c.size(5), pieces = 0;
    std::ostringstream d;
    for (size_t i = 0; i < n; ++i) {
        mdp::BytesRangeSet b;
        size_t m = c.size(3);
        bool join = false;
        for (size_t k = 0; k < m; ++k) {
            size_t loc = c.draw(30);
            if (k == 0 && !a.empty() && c.boolean())
                loc = a.back().location + a.back().length;
            if (k == 0 && !a.empty())
                join = loc == a.back().location + a.back().length;
            size_t len = 1 + c.draw(6);
            b.push_back(mdp::BytesRange(loc, len));
            for (size_t p = 0; p < len; ++p)
                positions.push_back(loc + p);
        }
        c.nontrivial(join);
        d << "[" << show(b) << "] ";
        pieces += m - (join ? 1 : 0);
        mdp::BytesRangeSet keep = b;
        a.append(b);
        REQUIRE_(show(b) == show(keep), "argument", "append changed its argument");
    }
    c << d.str();
    std::vector<size_t> got;
    for (auto& r : a)
        for (size_t p = 0; p < r.length; ++p)
            got.push_back(r.location + p);
    REQUIRE_(got == positions, "positions", "the result " << show(a) << "does not cover the appended positions in order");
    REQUIRE_(a.size() == pieces, "pieces", "the result " << show(a) << "has " << a.size() << " ranges, expected " << pieces);
}
