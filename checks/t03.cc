// T03: character ranges become line and column positions.
#include "SourceMapUtils.h"
#include "gen_text.h"

PBT_LEAKS

using namespace drafter;

FACET(positions, 2000000, 15000000, "well-formed text and a character range in it; non-trivial: two or more lines and a non-empty range")
{
    std::vector<uint32_t> cps;
    std::string s;
    size_t n = c.size(40);
    for (size_t i = 0; i < n; ++i) {
        uint32_t u = c.chance(1, 4) ? '\n' : gt::codepoint(c);
        cps.push_back(u);
        mj::putUtf8(s, u);
    }
    size_t b = c.draw(n), e = b + c.draw(n - b);
    c << pbt::quote(s) << " " << b << "+" << e - b;
    std::vector<size_t> starts(1, 0);
    for (size_t i = 0; i < n; ++i)
        if (cps[i] == '\n')
            starts.push_back(i + 1);
    c.nontrivial(starts.size() > 2 && e > b);
    const NewLinesIndex index = GetLinesEndIndex(s);
    REQUIRE_(std::vector<size_t>(index.begin(), index.end()) == starts, "index", "the line index has " << index.size() << " entries, expected " << starts.size() << " or other values");
    auto p = GetLineFromMap(index, mdp::Range(b, e - b));
    auto lineOf = [&](size_t pos, size_t& line, size_t& col) {
        line = 1;
        col = 1;
        for (size_t i = 0; i < pos; ++i)
            if (cps[i] == '\n') {
                ++line;
                col = 1;
            } else
                ++col;
    };
    size_t l, k;
    lineOf(b, l, k);
    REQUIRE_(p.fromLine == l && p.fromColumn == k, "from", "starts at " << p.fromLine << ":" << p.fromColumn << " expected " << l << ":" << k);
    if (e == 0) {
        REQUIRE_(p.toLine == 1 && p.toColumn == 1, "to-empty", "ends at " << p.toLine << ":" << p.toColumn);
        return;
    }
    lineOf(e - 1, l, k);
    REQUIRE_(p.toLine == l, "to-line", "ends at line " << p.toLine << " expected " << l);
    if (e > starts.back())
        // an end inside the unterminated last line is reported as that line's first column
        REQUIRE_(p.toColumn == 1 || p.toColumn == k, "to-column", "ends at column " << p.toColumn << " of " << k);
    else
        REQUIRE_(p.toColumn == k, "to-column", "ends at column " << p.toColumn << " expected " << k);
}
FACET(beyond, 400000, 3000000, "ranges ending past the text are reported on the last line; non-trivial: two or more lines")
{
    std::string s;
    size_t n = c.size(20), lines = 1;
    for (size_t i = 0; i < n; ++i) {
        s += c.chance(1, 3) ? '\n' : 'x';
        lines += s.back() == '\n';
    }
    size_t b = c.draw(n), len = n - b + 1 + c.draw(5);
    c << pbt::quote(s) << " " << b << "+" << len;
    c.nontrivial(lines > 2);
    auto p = GetLineFromMap(GetLinesEndIndex(s), mdp::Range(b, len));
    REQUIRE_(p.toLine == lines, "to-line", "ends at line " << p.toLine << " of " << lines);
    REQUIRE_(p.toColumn == 1, "to-column", "ends at column " << p.toColumn << " of the last line");
    if (b < n) {
        size_t l = 1, k = 1;
        for (size_t i = 0; i < b; ++i)
            k = s[i] == '\n' ? (++l, 1) : k + 1;
        REQUIRE_(p.fromLine == l && p.fromColumn == k, "from", "starts at " << p.fromLine << ":" << p.fromColumn << " expected " << l << ":" << k);
    }
    REQUIRE_(p.fromLine >= 1 && p.fromLine <= lines && p.fromColumn >= 1, "from", "starts at " << p.fromLine << ":" << p.fromColumn);
}
