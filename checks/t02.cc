// T02: UTF-8 decoding and encoding.
#include "gen_text.h"
#include "utils/Utf8.h"

PBT_LEAKS

using namespace drafter::utils::utf8;
typedef input_iterator<std::string::const_iterator> It;

FACET(codepoints, 40000, 200000, "all code points in blocks of 557 consecutive values (2001 blocks, each drawn some 20 times): encodes to the standard octets and decodes back; non-trivial: beyond ASCII")
{
    uint32_t b = (uint32_t)c.draw(2000) * 557;
    c << "block " << b;
    c.nontrivial(b > 0x7F);
    for (uint32_t u = b; u < b + 557 && u <= 0x10FFFF; ++u) {
        if (u >= 0xD800 && u < 0xE000)
            continue;
        std::string e, got;
        mj::putUtf8(e, u);
        encode(u, std::back_inserter(got));
        REQUIRE_(got == e, "encode", "U+" << std::hex << u << " encodes to " << pbt::quote(got));
        auto r = decode_one(e.begin(), e.end());
        REQUIRE_(r.first == u && r.second == e.end(), "decode", "U+" << std::hex << u << " decodes to " << r.first << " leaving " << (e.end() - r.second));
    }
}
FACET(sequence, 1600000, 10000000, "iterating well-formed text yields exactly its code points; non-trivial: two or more multi-byte characters")
{
    std::string s;
    std::vector<uint32_t> cps;
    size_t n = c.size(30), multi = 0;
    for (size_t i = 0; i < n; ++i) {
        uint32_t u = c.chance(1, 40) ? 0 : gt::codepoint(c);
        cps.push_back(u);
        multi += u > 0x7F;
        mj::putUtf8(s, u);
    }
    c << pbt::quote(s);
    c.nontrivial(multi > 1);
    It it{ s.cbegin(), s.cend() };
    const It end{ s.cend(), s.cend() };
    size_t k = 0;
    std::string back;
    for (; it != end; c.boolean() ? (void)++it : (void)it++, ++k) {
        REQUIRE_(k < n, "too-many", "more than " << n << " code points");
        REQUIRE_(*it == cps[k], "codepoint", "character " << k << " is U+" << std::hex << *it << " expected U+" << cps[k]);
        encode(*it, std::back_inserter(back));
    }
    REQUIRE_(k == n, "too-few", k << " of " << n << " code points");
    REQUIRE_(back == s, "round-trip", "re-encoded as " << pbt::quote(back));
}
FACET(illformed, 1600000, 10000000, "any bytes: decoding steps forward inside the text, yields the code point of a well-formed sequence and the replacement character otherwise; non-trivial: ill-formed text")
{
    std::string s = gt::anyBytes(c, 20, true);
    c << pbt::quote(s);
    c.nontrivial(!mj::validUtf8(s));
    std::string::const_iterator p = s.cbegin();
    size_t steps = 0;
    while (p != s.cend()) {
        size_t i = p - s.cbegin(), w = i;
        int64_t e = mj::nextUtf8(s, w);
        auto r = decode_one(p, s.cend());
        REQUIRE_(r.second > p && r.second <= s.cend() && r.second - p <= 4, "advance", "from byte " << i << " to " << (r.second - s.cbegin()) << " of " << s.size());
        if (e >= 0) {
            REQUIRE_(r.first == (codepoint)e, "wellformed", "byte " << i << " decodes to U+" << std::hex << r.first << " expected U+" << e);
            REQUIRE_(r.second == s.cbegin() + w, "wellformed-advance", "byte " << i << " advances to " << (r.second - s.cbegin()));
        } else
            REQUIRE_(r.first == 0xFFFD, "replacement", "the ill-formed sequence at byte " << i << " decodes to U+" << std::hex << r.first);
        p = r.second;
        ++steps;
    }
    auto r = decode_one(p, s.cend());
    REQUIRE_(r.first == 0xFFFFFFFF && r.second == s.cend(), "end", "decoding at the end gives U+" << std::hex << r.first);
    It it{ s.cbegin(), s.cend() };
    const It end{ s.cend(), s.cend() };
    size_t k = 0;
    for (; it != end; ++it)
        ++k;
    REQUIRE_(k == steps, "iterator", "iteration makes " << k << " steps instead of " << steps);
}
