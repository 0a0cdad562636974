// A small property-based testing engine: choice-sequence generation (every random decision is a
// recorded draw), forked workers (a crash, sanitizer report or CPU-time runaway is an ordinary
// failure), shrinking on the choice sequence, and replay files.  A run is a function of the code
// under test and the seed.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
    struct Discard {
    };
    struct Failure {
        std::string key;
        std::string msg;
    };

    // shared with the parent so that a crash leaves the choices behind
    struct SharedCase {
        enum { MaxChoices = 1 << 16, MaxText = 1 << 16 };
        volatile uint64_t running; // 0 = idle, 1 = inside a case
        volatile uint64_t index;
        volatile uint64_t count;
        volatile uint64_t textLen;
        uint64_t choices[MaxChoices];
        char text[MaxText];
    };

    class Case
    {
        const std::vector<uint64_t>* script_ = nullptr;
        size_t scriptPos_ = 0;
        const uint8_t* bytes_ = nullptr;
        size_t bytesLen_ = 0;
        uint64_t rng_[4];
        SharedCase* shared_;
        uint64_t next_();

    public:
        bool thorough = false;
        bool isNontrivial = false;
        std::vector<uint64_t> record;
        std::string text; // what was generated, as said by the property
        std::map<std::string, uint64_t> labels;
        std::set<std::string> knownHit;

        Case(SharedCase* s, uint64_t seed);
        Case(SharedCase* s, const std::vector<uint64_t>* script);
        Case(SharedCase* s, const uint8_t* bytes, size_t len);

        // uniform in [0, max]; 0 is the simplest choice
        uint64_t draw(uint64_t max);
        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
        bool boolean() { return draw(1) != 0; }
        // true with probability num/den; false is simpler
        bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
        // size skewed to small values
        size_t size(size_t max);
        template <typename T>
        const T& pick(const std::vector<T>& v)
        {
            return v[draw(v.size() - 1)];
        }
        // index picked in proportion to the weights
        size_t weighted(const std::vector<unsigned>& w);

        // records what was generated (the case's identity, its sample and its description)
        Case& say(const std::string& s);
        template <typename T>
        Case& operator<<(const T& t)
        {
            std::ostringstream o;
            o << t;
            return say(o.str());
        }
        void label(const std::string& l) { ++labels[l]; }
        void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
        [[noreturn]] void discard() { throw Discard(); }
        [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{ key, msg }; }
        // a failure that is exactly the recorded finding `id`: counted when the known-findings
        // file lists it, a violation otherwise
        void failKnown(const std::string& id, const std::string& key, const std::string& msg);

        std::string bytes(size_t maxLen, const std::string& alphabet);
    };

    typedef void (*Body)(Case&);

    struct Facet {
        std::string name;
        std::string rule; // what a case is, and what makes it non-trivial
        uint64_t quick;
        uint64_t thorough;
        Body body;
    };
    struct KnownProbe {
        std::string id;
        bool (*stillFails)();
    };
    int registerFacet(const Facet& f);
    int registerProbe(const KnownProbe& p);
    bool isListedKnown(const std::string& id);
    int wantLeaks(); // this check requires that a case leaves no memory behind

    std::string quote(const std::string& s); // C-like, ASCII only

    int main(int argc, char** argv);
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define FACET(name, quick, thorough, rule)                                                                            \
    static void facet_##name(pbt::Case& c);                                                                           \
    static int reg_##name = pbt::registerFacet(pbt::Facet{ #name, rule, quick, thorough, facet_##name });              \
    static void facet_##name(pbt::Case& c)

#define KNOWN_PROBE(ident, id)                                                                                        \
    static bool probe_##ident();                                                                                      \
    static int regp_##ident = pbt::registerProbe(pbt::KnownProbe{ id, probe_##ident });                               \
    static bool probe_##ident()

// every 16th case is run again, until no memory stays allocated or that shows to be its habit
#define PBT_LEAKS static int pbt_leaks __attribute__((unused)) = pbt::wantLeaks();

#define REQUIRE_(cond, key, expr)                                                                                     \
    do {                                                                                                              \
        if (!(cond)) {                                                                                                \
            std::ostringstream pbt_o;                                                                                 \
            pbt_o << expr;                                                                                            \
            throw pbt::Failure{ key, pbt_o.str() };                                                                   \
        }                                                                                                             \
    } while (0)
