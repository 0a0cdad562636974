#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();

namespace pbt
{
    static uint64_t splitmix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    static uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ULL)
    {
        for (unsigned char ch : s)
            h = (h ^ ch) * 0x100000001b3ULL;
        return h;
    }

    std::string quote(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char ch : s) {
            char b[8];
            if (ch == '"' || ch == '\\') {
                o += '\\';
                o += (char)ch;
            } else if (ch == '\n')
                o += "\\n";
            else if (ch == '\t')
                o += "\\t";
            else if (ch == '\r')
                o += "\\r";
            else if (ch < 0x20 || ch >= 0x7f) {
                snprintf(b, sizeof b, "\\x%02x", ch);
                o += b;
            } else
                o += (char)ch;
        }
        return o + "\"";
    }

    Case::Case(SharedCase* s, uint64_t seed) : shared_(s)
    {
        for (auto& r : rng_)
            r = splitmix(seed);
        s->count = 0;
        s->textLen = 0;
    }
    Case::Case(SharedCase* s, const std::vector<uint64_t>* script) : script_(script), shared_(s)
    {
        s->count = 0;
        s->textLen = 0;
    }
    Case::Case(SharedCase* s, const uint8_t* b, size_t n) : bytes_(b), bytesLen_(n), shared_(s)
    {
        s->count = 0;
        s->textLen = 0;
    }
    uint64_t Case::next_()
    {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t* s = rng_;
        const uint64_t result = rotl(s[1] * 5, 7) * 9;
        const uint64_t t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return result;
    }
    uint64_t Case::draw(uint64_t max)
    {
        uint64_t v;
        if (script_) {
            v = scriptPos_ < script_->size() ? (*script_)[scriptPos_++] : 0;
            if (v > max)
                v = max == UINT64_MAX ? v : v % (max + 1);
        } else if (bytesLen_ || bytes_) {
            int need = max == 0 ? 0 : max < 0x100 ? 1 : max < 0x10000 ? 2 : max < 0x100000000ULL ? 4 : 8;
            v = 0;
            for (int i = 0; i < need; ++i) {
                v = v << 8;
                if (bytesLen_) {
                    v |= *bytes_++;
                    --bytesLen_;
                }
            }
            if (v > max)
                v = v % (max + 1);
        } else if (max == 0)
            v = 0;
        else if (max == UINT64_MAX)
            v = next_();
        else
            v = (uint64_t)(((unsigned __int128)next_() * (max + 1)) >> 64);
        record.push_back(v);
        if (shared_->count < SharedCase::MaxChoices) {
            shared_->choices[shared_->count] = v;
            shared_->count = shared_->count + 1;
        } else
            throw Discard();
        return v;
    }
    size_t Case::size(size_t max)
    {
        // mostly small, sometimes up to max
        static const size_t caps[] = { 3, 3, 6, 6, 12, 40, 1000000 };
        size_t cap = caps[draw(6)];
        return (size_t)draw(std::min(cap, max));
    }
    size_t Case::weighted(const std::vector<unsigned>& w)
    {
        uint64_t total = 0;
        for (unsigned x : w)
            total += x;
        uint64_t v = draw(total - 1);
        for (size_t i = 0; i < w.size(); ++i) {
            if (v < w[i])
                return i;
            v -= w[i];
        }
        return 0;
    }
    Case& Case::say(const std::string& s)
    {
        text += s;
        size_t n = shared_->textLen;
        size_t k = std::min(s.size(), (size_t)SharedCase::MaxText - n);
        memcpy(shared_->text + n, s.data(), k);
        shared_->textLen = n + k;
        return *this;
    }
    std::string Case::bytes(size_t maxLen, const std::string& alphabet)
    {
        std::string o;
        size_t n = size(maxLen);
        for (size_t i = 0; i < n; ++i)
            o += alphabet[draw(alphabet.size() - 1)];
        return o;
    }

    namespace
    {
        std::vector<Facet>& facets()
        {
            static std::vector<Facet> f;
            return f;
        }
        std::vector<KnownProbe>& probes()
        {
            static std::vector<KnownProbe> p;
            return p;
        }
        std::map<std::string, std::string> known; // id -> text
        std::string property;
        bool thorough = false;

        void readKnown(const std::string& file)
        {
            std::ifstream k(file);
            std::string line;
            while (std::getline(k, line)) {
                // known: property=<id> id=<kf-id> <text>
                std::string tag = "known: property=" + property + " id=";
                if (line.compare(0, tag.size(), tag) == 0) {
                    size_t e = line.find(' ', tag.size());
                    known[line.substr(tag.size(), e - tag.size())] = e == std::string::npos ? "" : line.substr(e + 1);
                }
            }
        }

        struct Global {
            enum { HashSlots = 1 << 22, Samples = 6, SampleLen = 1600 };
            std::atomic<uint64_t> evaluations, nontrivial, distinct, discarded, knownHits, stop;
            std::atomic<uint64_t> minFail; // lowest failing case index + 1
            std::atomic<uint32_t> sampleCount;
            uint32_t sampleLen[Samples];
            char samples[Samples][SampleLen];
            std::atomic<uint64_t> hashes[HashSlots];
        };
        Global* G;

        void* shmem(size_t n)
        {
            void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) {
                perror("mmap");
                exit(3);
            }
            return p;
        }
        bool insertHash(uint64_t h)
        {
            if (!h)
                h = 1;
            uint64_t i = h;
            for (int k = 0; k < 4096; ++k, ++i) {
                auto& slot = G->hashes[i & (Global::HashSlots - 1)];
                uint64_t e = 0;
                if (slot.load() == h)
                    return false;
                if (slot.compare_exchange_strong(e, h))
                    return true;
                if (e == h)
                    return false;
            }
            return false;
        }

        enum Outcome { Ok, Discarded, Failed };

        Outcome runBody(const Facet& f, Case& c, Failure& out)
        {
            try {
                f.body(c);
                return Ok;
            } catch (const Discard&) {
                return Discarded;
            } catch (const Failure& x) {
                out = x;
                return Failed;
            } catch (const std::exception& e) {
                out = Failure{ "uncaught-exception", std::string("uncaught exception: ") + e.what() };
                return Failed;
            } catch (...) {
                out = Failure{ "uncaught-exception", "uncaught exception of unknown type" };
                return Failed;
            }
        }

        bool lookForLeaks = false;

        // A case which keeps memory each time it is run loses it: what is kept only
        // the first time (tables filled on demand) is no leak.
        bool loses(const Facet& f, SharedCase* sc, Failure& x)
        {
            if (!lookForLeaks || !__sanitizer_get_current_allocated_bytes)
                return false;
            const std::vector<uint64_t> script(sc->choices, sc->choices + sc->count);
            long kept = 0;
            for (int round = 0; round < 4; ++round) {
                const size_t before = __sanitizer_get_current_allocated_bytes();
                {
                    Failure ignored;
                    Case c(sc, &script);
                    c.thorough = thorough;
                    runBody(f, c, ignored);
                }
                kept = long(__sanitizer_get_current_allocated_bytes()) - long(before);
                if (kept <= 0)
                    return false;
            }
            x = Failure{ "leak", std::to_string(kept) + " bytes stay allocated each time this is run" };
            return true;
        }

        void limitCpu(int seconds)
        {
            // CPU time of this process only: a case takes milliseconds
            struct itimerval t;
            memset(&t, 0, sizeof t);
            t.it_value.tv_sec = seconds;
            setitimer(ITIMER_PROF, &t, nullptr);
        }
        const int CaseCpuSeconds = 40;

        std::string tmpdir;

        std::string slurp(const std::string& p)
        {
            std::ifstream i(p, std::ios::binary);
            std::ostringstream o;
            o << i.rdbuf();
            return o.str();
        }
        void redirectStderr(const std::string& p)
        {
            int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            if (fd >= 0) {
                dup2(fd, 2);
                close(fd);
            }
        }
        std::string crashKey(int status, const std::string& err)
        {
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF)
                return "does-not-terminate";
            size_t p = err.find("SUMMARY: ");
            if (p != std::string::npos) {
                size_t q = err.find('\n', p);
                std::string s = err.substr(p + 9, q - p - 9);
                // keep tool and kind only
                std::istringstream is(s);
                std::string a, b;
                is >> a >> b;
                return "memory-error:" + b;
            }
            if (WIFSIGNALED(status))
                return "signal-" + std::to_string(WTERMSIG(status));
            return "abnormal-exit";
        }
        std::string crashText(const std::string& err)
        {
            size_t p = err.find("runtime error:");
            if (p == std::string::npos)
                p = err.find("ERROR: ");
            if (p == std::string::npos)
                p = err.find("terminate called");
            if (p == std::string::npos)
                p = 0;
            else {
                size_t l = err.rfind('\n', p);
                p = l == std::string::npos ? 0 : l + 1;
            }
            return err.substr(p, 2500);
        }

        struct Trial {
            bool failed = false;
            std::vector<uint64_t> used;
            Failure failure;
            std::string text;
            std::vector<uint64_t> history;
        };

        // one execution in a fresh process
        Trial tryChoices(const Facet& f, const std::vector<uint64_t>* script, uint64_t seed, SharedCase* sc,
            int cpuSeconds = CaseCpuSeconds)
        {
            Trial t;
            sc->count = 0;
            sc->textLen = 0;
            std::string errFile = tmpdir + "/trial.err", resFile = tmpdir + "/trial.res";
            unlink(resFile.c_str());
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                redirectStderr(errFile);
                limitCpu(cpuSeconds);
                Failure x;
                Outcome o;
                {
                    Case c = script ? Case(sc, script) : Case(sc, seed);
                    c.thorough = thorough;
                    o = runBody(f, c, x);
                }
                if (o == Ok && loses(f, sc, x))
                    o = Failed;
                if (o == Failed) {
                    std::ofstream r(resFile, std::ios::binary);
                    r << x.key << '\n' << x.msg;
                }
                _exit(o == Failed ? 77 : 0);
            }
            int status = 0;
            waitpid(pid, &status, 0);
            t.used.assign(sc->choices, sc->choices + sc->count);
            t.text.assign(sc->text, sc->textLen);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                return t;
            t.failed = true;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
                std::string r = slurp(resFile);
                size_t p = r.find('\n');
                t.failure.key = r.substr(0, p);
                t.failure.msg = p == std::string::npos ? "" : r.substr(p + 1);
            } else {
                std::string err = slurp(errFile);
                t.failure.key = crashKey(status, err);
                t.failure.msg = crashText(err);
            }
            return t;
        }

        // cases run one after another in one process: state that leaks between them
        uint64_t historySeed(const Facet& f, uint64_t seed, uint64_t i);
        Trial runIn(const Facet& f, SharedCase* sc, const std::function<std::pair<Outcome, Failure>()>& go)
        {
            Trial t;
            std::string errFile = tmpdir + "/trial.err", resFile = tmpdir + "/trial.res";
            unlink(resFile.c_str());
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                redirectStderr(errFile);
                limitCpu(CaseCpuSeconds * 4);
                auto r = go();
                if (r.first == Failed) {
                    std::ofstream o(resFile, std::ios::binary);
                    o << r.second.key << '\n' << r.second.msg;
                }
                _exit(r.first == Failed ? 77 : 0);
            }
            int status = 0;
            waitpid(pid, &status, 0);
            t.used.assign(sc->choices, sc->choices + sc->count);
            t.text.assign(sc->text, sc->textLen);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                return t;
            t.failed = true;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
                std::string r = slurp(resFile);
                size_t p = r.find('\n');
                t.failure.key = r.substr(0, p);
                t.failure.msg = p == std::string::npos ? "" : r.substr(p + 1);
            } else {
                std::string err = slurp(errFile);
                t.failure.key = crashKey(status, err);
                t.failure.msg = crashText(err);
            }
            return t;
        }
        Trial tryBytes(const Facet& f, const std::vector<uint8_t>& raw, SharedCase* sc)
        {
            return runIn(f, sc, [&]() {
                Failure x;
                Case c(sc, raw.data(), raw.size());
                c.thorough = thorough;
                Outcome o = runBody(f, c, x);
                return std::make_pair(o, x);
            });
        }
        std::vector<uint64_t> historyOf(uint64_t seed, uint64_t from, uint64_t to) { return { seed, from, to }; }
        uint64_t histStride = 8;
        Trial tryHistory(const Facet& f, const std::vector<uint64_t>& h, SharedCase* sc)
        {
            return runIn(f, sc, [&]() {
                Failure x;
                Outcome o = Ok;
                for (uint64_t i = h[1]; i <= h[2] && o != Failed; i += histStride) {
                    Case c(sc, historySeed(f, h[0], i));
                    c.thorough = thorough;
                    o = runBody(f, c, x);
                }
                return std::make_pair(o, x);
            });
        }

        bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
        {
            if (a.size() != b.size())
                return a.size() < b.size();
            return a < b;
        }

        Trial shrink(const Facet& f, Trial best, SharedCase* sc, int maxTrials, double maxSeconds)
        {
            auto t0 = std::chrono::steady_clock::now();
            int trials = 0;
            const std::string key = best.failure.key;
            auto over = [&]() {
                return trials >= maxTrials
                    || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSeconds;
            };
            auto attempt = [&](const std::vector<uint64_t>& cand) {
                if (over() || !simpler(cand, best.used))
                    return false;
                ++trials;
                Trial t = tryChoices(f, &cand, 0, sc, 10);
                if (t.failed && t.failure.key == key && simpler(t.used, best.used)) {
                    best = t;
                    return true;
                }
                return false;
            };
            bool progress = true;
            while (progress && !over()) {
                progress = false;
                for (size_t chunk = std::max<size_t>(best.used.size() / 2, 1); chunk >= 1 && !over(); chunk /= 2) {
                    for (size_t i = 0; i < best.used.size() && !over();) {
                        auto cand = best.used;
                        size_t n = std::min(chunk, cand.size() - i);
                        cand.erase(cand.begin() + i, cand.begin() + i + n);
                        if (attempt(cand))
                            progress = true;
                        else
                            i += chunk;
                    }
                    if (chunk == 1)
                        break;
                }
                for (size_t i = 0; i < best.used.size() && !over(); ++i) {
                    if (!best.used[i])
                        continue;
                    auto cand = best.used;
                    cand[i] = 0;
                    if (attempt(cand)) {
                        progress = true;
                        continue;
                    }
                    uint64_t lo = 0, hi = i < best.used.size() ? best.used[i] : 0; // lo passes, hi fails
                    while (hi > lo + 1 && !over() && i < best.used.size()) {
                        uint64_t mid = lo + (hi - lo) / 2;
                        cand = best.used;
                        cand[i] = mid;
                        if (attempt(cand)) {
                            progress = true;
                            hi = mid;
                        } else
                            lo = mid;
                    }
                    // delete together with lowering (list lengths)
                    if (i < best.used.size() && best.used[i]) {
                        for (size_t d = 1; d <= 4 && i + d < best.used.size() && best.used[i]; ++d) {
                            cand = best.used;
                            cand[i]--;
                            cand.erase(cand.begin() + i + 1, cand.begin() + i + 1 + d);
                            if (attempt(cand)) {
                                progress = true;
                                break;
                            }
                        }
                    }
                }
            }
            return best;
        }

        void jsonStr(std::ostream& o, const std::string& s)
        {
            o << '"';
            for (unsigned char ch : s) {
                char b[8];
                if (ch == '"' || ch == '\\')
                    o << '\\' << ch;
                else if (ch == '\n')
                    o << "\\n";
                else if (ch < 0x20 || ch >= 0x7f) {
                    snprintf(b, sizeof b, "\\u%04x", ch);
                    o << b;
                } else
                    o << ch;
            }
            o << '"';
        }

        std::string writeReplay(const std::string& dir, const Facet& f, const Trial& t, uint64_t seed)
        {
            mkdir(dir.c_str(), 0755);
            std::ostringstream body;
            body << "property " << property << "\nfacet " << f.name << "\ntier " << (thorough ? "thorough" : "quick")
                 << "\nseed " << seed << (t.history.empty() ? "\nchoices" : "\nhistory");
            for (auto v : t.history.empty() ? t.used : t.history)
                body << ' ' << v;
            body << "\n--- failure " << t.failure.key << "\n"
                 << t.failure.msg << "\n--- generated\n"
                 << t.text << "\n";
            char h[32];
            snprintf(h, sizeof h, "%08x", (unsigned)fnv(body.str()));
            std::string path = dir + "/" + property + "-" + f.name + "-" + h + ".replay";
            std::ofstream o(path, std::ios::binary);
            o << body.str();
            return path;
        }

        struct FacetResult {
            uint64_t evaluations = 0, nontrivial = 0, distinct = 0, discarded = 0, knownHits = 0, planned = 0;
            bool timeCapped = false;
            std::map<std::string, uint64_t> labels;
            std::vector<std::string> samples;
            double seconds = 0;
        };
    }

    namespace
    {
        uint64_t historySeed(const Facet& f, uint64_t seed, uint64_t i)
        {
            const uint64_t base = fnv(property + "/" + f.name) ^ (seed * 0x9e3779b97f4a7c15ULL);
            uint64_t s = base + i * 0xd1342543de82ef95ULL;
            return splitmix(s);
        }
    }

    int registerFacet(const Facet& f)
    {
        facets().push_back(f);
        return 0;
    }
    int registerProbe(const KnownProbe& p)
    {
        probes().push_back(p);
        return 0;
    }
    int wantLeaks()
    {
        lookForLeaks = true;
        return 0;
    }
    bool isListedKnown(const std::string& id) { return known.count(id) != 0; }

    void Case::failKnown(const std::string& id, const std::string& key, const std::string& msg)
    {
        if (!isListedKnown(id))
            throw Failure{ key, msg };
        knownHit.insert(id);
    }

    int main(int argc, char** argv)
    {
        uint64_t seed = 1;
        std::string replay, replayDir = "replays", knownFile, evidence, only;
        int workers = 8;
        double scale = 1.0, capSeconds = 60, budget = 0;
        std::string bytesFile;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--property")
                property = next();
            else if (a == "--seed")
                seed = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier")
                thorough = next() == "thorough";
            else if (a == "--replay")
                replay = next();
            else if (a == "--replay-dir")
                replayDir = next();
            else if (a == "--known")
                knownFile = next();
            else if (a == "--out")
                evidence = next();
            else if (a == "--facet")
                only = next();
            else if (a == "--workers")
                workers = atoi(next().c_str());
            else if (a == "--scale")
                scale = atof(next().c_str());
            else if (a == "--cap")
                capSeconds = atof(next().c_str());
            else if (a == "--budget")
                budget = atof(next().c_str());
            else if (a == "--list") {
                for (auto& f : facets())
                    std::cout << f.name << "\n";
                return 0;
            } else {
                std::cerr << "unknown argument " << a << "\n";
                return 3;
            }
        }
        readKnown(knownFile);
        char tmpl[] = "/tmp/pbt.XXXXXX";
        tmpdir = mkdtemp(tmpl);
        struct Cleanup {
            pid_t self = getpid();
            ~Cleanup()
            {
                if (getpid() == self) {
                    std::string cmd = "rm -rf '" + tmpdir + "'";
                    if (tmpdir.compare(0, 9, "/tmp/pbt.") == 0 && system(cmd.c_str())) {
                    }
                }
            }
        } cleanup;

        SharedCase* mine = (SharedCase*)shmem(sizeof(SharedCase));

        if (!replay.empty()) {
            std::ifstream in(replay);
            std::string line, facet;
            std::vector<uint64_t> choices;
            std::vector<uint8_t> raw;
            std::vector<uint64_t> hist;
            while (std::getline(in, line)) {
                std::istringstream is(line);
                std::string w;
                is >> w;
                if (w == "facet")
                    is >> facet;
                else if (w == "tier") {
                    is >> w;
                    thorough = w == "thorough";
                } else if (w == "choices") {
                    uint64_t v;
                    while (is >> v)
                        choices.push_back(v);
                    break;
                } else if (w == "history") {
                    uint64_t v;
                    while (is >> v)
                        hist.push_back(v);
                    break;
                } else if (w == "bytes") {
                    std::string h;
                    is >> h;
                    for (size_t i = 0; i + 1 < h.size(); i += 2)
                        raw.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
                    break;
                }
            }
            for (auto& f : facets())
                if (f.name == facet) {
                    Trial t = !raw.empty() ? tryBytes(f, raw, mine)
                                           : hist.size() == 3 ? tryHistory(f, hist, mine)
                                                              : tryChoices(f, &choices, 0, mine);
                    std::cout << t.text << "\n";
                    if (t.failed) {
                        std::cout << "FAILS [" << t.failure.key << "] " << t.failure.msg << "\n";
                        return 1;
                    }
                    std::cout << "passes\n";
                    return 0;
                }
            std::cerr << "no facet " << facet << "\n";
            return 3;
        }

        G = (Global*)shmem(sizeof(Global));
        std::vector<SharedCase*> sc;
        for (int w = 0; w < workers; ++w)
            sc.push_back((SharedCase*)shmem(sizeof(SharedCase)));

        int violations = 0;
        std::vector<std::pair<std::string, FacetResult> > results;

        for (auto& kv : known) {
            bool fails = false, have = false;
            for (auto& p : probes())
                if (p.id == kv.first) {
                    have = true;
                    fflush(nullptr);
                    pid_t pid = fork();
                    if (pid == 0) {
                        redirectStderr(tmpdir + "/probe.err");
                        limitCpu(CaseCpuSeconds);
                        bool b = true;
                        try {
                            b = p.stillFails();
                        } catch (...) {
                        }
                        _exit(b ? 77 : 0);
                    }
                    int st = 0;
                    waitpid(pid, &st, 0);
                    fails = fails || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                }
            if (!have || fails)
                std::cout << "KNOWN-FINDING: property=" << property << " " << kv.first << " " << kv.second << std::endl;
        }

        const auto began = std::chrono::steady_clock::now();
        size_t left = 0;
        for (auto& f : facets())
            left += only.empty() || f.name == only;
        for (auto& f : facets()) {
            if (!only.empty() && f.name != only)
                continue;
            if (budget > 0) // what is left of it is shared by the facets to come
                capSeconds = std::max(5.0,
                    (budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count()) / left);
            --left;
            memset((void*)G, 0, sizeof(uint64_t) * 8 + sizeof(uint32_t));
            madvise((void*)G, sizeof(Global), MADV_REMOVE);
            const uint64_t total = std::max<uint64_t>(1, (uint64_t)((thorough ? f.thorough : f.quick) * scale));
            FacetResult R;
            R.planned = total;
            auto t0 = std::chrono::steady_clock::now();
            auto caseSeed = [&](uint64_t i) { return historySeed(f, seed, i); };
            std::vector<pid_t> pids(workers, 0);
            std::vector<uint64_t> startAt(workers);
            struct Fail {
                uint64_t index;
                bool byCrash;
            };
            std::vector<Fail> failures;
            auto spawn = [&](int w) {
                fflush(nullptr);
                pid_t pid = fork();
                if (pid) {
                    pids[w] = pid;
                    return;
                }
                redirectStderr(tmpdir + "/w" + std::to_string(w) + ".err");
                std::map<std::string, uint64_t> labels;
                uint64_t sinceTimer = 0;
                limitCpu(CaseCpuSeconds);
                int rc = 0;
                for (uint64_t i = startAt[w]; i < total; i += workers) {
                    if (G->stop.load())
                        break;
                    if ((++sinceTimer & 15) == 0) {
                        limitCpu(CaseCpuSeconds);
                        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > capSeconds) {
                            G->stop = 2;
                            break;
                        }
                    }
                    sc[w]->index = i;
                    sc[w]->running = 1;
                    Failure x;
                    Outcome o;
                    Case c(sc[w], caseSeed(i));
                    c.thorough = thorough;
                    o = runBody(f, c, x);
                    if (o == Ok && i / workers % 16 == 5 && loses(f, sc[w], x))
                        o = Failed;
                    if (o == Failed) {
                        sc[w]->running = 2;
                        rc = 77;
                        break;
                    }
                    sc[w]->running = 0;
                    G->evaluations++;
                    if (o == Discarded) {
                        G->discarded++;
                        continue;
                    }
                    for (auto& l : c.labels)
                        labels[l.first]++;
                    for (auto& k : c.knownHit)
                        labels["known-finding:" + k]++;
                    if (c.isNontrivial) {
                        G->nontrivial++;
                        if (insertHash(fnv(c.text))) {
                            G->distinct++;
                            if (i % 7 == 3 && !c.text.empty()) {
                                uint32_t k = G->sampleCount++;
                                if (k < Global::Samples) {
                                    uint32_t n = std::min<size_t>(c.text.size(), Global::SampleLen);
                                    memcpy(G->samples[k], c.text.data(), n);
                                    G->sampleLen[k] = n;
                                }
                            }
                        }
                    }
                }
                {
                    std::ofstream lf(tmpdir + "/labels", std::ios::app);
                    std::ostringstream o;
                    for (auto& l : labels)
                        o << l.second << ' ' << l.first << '\n';
                    lf << o.str();
                    lf.flush();
                }
                _exit(rc);
            };
            unlink((tmpdir + "/labels").c_str());
            for (int w = 0; w < workers; ++w) {
                startAt[w] = w;
                sc[w]->running = 0;
                spawn(w);
            }
            int live = workers;
            while (live) {
                int status;
                pid_t pid = wait(&status);
                if (pid < 0)
                    break;
                int w = -1;
                for (int k = 0; k < workers; ++k)
                    if (pids[k] == pid)
                        w = k;
                if (w < 0)
                    continue;
                --live;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                    continue;
                failures.push_back(Fail{ sc[w]->index, WIFSIGNALED(status) != 0 });
                G->stop = 1;
            }
            R.seconds = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            R.evaluations = G->evaluations + failures.size();
            R.nontrivial = G->nontrivial;
            R.distinct = G->distinct;
            R.discarded = G->discarded;
            R.timeCapped = G->stop.load() == 2;
            for (uint32_t k = 0; k < std::min<uint32_t>(G->sampleCount, Global::Samples); ++k)
                R.samples.push_back(std::string(G->samples[k], G->sampleLen[k]));
            {
                std::ifstream lf(tmpdir + "/labels");
                std::string line;
                while (std::getline(lf, line)) {
                    size_t p = line.find(' ');
                    R.labels[line.substr(p + 1)] += strtoull(line.c_str(), nullptr, 10);
                }
            }
            // report the lowest failing case per distinct key
            std::sort(failures.begin(), failures.end(), [](const Fail& a, const Fail& b) { return a.index < b.index; });
            std::set<std::string> seen;
            for (auto& x : failures) {
                Trial t = tryChoices(f, nullptr, caseSeed(x.index), mine);
                if (!t.failed) {
                    // only after other cases in the same process?
                    Trial h;
                    histStride = workers;
                    uint64_t first = x.index;
                    for (uint64_t back = 1;; back *= 4) {
                        first = x.index > back * workers ? x.index - back * workers : x.index % workers;
                        h = tryHistory(f, historyOf(seed, first, x.index), mine);
                        if (h.failed || first == x.index % workers)
                            break;
                    }
                    int again = 0;
                    for (int k = 0; h.failed && k < 3; ++k)
                        again += tryHistory(f, historyOf(seed, first, x.index), mine).failed;
                    if (again != 3) {
                        std::cerr << "note: case " << x.index << " of " << f.name
                                  << " failed in a worker but does not replay: not reported\n";
                        continue;
                    }
                    if (!seen.insert(h.failure.key).second)
                        continue;
                    h.history = historyOf(seed, first, x.index);
                    std::string path = writeReplay(replayDir, f, h, seed);
                    ++violations;
                    std::cout << "VIOLATION property=" << property << " replay=" << path << "\n  facet " << f.name
                              << " [" << h.failure.key << "], only after earlier cases in the same process\n  "
                              << h.failure.msg << "\n  generated: " << h.text << std::endl;
                    continue;
                }
                if (!seen.insert(t.failure.key).second)
                    continue;
                Trial s = shrink(f, t, mine, 3000, thorough ? 60 : 25);
                int again = 0;
                for (int k = 0; k < 3; ++k) {
                    Trial r = tryChoices(f, &s.used, 0, mine);
                    if (r.failed)
                        ++again;
                }
                if (again != 3) {
                    std::cerr << "note: failure of " << f.name << " did not replay 3/3: not reported\n";
                    continue;
                }
                std::string path = writeReplay(replayDir, f, s, seed);
                ++violations;
                std::cout << "VIOLATION property=" << property << " replay=" << path << "\n";
                std::cout << "  facet " << f.name << " [" << s.failure.key << "]\n  " << s.failure.msg << "\n  generated: "
                          << s.text << std::endl;
            }
            std::cerr << property << "/" << f.name << ": " << R.evaluations << " cases, " << R.nontrivial
                      << " non-trivial (" << R.distinct << " distinct), " << R.discarded << " discarded, " << R.seconds
                      << " s" << (R.timeCapped ? " (time cap)" : "") << "\n";
            for (auto& l : R.labels)
                std::cerr << "      " << l.first << ": " << l.second << "\n";
            results.push_back(std::make_pair(f.name, R));
        }
        if (!evidence.empty()) {
            std::ofstream o(evidence);
            uint64_t ev = 0, nt = 0;
            for (auto& r : results) {
                ev += r.second.evaluations;
                nt += r.second.distinct;
            }
            o << "{\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << nt << ",\"violations\":" << violations
              << ",\"facets\":[";
            bool first = true;
            for (auto& r : results) {
                if (!first)
                    o << ",";
                first = false;
                o << "{\"name\":";
                jsonStr(o, r.first);
                o << ",\"rule\":";
                for (auto& f : facets())
                    if (f.name == r.first)
                        jsonStr(o, f.rule);
                o << ",\"planned\":" << r.second.planned << ",\"evaluations\":" << r.second.evaluations
                  << ",\"nontrivial\":" << r.second.nontrivial << ",\"distinct_nontrivial\":" << r.second.distinct
                  << ",\"discarded\":" << r.second.discarded << ",\"seconds\":" << r.second.seconds
                  << ",\"time_capped\":" << (r.second.timeCapped ? "true" : "false") << ",\"labels\":{";
                bool f2 = true;
                for (auto& l : r.second.labels) {
                    if (!f2)
                        o << ",";
                    f2 = false;
                    jsonStr(o, l.first);
                    o << ":" << l.second;
                }
                o << "},\"samples\":[";
                f2 = true;
                for (auto& s : r.second.samples) {
                    if (!f2)
                        o << ",";
                    f2 = false;
                    jsonStr(o, s);
                }
                o << "]}";
            }
            o << "]}\n";
        }
        return violations ? 1 : 0;
    }
}

#ifdef PBT_LIBFUZZER
// coverage-guided search over the same choice sequences: byte 0 picks the facet
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    using namespace pbt;
    static SharedCase* sc = (SharedCase*)shmem(sizeof(SharedCase));
    static const char* only = getenv("PBT_FACET");
    if (size < 2)
        return 0;
    const Facet* f = &facets()[data[0] % facets().size()];
    if (only)
        for (auto& k : facets())
            if (k.name == only)
                f = &k;
    static bool init = false;
    if (!init) {
        init = true;
        property = getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "";
        thorough = true;
        if (getenv("PBT_KNOWN"))
            readKnown(getenv("PBT_KNOWN"));
    }
    Case c(sc, data + 1, size - 1);
    c.thorough = true;
    Failure x;
    if (runBody(*f, c, x) == Failed) {
        Trial t;
        t.used = c.record;
        t.failure = x;
        t.text = c.text;
        const char* dir = getenv("PBT_REPLAYS");
        std::string p = writeReplay(dir ? dir : ".", *f, t, 0);
        fprintf(stderr, "PBT-FAIL %s [%s] %s\n", p.c_str(), x.key.c_str(), x.msg.c_str());
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv)
{
    int rc = pbt::main(argc, argv);
    fflush(nullptr);
    _exit(rc);
}
#endif
