// P11: calls made at the same time give what they give one after another, and share no unguarded state.
// Built with ThreadSanitizer.
#include "gen_soup.h"
#include "gen_blueprint.h"
#include "gen_mson.h"
#include "capi.h"
#include <atomic>
#include <sched.h>
#include <thread>

struct Call {
    size_t doc;
    unsigned opts;
    int kind; // 0 parse and serialise, 1 parse_to, 2 check, 3 parse, serialised and freed by another thread
    int format;
    // what it gave
    int rc = 0;
    std::string out;
    drafter_result* handed = nullptr;
};
static std::string serialised(drafter_result* r, int f)
{
    drafter_serialize_options* so = drafter_init_serialize_options();
    drafter_set_format(so, f & 1 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
    if (f & 2)
        drafter_set_sourcemaps_included(so);
    char* s = drafter_serialize(r, so);
    drafter_free_serialize_options(so);
    std::string o = s ? s : "(none)";
    free(s);
    return o;
}
static void make(Call& k, const std::vector<std::string>& docs, const drafter_parse_options* po)
{
    const std::string& src = docs[k.doc];
    switch (k.kind) {
        case 1: {
            drafter_serialize_options* so = drafter_init_serialize_options();
            drafter_set_format(so, k.format & 1 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
            if (k.format & 2)
                drafter_set_sourcemaps_included(so);
            char* s = nullptr;
            k.rc = drafter_parse_blueprint_to(src.c_str(), &s, po, so);
            drafter_free_serialize_options(so);
            k.out = s ? s : "(none)";
            free(s);
            break;
        }
        case 2: {
            drafter_result* r = nullptr;
            k.rc = drafter_check_blueprint(src.c_str(), &r, po);
            k.out = r ? serialised(r, k.format) : "(none)";
            drafter_free_result(r);
            break;
        }
        default: {
            drafter_result* r = nullptr;
            k.rc = drafter_parse_blueprint(src.c_str(), &r, po);
            if (k.kind == 3)
                k.handed = r;
            else {
                k.out = serialised(r, k.format);
                drafter_free_result(r);
            }
        }
    }
}
static void finish(Call& k)
{
    if (!k.handed)
        return;
    k.out = serialised(k.handed, k.format);
    drafter_free_result(k.handed);
    k.handed = nullptr;
}
static drafter_parse_options* parseOptions(unsigned o)
{
    drafter_parse_options* po = drafter_init_parse_options();
    if (o & 1)
        drafter_set_name_required(po);
    if (o & 2)
        drafter_set_skip_gen_bodies(po);
    if (o & 4)
        drafter_set_skip_gen_body_schemas(po);
    return po;
}
static std::string mson(pbt::Case& c)
{
    gm::Gen g(c);
    g.declare(4);
    gm::Writer w(c);
    w.line("# API");
    w.blank();
    w.line("# Data Structures");
    w.blank();
    for (auto& t : g.types)
        w.named(t, 2);
    w.blank();
    w.line("# GET /a");
    w.blank();
    w.line("+ Response 200 (application/json)");
    w.blank();
    w.attributes(g.attributesSection(), 1);
    return w.o;
}
static void together(pbt::Case& c, const std::vector<std::string>& docs)
{
    for (auto& d : docs)
        c << "doc " << pbt::quote(d) << "\n";
    std::vector<std::vector<Call> > plan(c.range(2, 5));
    for (auto& p : plan) {
        p.resize(c.range(1, 3));
        for (auto& k : p) {
            k.doc = c.draw(docs.size() - 1);
            k.opts = c.draw(7);
            k.kind = c.draw(3);
            k.format = c.draw(3);
        }
    }
    // option objects are shared, as they are only read
    drafter_parse_options* po[8];
    for (unsigned i = 0; i < 8; ++i)
        po[i] = parseOptions(i);
    for (size_t t = 0; t < plan.size(); ++t) {
        c << "thread " << t << ":";
        for (auto& k : plan[t])
            c << " doc" << k.doc << "/" << k.opts << "/" << k.kind << "/" << k.format;
        c << "\n";
    }
    std::atomic<unsigned> waiting(0);
    std::vector<std::thread> threads;
    for (auto& p : plan)
        threads.emplace_back([&] {
            ++waiting;
            while (waiting < plan.size())
                sched_yield();
            for (auto& k : p)
                make(k, docs, po[k.opts]);
        });
    for (auto& t : threads)
        t.join();
    // handed over to the next thread, again at the same time
    threads.clear();
    for (size_t t = 0; t < plan.size(); ++t)
        threads.emplace_back([&, t] {
            for (auto& k : plan[(t + 1) % plan.size()])
                finish(k);
        });
    for (auto& t : threads)
        t.join();
    std::string bad;
    for (size_t t = 0; t < plan.size(); ++t)
        for (auto& k : plan[t]) {
            Call alone = k;
            make(alone, docs, po[k.opts]);
            finish(alone);
            c.label(k.kind == 0 ? "parsed" : k.kind == 1 ? "parsed to text" : k.kind == 2 ? "checked" : "handed over");
            if ((alone.rc != k.rc || alone.out != k.out) && bad.empty()) {
                std::ostringstream o;
                size_t i = 0;
                while (i < alone.out.size() && i < k.out.size() && alone.out[i] == k.out[i])
                    ++i;
                size_t f = i < 60 ? 0 : i - 60;
                o << "thread " << t << " got code " << k.rc << " and " << pbt::quote(k.out.substr(f, 160)) << ", alone it is code " << alone.rc << " and "
                  << pbt::quote(alone.out.substr(f, 160));
                bad = o.str();
            }
        }
    for (unsigned i = 0; i < 8; ++i)
        drafter_free_parse_options(po[i]);
    REQUIRE_(bad.empty(), "differs", bad);
    size_t bytes = 0;
    for (auto& d : docs)
        bytes += d.size();
    c.nontrivial(bytes > 60);
}

FACET(blueprints, 450, 40000, "two to five threads parse, check, serialise and hand over valid blueprints with model; non-trivial: over 60 bytes of documents")
{
    std::vector<std::string> docs;
    for (size_t n = c.range(1, 3); n--;) {
        if (c.boolean()) {
            gb::Gen g(c);
            gb::Blueprint b = g.blueprint();
            docs.push_back(gb::Writer(c).write(b));
        } else
            docs.push_back(mson(c));
    }
    together(c, docs);
}
FACET(anything, 900, 50000, "two to five threads parse, check, serialise and hand over blueprint vocabulary, mutated fixtures and bytes; non-trivial: over 60 bytes of documents")
{
    std::vector<std::string> docs;
    for (size_t n = c.range(1, 3); n--;)
        docs.push_back(soup::any(c, 30));
    together(c, docs);
}
