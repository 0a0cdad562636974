// P10: the command line tool gives what the library gives.
#include "gen_documents.h"
#include "gen_soup.h"
#include "capi.h"
#include "result.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using mj::JV;

int drafter_cli_main(int argc, const char* argv[]); // main of /repo's main.cc

struct Dir { // a scratch directory for the files of one case
    std::string path;
    std::vector<std::string> files;
    Dir()
    {
        char t[] = "/tmp/p10-XXXXXX";
        path = mkdtemp(t);
    }
    ~Dir()
    {
        for (auto& f : files)
            unlink(f.c_str());
        rmdir(path.c_str());
    }
    std::string file(const std::string& n)
    {
        files.push_back(path + "/" + n);
        return files.back();
    }
};
static bool exists(const std::string& f)
{
    struct stat s;
    return stat(f.c_str(), &s) == 0;
}
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}
struct Ran {
    int rc;
    std::string out, err;
};
static Ran run(const std::vector<std::string>& args, const std::string& input)
{
    std::istringstream in(input);
    std::ostringstream out, err;
    auto *i = std::cin.rdbuf(in.rdbuf()), *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
    std::vector<const char*> v{ "drafter" };
    for (auto& a : args)
        v.push_back(a.c_str());
    Ran r;
    r.rc = drafter_cli_main(v.size(), v.data());
    std::cin.rdbuf(i);
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    r.out = out.str();
    r.err = err.str();
    return r;
}
static std::string num(const JV* e) { return e && res::content(*e) ? res::content(*e)->s : ""; }

// the report of the annotations of a result
static std::string report(const JV& whole, int rc, bool lines)
{
    std::string o = "\n";
    if (!rc)
        o += "OK.\n";
    for (auto* a : res::annotations(whole)) {
        o += res::hasClass(*a, "error") ? "error: " : "warning: ";
        o += "(" + num(res::attribute(*a, "code")) + ")  " + res::text(a);
        if (const JV* sm = res::attribute(*a, "sourceMap"))
            if (res::content(*sm)->a.size() == 1) {
                bool first = true;
                for (auto& r : res::content(res::content(*sm)->a[0])->a) {
                    const JV &f = res::content(r)->a[0], &t = res::content(r)->a[1];
                    if (lines)
                        o += "; line " + num(res::attribute(f, "line")) + ", column " + num(res::attribute(f, "column")) + " - line " + num(res::attribute(t, "line")) + ", column " + num(res::attribute(t, "column"));
                    else
                        o += (first ? " :" : ";") + num(&f) + ":" + num(&t);
                    first = false;
                }
            }
        o += "\n";
    }
    return o;
}
static std::string document(pbt::Case& c)
{
    if (c.chance(1, 4)) {
        std::string s = docs::any(c);
        return s.substr(0, s.find('\0'));
    }
    std::string s = soup::any(c, 24);
    return s.substr(0, s.find('\0'));
}

FACET(runs, 4500, 200000, "a document, given on standard input or in a file, and a set of options, in any order, in their long or short forms; the output to a file or to standard output; non-trivial: an annotation is reported and the document is over 40 bytes")
{
    std::string src = document(c);
    Dir d;
    bool json = c.boolean(), maps = c.boolean(), lines = c.boolean(), validate = c.chance(1, 4), fromFile = c.boolean(), toFile = c.boolean();
    std::vector<std::vector<std::string>> opts;
    auto flag = [&](const char* s, const char* l) { opts.push_back({ c.boolean() ? s : l }); };
    auto valued = [&](const char* s, const char* l, const std::string& v) {
        if (c.boolean())
            opts.push_back({ s, v });
        else
            opts.push_back({ std::string(l) + "=" + v });
    };
    if (json || c.boolean())
        valued("-f", "--format", json ? "json" : "yaml");
    if (maps)
        flag("-s", "--sourcemap");
    if (lines)
        flag("-u", "--use-line-num");
    if (validate)
        flag("-l", "--validate");
    std::string in = d.file("in.apib"), out = d.file("out");
    bool old = c.chance(1, 3); // something is there already
    if (old)
        std::ofstream(out) << "old content, longer than nothing";
    if (toFile)
        valued("-o", "--output", out);
    if (fromFile) {
        std::ofstream(in, std::ios::binary) << src;
        opts.push_back({ in });
    }
    for (size_t i = opts.size(); i > 1; --i)
        std::swap(opts[i - 1], opts[c.draw(i - 1)]);
    std::vector<std::string> args;
    for (auto& o : opts)
        args.insert(args.end(), o.begin(), o.end());
    for (auto& a : args)
        c << a << " ";
    c << "\n" << pbt::quote(src);
    c.label(validate ? "validate" : json ? "json" : "yaml");

    Ran r = run(args, fromFile ? "something else" : src);
    capi::Parse p(src, 0);
    std::string want, text = p.json(true);
    p.serialize(json, maps, want);
    JV whole;
    mj::JsonParser pj(text, false);
    REQUIRE_(pj.parse(whole), "json", "the result is not JSON: " << pj.err);
    c.nontrivial(src.size() > 40 && !res::annotations(whole).empty());
    REQUIRE_(r.rc == p.rc, "code", "the tool returns " << r.rc << ", the library " << p.rc);
    std::string err = report(whole, p.rc, lines);
    if (validate && toFile) {
        size_t nl = r.err.find('\n');
        REQUIRE_(r.err.compare(0, 5, "WARN:") == 0 && nl != std::string::npos, "validate-warning", "no warning that the output file is not written: " << pbt::quote(r.err.substr(0, 200)));
        r.err.erase(0, nl + 1);
    }
    if (r.err != err) {
        size_t k = 0;
        while (k < err.size() && k < r.err.size() && err[k] == r.err[k])
            ++k;
        size_t f = k < 80 ? 0 : k - 80;
        c.fail("report", "the report differs at byte " + std::to_string(k) + ": " + pbt::quote(r.err.substr(f, 300)) + " instead of " + pbt::quote(err.substr(f, 300)));
    }
    if (validate) {
        REQUIRE_(r.out.empty(), "validate-output", "validating writes " << pbt::quote(r.out.substr(0, 200)));
        if (old)
            REQUIRE_(slurp(out) == "old content, longer than nothing", "validate-file", "validating changes the output file");
        else
            REQUIRE_(!exists(out), "validate-file", "validating creates the output file");
        return;
    }
    std::string got = toFile ? slurp(out) : r.out;
    if (got != want + "\n") {
        size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k])
            ++k;
        size_t f = k < 80 ? 0 : k - 80;
        c.fail("output", "the output differs at byte " + std::to_string(k) + ": " + pbt::quote(got.substr(f, 300)) + " instead of " + pbt::quote(want.substr(f, 300)));
    }
    if (toFile)
        REQUIRE_(r.out.empty(), "output-twice", "there is output beside the output file: " << pbt::quote(r.out.substr(0, 200)));
    else if (old)
        REQUIRE_(slurp(out) == "old content, longer than nothing", "other-file", "a file not named is changed");
    if (fromFile)
        REQUIRE_(slurp(in) == src, "input-file", "the input file is changed");
}

// in a process of its own, since the tool ends it
static Ran ends(const std::vector<std::string>& args, const std::string& input, Dir& d)
{
    std::string fi = d.file("stdin"), fo = d.file("stdout"), fe = d.file("stderr");
    std::ofstream(fi, std::ios::binary) << input;
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        dup2(open(fi.c_str(), O_RDONLY), 0);
        dup2(open(fo.c_str(), O_CREAT | O_WRONLY, 0600), 1);
        dup2(open(fe.c_str(), O_CREAT | O_WRONLY, 0600), 2);
        std::vector<const char*> v{ "drafter" };
        for (auto& a : args)
            v.push_back(a.c_str());
        int rc = drafter_cli_main(v.size(), v.data());
        std::cout.flush();
        fflush(nullptr);
        _exit(rc & 0xff);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return Ran{ WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(fo), slurp(fe) };
}

FACET(refusals, 300, 4000, "calls which cannot be carried out: an input which is not there, an output which cannot be opened, two inputs, an unknown format; and the version, and logging; non-trivial: always")
{
    Dir d;
    std::string src = "# API\n\n" + soup::lines(c, 8);
    src = src.substr(0, src.find('\0'));
    std::string in = d.file("in.apib"), out = d.file("out");
    std::ofstream(in, std::ios::binary) << src;
    std::vector<std::string> args;
    if (c.boolean())
        args.push_back("-u");
    if (c.boolean())
        args.push_back("-s");
    c.nontrivial();
    int kind = c.draw(5);
    c.label("kind " + std::to_string(kind));
    switch (kind) {
        case 0: args.insert(args.end(), { d.path + "/none.apib", "-o", out }); break;
        case 1: args.insert(args.end(), { in, "-o", d.path + "/none/out" }); break;
        case 2: args.insert(args.end(), { in, in, "-o", out }); break;
        case 3: args.insert(args.end(), { "-f", c.pick(std::vector<std::string>{ "xml", "JSON", "", "ast" }), in, "-o", out }); break;
        case 4: args.insert(args.end(), { in, c.pick(std::vector<std::string>{ "-v", "--version" }) }); break;
        default: args.insert(args.end(), { in, c.pick(std::vector<std::string>{ "-L", "--enable-log" }), "-f", "json" });
    }
    for (auto& a : args)
        c << (a.find(d.path) == 0 ? a.substr(d.path.size()) : a) << " "; // the directory has another name every time
    c << "\n" << pbt::quote(src);
    Ran r = ends(args, src, d);
    if (kind == 4) {
        REQUIRE_(r.rc == 0 && r.out == std::string(drafter_version_string()) + "\n" && r.err.empty(), "version", "code " << r.rc << ", output " << pbt::quote(r.out) << pbt::quote(r.err));
        return;
    }
    if (kind == 5) {
        capi::Parse p(src, 0);
        std::string want;
        p.serialize(true, std::find(args.begin(), args.end(), "-s") != args.end(), want);
        REQUIRE_(r.rc == p.rc && r.out == want + "\n", "log", "with logging the tool returns " << r.rc << " instead of " << p.rc << ", or another output: " << pbt::quote(r.out.substr(0, 300)));
        return;
    }
    REQUIRE_(r.rc == EXIT_FAILURE, "refusal-code", "the tool returns " << r.rc);
    REQUIRE_(r.out.empty(), "refusal-output", "there is output: " << pbt::quote(r.out.substr(0, 200)));
    REQUIRE_(!r.err.empty() && r.err.find("OK.") == std::string::npos, "refusal-report", "reported: " << pbt::quote(r.err.substr(0, 200)));
    REQUIRE_(!exists(out), "refusal-file", "an output file is created");
}
