// Stand-in for the absent tanakh/cmdline submodule: the part of its interface drafter's config.cc uses.
#ifndef VERIF_SHIM_CMDLINE
#define VERIF_SHIM_CMDLINE
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace cmdline
{
    template <typename T>
    struct oneof_reader {
        std::vector<T> alt;
        bool operator()(const std::string& s) const
        {
            for (auto& a : alt)
                if (a == s)
                    return true;
            return false;
        }
    };
    template <typename T>
    oneof_reader<T> oneof(T a, T b)
    {
        return oneof_reader<T>{ { a, b } };
    }

    class parser
    {
        struct option {
            bool takesValue = false, needed = false, has = false;
            char shortName = 0;
            std::string value;
            std::vector<std::string> allowed;
        };
        std::map<std::string, option> opts;
        std::vector<std::string> others;
        std::string prog, foot;

        option* byShort(char c)
        {
            for (auto& o : opts)
                if (o.second.shortName == c)
                    return &o.second;
            return nullptr;
        }
        [[noreturn]] void usage(const std::string& why, int rc)
        {
            (rc ? std::cerr : std::cout) << why << "\nusage: " << prog << " [options] ... " << foot << std::endl;
            std::exit(rc);
        }
        void set(option& o, const std::string& v)
        {
            bool ok = o.allowed.empty();
            for (auto& a : o.allowed)
                ok = ok || a == v;
            if (!ok)
                usage("option value is invalid: " + v, 1);
            o.value = v;
            o.has = true;
        }

    public:
        void set_program_name(const std::string& n) { prog = n; }
        void footer(const std::string& f) { foot = f; }
        void add(const std::string& n, char s, const std::string&) { opts[n].shortName = s; }
        template <typename T>
        void add(const std::string& n, char s, const std::string&, bool need, const T def = T())
        {
            auto& o = opts[n];
            o.takesValue = true;
            o.needed = need;
            o.shortName = s;
            o.value = def;
        }
        template <typename T, typename F>
        void add(const std::string& n, char s, const std::string& d, bool need, const T def, F reader)
        {
            add<T>(n, s, d, need, def);
            opts[n].allowed = reader.alt;
        }
        bool exist(const std::string& n) const { return opts.at(n).has; }
        template <typename T>
        const T& get(const std::string& n) const
        {
            return opts.at(n).value;
        }
        const std::vector<std::string>& rest() const { return others; }
        void parse_check(int argc, const char* const argv[])
        {
            for (int i = 1; i < argc; ++i) {
                std::string a = argv[i];
                if (a.compare(0, 2, "--") == 0) {
                    size_t eq = a.find('=');
                    std::string n = a.substr(2, eq == std::string::npos ? eq : eq - 2);
                    if (!opts.count(n))
                        usage("undefined option: --" + n, 1);
                    auto& o = opts[n];
                    if (!o.takesValue)
                        o.has = true;
                    else if (eq != std::string::npos)
                        set(o, a.substr(eq + 1));
                    else if (++i < argc)
                        set(o, argv[i]);
                    else
                        usage("option needs value: --" + n, 1);
                } else if (a.size() > 1 && a[0] == '-') {
                    for (size_t j = 1; j < a.size(); ++j) {
                        option* o = byShort(a[j]);
                        if (!o)
                            usage(std::string("undefined short option: -") + a[j], 1);
                        if (!o->takesValue) {
                            o->has = true;
                            continue;
                        }
                        if (j + 1 < a.size())
                            set(*o, a.substr(j + 1));
                        else if (++i < argc)
                            set(*o, argv[i]);
                        else
                            usage("short option needs value", 1);
                        break;
                    }
                } else
                    others.push_back(a);
            }
            if (opts.count("help") && opts["help"].has)
                usage("", 0);
        }
    };
}
#endif
