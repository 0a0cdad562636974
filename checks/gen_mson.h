// Data structures: a model, its text in MSON in one of many layouts, and the elements it stands for.
#pragma once
#include "gen_blueprint.h"
#include <map>

namespace gm
{
    using gb::arr;
    using gb::El;
    using gb::obj;
    using gb::str;
    using gb::strs;
    using mj::JV;

    enum Kind { Str, Num, Bool, Arr, Obj, Enu };
    inline const char* base(Kind k)
    {
        static const char* n[] = { "string", "number", "boolean", "array", "object", "enum" };
        return n[k];
    }
    inline bool primitive(Kind k) { return k <= Bool; }
    enum { Required = 1, Optional = 2, Fixed = 4, FixedType = 8, Nullable = 16, Default = 32, Sample = 64 };

    struct Lit {
        std::string text;
        bool variable = false;
    };
    struct Type { // of an item, as in array[T]
        std::string name;
        Kind kind;
        bool named;
    };
    struct Node;
    struct Member;
    struct Section {
        std::vector<Lit> lits;
        std::vector<Node> items;
        std::vector<Member> props;
    };
    struct Node {
        Kind kind = Str;
        std::string type; // as written, empty when not said
        bool named = false;
        std::vector<Type> nested;
        std::vector<Lit> lits;
        unsigned attrs = 0;
        std::string desc, block;
        std::vector<Member> props;
        std::vector<Node> items; // or an inclusion
        std::string include;
        std::vector<Section> defaults, samples;
        bool listed() const { return !props.empty() || !items.empty(); }
    };
    struct Member {
        enum What { Property, Include, OneOf } what = Property;
        std::string name; // of the property or of what is included
        bool variable = false;
        std::string keyType;
        Node node;
        std::vector<std::vector<Member> > options;
    };
    struct Named {
        std::string name;
        Kind kind;
        Node node;
        int parent = -1;
    };

    // ----------------------------------------------------------------------------------------- generation
    struct Opts {
        bool descriptions = true;
        bool recursion = true;   // a type may mention any type, not just those before it
        bool oneOf = true, mixins = true, variables = true, sections = true, attributes = true, hints = true;
        bool emptyEnums = true;
    };
    class Gen
    {
        pbt::Case& c;
        Opts o;
        int serial = 0;

    public:
        std::vector<Named> types;
        size_t visible = 0; // inheritance and mixins are from those before it

        Gen(pbt::Case& c_, Opts o_ = Opts()) : c(c_), o(o_) {}
        std::string fresh() { return std::to_string(++serial); }
        std::string words(size_t max)
        {
            static const std::vector<std::string> w = { "alpha", "Beta", "g2", "\xC5\xBDlu\xC5\xA5", "of", "it's", "A.B", "e=mc2", "snake_case", "\xF0\x9F\x98\x80", "re-do", "x;y", "50%", "q?" };
            std::string s = c.pick(std::vector<std::string>{ "Some", "The", "A", "\xC5\xBD" "e" });
            for (size_t n = c.size(max); n; --n)
                s += " " + (c.chance(1, 6) ? odd(".;!?'\"%&=@/-~^$|") : c.pick(w));
            return s;
        }
        // begins with a letter, any of the characters after that
        std::string odd(const std::string& marks)
        {
            static const std::string an = "abcxyzABCXYZ0189";
            std::string s(1, an[c.draw(11)]);
            for (size_t n = c.size(5); n; --n)
                switch (c.draw(2)) {
                    case 0: mj::putUtf8(s, gt::character(c)); break;
                    case 1: s += marks[c.draw(marks.size() - 1)]; break;
                    default: s += an[c.draw(an.size() - 1)];
                }
            return s;
        }
        std::string quotable() { return odd(".;!?'\"%&=@/-~^$|:,()[]{}<>*_+#"); } // no backslash: whether it escapes is up to the Markdown library
        std::string literal(Kind k)
        {
            static const std::vector<std::string> s = { "a", "b", "two words", "snake_case", "it's", "x-y", "\xC5\xBDlu\xC5\xA5", "A.B", "42", "true", "(paren)", "a, b", "x: y", "a - b", "*star*", "[x]", "http://h/p?q=1", "C&A", "\"quoted\"", "Default", "Items", "null", "#1", "50%" };
            static const std::vector<std::string> n = { "0", "1", "-1", "42", "3.14", "-0.5", "2147483647", "100" };
            switch (k) {
                case Num:
                    if (c.chance(1, 4)) {
                        std::string x = std::to_string(c.range(0, 2000000) - 1000000);
                        return c.boolean() ? x : x + "." + std::to_string(c.range(1, 999)) + "5";
                    }
                    return c.pick(n);
                case Bool: return c.boolean() ? "true" : "false";
                default: return c.chance(1, 5) ? quotable() : c.pick(s);
            }
        }
        std::vector<Lit> literals(Kind k, size_t max, bool variables)
        {
            std::vector<Lit> l;
            std::set<std::string> seen;
            for (size_t n = 1 + c.size(max - 1); n; --n) {
                Lit x;
                x.text = literal(k);
                if (!seen.insert(x.text).second)
                    continue;
                if (variables && o.variables && c.chance(1, 8)) {
                    x.variable = true;
                    if (x.text.find_first_not_of(" ._abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != std::string::npos)
                        x.text = k == Num ? "7" : "v";
                }
                l.push_back(x);
            }
            return l;
        }
        // index of a named type of the kind, or -1
        int namedOf(int kind, bool before)
        {
            std::vector<int> r;
            for (size_t i = 0; i < (before || !o.recursion ? visible : types.size()); ++i)
                if (kind < 0 || types[i].kind == kind)
                    r.push_back((int)i);
            return r.empty() ? -1 : c.pick(r);
        }
        Kind itemKind(const Node& n)
        {
            if (n.nested.size() == 1 && !n.nested[0].named && primitive(n.nested[0].kind))
                return n.nested[0].kind;
            return Str;
        }
        void nestedTypes(Node& n)
        {
            if (!o.hints || !c.chance(1, 3))
                return;
            std::set<std::string> seen;
            for (size_t k = 1 + (c.chance(1, 3) ? c.size(2) : 0); k; --k) {
                Type t;
                t.kind = (Kind)c.draw(n.kind == Enu ? 2 : o.emptyEnums ? 5 : 4);
                t.named = false;
                t.name = base(t.kind);
                if (c.chance(1, 3)) {
                    int i = namedOf(n.kind == Enu ? (int)c.draw(2) : -1, false);
                    if (i >= 0) {
                        t.named = true;
                        t.name = types[i].name;
                        t.kind = types[i].kind;
                    }
                }
                if (seen.insert(t.name).second)
                    n.nested.push_back(t);
            }
        }
        unsigned attributes(bool member)
        {
            unsigned a = 0;
            if (!o.attributes)
                return 0;
            if (member && c.chance(1, 3))
                a |= c.boolean() ? Required : Optional;
            if (!(a & Optional) && c.chance(1, 6))
                a |= Fixed;
            else if (c.chance(1, 8))
                a |= FixedType;
            if (c.chance(1, 6))
                a |= Nullable;
            return a;
        }
        Section section(Kind k, Kind item, int depth)
        {
            Section s;
            switch (k) {
                case Obj:
                    for (size_t n = 1 + c.size(1); n; --n)
                        s.props.push_back(property(depth - 1, true));
                    break;
                case Arr:
                    if (c.chance(1, 3) || item != Str)
                        s.lits = literals(item, 3, false);
                    else
                        s.items = items(Arr, item, depth - 1, true);
                    break;
                case Enu: s.lits = literals(item, 1, false); break;
                default: s.lits = literals(k, 1, false);
            }
            return s;
        }
        std::vector<Node> items(Kind holder, Kind item, int depth, bool plain)
        {
            std::vector<Node> r;
            std::set<std::string> seen;
            for (size_t n = 1 + c.size(2); n; --n) {
                Node x;
                if (holder == Enu || plain || depth <= 0 || c.chance(1, 2)) {
                    x.kind = item;
                    x.lits = literals(item, 1, holder == Arr && !plain);
                    if (holder == Enu && !seen.insert(x.lits[0].text).second)
                        continue;
                    if (c.chance(1, 3))
                        x.type = base(item);
                    if (holder != Enu && !plain) {
                        x.attrs = attributes(false);
                        if (c.chance(1, 8))
                            x.attrs |= c.boolean() ? Default : Sample;
                    }
                    if (o.descriptions && c.chance(1, 4))
                        x.desc = words(3);
                } else if (o.mixins && c.chance(1, 8) && namedOf(Arr, true) >= 0) {
                    x.include = types[namedOf(Arr, true)].name;
                } else
                    x = value(depth - 1, false, false);
                if (x.include.empty() && x.type.empty() && x.kind != item)
                    x.type = base(x.kind);
                r.push_back(x);
            }
            return r;
        }
        // a value of any kind, with its type written or evident
        Node value(int depth, bool member, bool plain)
        {
            static const std::vector<Kind> shallow = { Str, Str, Num, Bool, Enu, Arr };
            static const std::vector<Kind> deep = { Str, Num, Bool, Enu, Arr, Arr, Obj, Obj, Obj };
            Node n;
            n.kind = c.pick(depth > 0 ? deep : shallow);
            n.type = base(n.kind);
            int i = -1;
            if (!plain && c.chance(1, 4) && (i = namedOf(n.kind, false)) >= 0) {
                n.type = types[i].name;
                n.named = true;
            }
            fill(n, depth, member, plain);
            // what is evident may be left unsaid
            if (!n.named && n.nested.empty() && c.chance(1, 2)) {
                bool evident = false;
                if (n.kind == Str)
                    evident = n.lits.size() == 1 || (member && n.lits.empty());
                if (n.kind == Arr)
                    evident = n.lits.size() > 1;
                if (n.kind == Obj)
                    evident = member && !n.props.empty() && n.defaults.empty() && n.samples.empty();
                if (evident)
                    n.type.clear();
            }
            return n;
        }
        void fill(Node& n, int depth, bool member, bool plain)
        {
            if (!plain)
                n.attrs = attributes(member);
            bool valued = false;
            switch (n.kind) {
                case Obj:
                    if (depth > 0 && c.chance(4, 5))
                        n.props = properties(depth, plain);
                    break;
                case Arr:
                case Enu:
                    if (!n.named)
                        nestedTypes(n);
                    if (plain)
                        n.nested.clear();
                    if (n.nested.size() <= 1 && (n.nested.empty() || (primitive(n.nested[0].kind) && !n.nested[0].named))) {
                        if (c.chance(1, 3)) {
                            n.lits = literals(itemKind(n), 3, n.kind == Arr);
                            valued = true;
                        }
                        if (c.chance(1, 2) && !(valued && n.kind == Enu))
                            n.items = items(n.kind, itemKind(n), depth, plain);
                    } else if (n.kind == Arr && depth > 0 && c.chance(1, 3))
                        for (size_t k = 1 + c.size(1); k; --k)
                            n.items.push_back(value(depth - 1, false, false));
                    if (n.kind == Enu && !o.emptyEnums && !valued && n.items.empty()) {
                        n.nested.clear();
                        n.items = items(Enu, Str, depth, plain);
                    }
                    break;
                default:
                    if (c.chance(2, 3)) {
                        n.lits = literals(n.kind, 1, !plain);
                        valued = true;
                    }
            }
            if (plain)
                return;
            if (valued && !n.lits[0].variable && !(n.kind == Enu && n.lits.size() > 1) && c.chance(1, 8))
                n.attrs |= c.boolean() ? Default : Sample;
            if (o.sections && c.chance(1, 5) && depth > 0) {
                if (!(n.attrs & Default) && c.chance(1, 2))
                    n.defaults.push_back(section(n.kind, itemKind(n), depth));
                for (size_t k = c.size(2); k; --k)
                    n.samples.push_back(section(n.kind, itemKind(n), depth));
            }
            if (o.descriptions && c.chance(1, 4))
                n.desc = words(3);
            else if (o.descriptions && member && c.chance(1, 8)) {
                n.block = words(4);
                if (c.chance(1, 3))
                    n.block += "\n\n" + words(3);
                if (c.chance(1, 6))
                    n.block += "\n\n" + c.pick(std::vector<std::string>{ "    code\n        + more", "```\nfence\n  x\n```", "> quote", "| a | b |\n|---|---|\n| 1 | 2 |" }) + "\n\nand so on";
            }
            if (o.descriptions && member && !n.desc.empty() && c.chance(1, 6))
                n.block = words(2);
        }
        Member property(int depth, bool plain)
        {
            Member m;
            static const std::vector<std::string> names = { "a", "id", "first_name", "x-y", "two words", "\xC5\xBDlu\xC5\xA5", "A.B", "it's", "a: b", "c (d)", "e - f", "*g*", "q, r", "$ref", "@type" };
            m.name = (c.chance(1, 5) ? quotable() : c.pick(names)) + fresh();
            m.node = value(depth, true, plain);
            if (!plain && o.variables && c.chance(1, 10)) {
                m.variable = true;
                m.name = "var" + fresh();
                if (c.chance(1, 2)) {
                    int i = namedOf(Str, false);
                    m.keyType = i >= 0 && c.boolean() ? types[i].name : "string";
                }
            }
            return m;
        }
        std::vector<Member> properties(int depth, bool plain, bool inOption = false)
        {
            std::vector<Member> r;
            for (size_t n = 1 + c.size(3); n; --n) {
                int i;
                if (!plain && !inOption && o.oneOf && depth > 0 && c.chance(1, 10)) {
                    Member m;
                    m.what = Member::OneOf;
                    for (size_t k = 1 + c.size(2); k; --k)
                        m.options.push_back(properties(depth - 1, false, true));
                    r.push_back(m);
                } else if (!plain && o.mixins && c.chance(1, 10) && (i = namedOf(Obj, true)) >= 0) {
                    Member m;
                    m.what = Member::Include;
                    m.name = types[i].name;
                    r.push_back(m);
                } else
                    r.push_back(property(depth - 1, plain));
                if (inOption && c.chance(1, 2))
                    break;
            }
            return r;
        }
        // the names and kinds of all types come first, their contents may mention any of them
        void declare(size_t max)
        {
            for (size_t n = c.size(max); n; --n) {
                Named t;
                t.kind = c.pick(std::vector<Kind>{ Obj, Obj, Obj, Str, Num, Bool, Arr, Enu });
                t.name = c.pick(std::vector<std::string>{ "Type", "A", "Some Thing", "\xC5\xBD" "ena", "lower", "T.x" }) + " " + fresh();
                if (!types.empty() && c.chance(1, 3)) {
                    std::vector<int> r;
                    for (size_t i = 0; i < types.size(); ++i)
                        if (types[i].kind == t.kind)
                            r.push_back((int)i);
                    if (!r.empty())
                        t.parent = c.pick(r);
                }
                types.push_back(t);
            }
            for (visible = 0; visible < types.size(); ++visible) {
                Named& t = types[visible];
                Node n;
                n.kind = t.kind;
                n.type = t.parent >= 0 ? types[t.parent].name : base(t.kind);
                n.named = t.parent >= 0;
                body(n);
                if (t.kind == Obj && t.parent < 0 && c.chance(1, 2))
                    n.type.clear();
                types[visible].node = n;
            }
            if (o.mixins)
                for (size_t i = 0; i < types.size(); ++i)
                    unmix(types[i].node, types[i].name);
            // so is an array of a type which leads back to that array
            for (auto& t : types)
                for (auto& x : t.node.nested)
                    if (x.named && reaches(x.name, t.name))
                        x = Type{ base(x.kind), x.kind, false };
        }
        // names of all types a node mentions, and of those these mention
        void mentioned(const Node& n, std::set<std::string>& s) const
        {
            auto add = [&](const std::string& x) {
                for (auto& t : types)
                    if (t.name == x && s.insert(x).second)
                        mentioned(t.node, s);
            };
            add(n.type);
            add(n.include);
            for (auto& t : n.nested)
                add(t.name);
            for (auto& x : n.items)
                mentioned(x, s);
            mentioned(n.props, s);
            for (auto* g : { &n.defaults, &n.samples })
                for (auto& x : *g) {
                    for (auto& y : x.items)
                        mentioned(y, s);
                    mentioned(x.props, s);
                }
        }
        void mentioned(const std::vector<Member>& ms, std::set<std::string>& s) const
        {
            for (auto& m : ms) {
                Node n;
                n.type = m.what == Member::Include ? m.name : m.keyType;
                mentioned(n, s);
                mentioned(m.node, s);
                for (auto& x : m.options)
                    mentioned(x, s);
            }
        }
        bool reaches(const std::string& from, const std::string& to) const
        {
            std::set<std::string> s;
            Node n;
            n.type = from;
            mentioned(n, s);
            return s.count(to);
        }
        // mixing in a type which leads back to the one it is mixed into is an error
        void unmix(Node& n, const std::string& owner)
        {
            if (!n.include.empty() && reaches(n.include, owner)) {
                n.include.clear();
                n.kind = Str;
                n.type = base(Str);
                n.lits.push_back({ "unmixed" + fresh(), false });
            }
            for (auto& x : n.items)
                unmix(x, owner);
            unmix(n.props, owner);
        }
        void unmix(std::vector<Member>& ms, const std::string& owner)
        {
            for (auto& m : ms) {
                if (m.what == Member::Include && reaches(m.name, owner)) {
                    m.what = Member::Property;
                    m.name = "unmixed" + fresh();
                }
                unmix(m.node, owner);
                for (auto& x : m.options)
                    unmix(x, owner);
            }
        }
        // of a named type or an attributes section
        void body(Node& n)
        {
            fill(n, 2 + (int)c.size(1), false, false);
            n.lits.clear();
            if (n.kind == Enu && !o.emptyEnums && n.items.empty()) {
                n.nested.clear();
                n.items = items(Enu, Str, 1, false);
            }
            n.attrs &= ~(Default | Sample);
            n.desc.clear();
            n.block.clear();
            if (o.descriptions && c.chance(1, 3)) {
                n.block = words(4);
                if (c.chance(1, 3))
                    n.block += "\n\n" + words(3);
                if (c.chance(1, 6))
                    n.block += "\n\n" + c.pick(std::vector<std::string>{ "    code\n        + more", "```\nfence\n  x\n```", "> quote", "| a | b |\n|---|---|\n| 1 | 2 |" }) + "\n\nand so on";
            }
        }
        Node attributesSection()
        {
            Node n;
            n.kind = c.pick(std::vector<Kind>{ Obj, Obj, Arr, Enu, Str, Num });
            int i = c.chance(1, 3) ? namedOf(n.kind, false) : -1;
            n.type = i >= 0 ? types[i].name : base(n.kind);
            n.named = i >= 0;
            body(n);
            n.block.clear();
            if (n.kind == Obj && !n.named && !n.props.empty() && c.chance(1, 2))
                n.type.clear();
            return n;
        }
    };

    // -------------------------------------------------------------------------------------------- layout
    class Writer
    {
        pbt::Case& c;
        std::string bullet;
        bool variety; // keywords of either case, singular or plural where that is free

    public:
        std::string o;
        Writer(pbt::Case& c_) : c(c_), bullet(c_.pick(std::vector<std::string>{ "+", "-", "*" })), variety(c_.chance(1, 4)) {}
        std::string kw(std::string w)
        {
            if (!variety)
                return w;
            if (w == "Attributes" && c.boolean())
                w = "Attribute";
            for (size_t i = 0; i < w.size(); ++i)
                if (isupper((unsigned char)w[i]) && c.boolean())
                    w[i] = (char)tolower(w[i]);
            return w;
        }
        void line(const std::string& s) { o += s + "\n"; }
        void blank() { o += "\n"; }
        static std::string in(int d) { return std::string(4 * d, ' '); }
        void item(int d, const std::string& s)
        {
            line(in(d) + bullet + " " + s);
        }
        std::string quote(const std::string& v, bool first)
        {
            static const std::string plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789. ";
            bool safe = true;
            for (unsigned char ch : v)
                safe = safe && (ch >= 0x80 || plain.find(ch) != std::string::npos);
            (void)first;
            if (v == "Default" || v == "Items")
                safe = false;
            return safe && c.chance(2, 3) ? v : "`" + v + "`";
        }
        std::string lits(const std::vector<Lit>& l, bool first)
        {
            std::string s;
            for (auto& x : l) {
                s += s.empty() ? "" : ", ";
                s += x.variable ? "*" + x.text + "*" : quote(x.text, first && s.empty());
            }
            return s;
        }
        std::string spec(const Node& n)
        {
            std::vector<std::string> p;
            if (!n.type.empty()) {
                std::string t = n.type;
                if (!n.nested.empty()) {
                    t += "[";
                    for (size_t i = 0; i < n.nested.size(); ++i)
                        t += (i ? ", " : "") + n.nested[i].name;
                    t += "]";
                }
                p.push_back(t);
            }
            static const std::pair<unsigned, const char*> names[] = { { Required, "required" }, { Optional, "optional" }, { Fixed, "fixed" }, { FixedType, "fixed-type" }, { Nullable, "nullable" }, { Default, "default" }, { Sample, "sample" } };
            for (auto& a : names)
                if (n.attrs & a.first)
                    p.push_back(a.second);
            for (size_t i = p.size(); i > 1; --i)
                std::swap(p[i - 1], p[c.draw(i - 1)]);
            if (p.empty())
                return "";
            std::string s = " (";
            for (size_t i = 0; i < p.size(); ++i)
                s += (i ? ", " : "") + p[i];
            return s + ")";
        }
        void node(const Node& n, int d)
        {
            if (!n.include.empty()) {
                item(d, kw("Include ") + n.include);
                return;
            }
            std::string s = lits(n.lits, true);
            std::string t = spec(n);
            if (s.empty() && !t.empty())
                t = t.substr(1);
            if (!n.desc.empty())
                t += " - " + n.desc;
            item(d, s + t);
            rest(n, d + 1);
        }
        void member(const Member& m, int d)
        {
            switch (m.what) {
                case Member::Include: item(d, kw("Include ") + m.name); return;
                case Member::OneOf:
                    item(d, kw("One Of"));
                    for (auto& op : m.options)
                        if (op.size() == 1 && c.chance(3, 4))
                            member(op[0], d + 1);
                        else {
                            item(d + 1, kw("Properties"));
                            for (auto& x : op)
                                member(x, d + 2);
                        }
                    return;
                default:;
            }
            std::string s;
            if (m.variable)
                s = "*" + m.name + (m.keyType.empty() ? "" : " (" + m.keyType + ")") + "*";
            else {
                bool safe = true;
                for (unsigned char ch : m.name)
                    safe = safe && (ch >= 0x80 || isalnum(ch) || ch == ' ' || ch == '.' || ch == '\'' || ch == '_');
                s = safe && c.chance(2, 3) ? m.name : "`" + m.name + "`";
            }
            const Node& n = m.node;
            if (!n.lits.empty())
                s += ": " + lits(n.lits, false);
            s += spec(n);
            if (!n.desc.empty())
                s += " - " + n.desc;
            item(d, s);
            rest(n, d + 1);
        }
        void list(const Node& n, int d)
        {
            for (auto& x : n.items)
                node(x, d);
            for (auto& x : n.props)
                member(x, d);
        }
        static std::string keyword(Kind k, bool other) { return k == Obj ? "Properties" : (k == Enu) != other ? "Members" : "Items"; }
        void section(const std::string& word, const Section& s, int d, Kind k)
        {
            if (!s.lits.empty() && (primitive(k) || c.boolean())) {
                item(d, kw(word) + ": " + lits(s.lits, false));
                return;
            }
            item(d, kw(word));
            for (auto& x : s.lits) {
                Node n;
                n.lits.push_back(x);
                node(n, d + 1);
            }
            for (auto& x : s.items)
                node(x, d + 1);
            for (auto& x : s.props)
                member(x, d + 1);
        }
        void text(const std::string& t, int d)
        {
            size_t b = 0;
            while (b <= t.size()) {
                size_t e = std::min(t.find('\n', b), t.size());
                std::string l = t.substr(b, e - b);
                line(l.empty() ? "" : in(d) + l);
                b = e + 1;
            }
        }
        void rest(const Node& n, int d)
        {
            if (!n.block.empty()) {
                blank();
                text(n.block, d);
                blank();
            }
            bool before = c.boolean();
            auto members = [&] {
                if (!n.listed())
                    return;
                if (!n.block.empty() || c.chance(1, 5)) {
                    item(d, kw(keyword(n.kind, c.boolean())));
                    list(n, d + 1);
                } else
                    list(n, d);
            };
            if (before)
                members();
            size_t i = 0, j = 0;
            while (i < n.defaults.size() || j < n.samples.size())
                if (j >= n.samples.size() || (i < n.defaults.size() && c.boolean()))
                    section("Default", n.defaults[i++], d, n.kind);
                else
                    section("Sample", n.samples[j++], d, n.kind);
            if (!before)
                members();
        }
        void head(const std::string& word, const Section& s, int level, Kind k)
        {
            std::string h(level, '#');
            if (!s.lits.empty() && (primitive(k) || c.boolean())) {
                line(h + " " + kw(word) + ": " + lits(s.lits, false));
                blank();
                return;
            }
            line(h + " " + kw(word));
            for (auto& x : s.lits) {
                Node n;
                n.lits.push_back(x);
                node(n, 0);
            }
            for (auto& x : s.items)
                node(x, 0);
            for (auto& x : s.props)
                member(x, 0);
            blank();
        }
        void named(const Named& t, int level)
        {
            const Node& n = t.node;
            std::string h(level, '#'), s = spec(n);
            line(h + " " + t.name + s);
            if (!n.block.empty()) {
                blank();
                text(n.block, 0);
                blank();
            }
            bool before = n.block.empty() && c.boolean(), done = false;
            if (before && n.listed()) {
                if (c.boolean())
                    blank();
                list(n, 0);
                done = true;
            }
            blank();
            size_t i = 0, j = 0;
            auto members = [&] {
                if (done || !n.listed())
                    return;
                done = true;
                line(h + "# " + kw(keyword(n.kind, c.boolean())));
                list(n, 0);
                blank();
            };
            if (c.boolean())
                members();
            while (i < n.defaults.size() || j < n.samples.size())
                if (j >= n.samples.size() || (i < n.defaults.size() && c.boolean()))
                    head("Default", n.defaults[i++], level + 1, n.kind);
                else
                    head("Sample", n.samples[j++], level + 1, n.kind);
            members();
        }
        void attributes(const Node& n, int d)
        {
            item(d, kw("Attributes") + spec(n));
            rest(n, d + 1);
        }
    };

    // ------------------------------------------------------------------------------------------ expected
    class Expect
    {
        static JV number(const std::string& s)
        {
            JV v;
            mj::JsonParser(s).parse(v);
            return v;
        }
        static JV content(Kind k, const std::string& s)
        {
            return k == Str ? JV::str(s) : number(s);
        }
        static JV leaf(Kind k, const Lit& l, bool fixed = false)
        {
            El e(base(k));
            if (fixed)
                e.a("typeAttributes", strs({ "fixed" }));
            if (l.variable)
                e.a("samples", El("array").c(arr({ El(base(k)).c(content(k, l.text)).v() })).v());
            else
                e.c(content(k, l.text));
            return e.v();
        }
        static Kind itemKind(const Node& n)
        {
            if (n.nested.size() == 1 && !n.nested[0].named && primitive(n.nested[0].kind))
                return n.nested[0].kind;
            return Str;
        }
        static JV typeAttributes(unsigned a)
        {
            std::vector<std::string> s;
            if (a & Required)
                s.push_back("required");
            if (a & Optional)
                s.push_back("optional");
            if (a & Fixed)
                s.push_back("fixed");
            if (a & FixedType)
                s.push_back("fixedType");
            if (a & Nullable)
                s.push_back("nullable");
            return strs(s);
        }
        static const unsigned Said = Required | Optional | Fixed | FixedType | Nullable;
        static std::string withoutDescription(const JV& v)
        {
            JV x = v;
            for (auto& p : x.o)
                if (p.first == "meta")
                    p.second = JV(JV::Null);
            if (!x.get("meta"))
                x.o.insert(x.o.begin() + 1, { "meta", JV(JV::Null) });
            return mj::packed(x);
        }
        // the value itself: element, default, samples and content; what surrounds it is up to the caller
        void value(El& e, const Node& n, bool structure) const
        {
            Kind item = itemKind(n);
            std::vector<JV> samples, content_, defaults;
            bool asDefault = n.attrs & Default, asSample = (n.attrs & Sample) || (primitive(n.kind) && !n.lits.empty() && n.lits[0].variable);
            auto hints = [&](std::vector<JV>& to) {
                if (!structure && !n.lits.empty() && n.nested.size() <= 1)
                    return;
                for (auto& t : n.nested)
                    to.push_back(El(t.name).v());
            };
            auto group = [&](const std::vector<Lit>& l, const std::vector<Node>& items) {
                std::vector<JV> r;
                for (auto& x : l)
                    r.push_back(leaf(item, x));
                for (auto& x : items)
                    r.push_back(itemEl(x, item, false));
                return El("array").c(arr(r)).v();
            };
            if (primitive(n.kind)) {
                auto one = [&](const Lit& l) { return El(base(n.kind)).c(content(n.kind, l.text)).v(); };
                if (!n.lits.empty()) {
                    if (asDefault)
                        defaults.push_back(one(n.lits[0]));
                    else if (asSample)
                        samples.push_back(one(n.lits[0]));
                    else
                        e.c(content(n.kind, n.lits[0].text));
                }
                for (auto& s : n.defaults)
                    defaults.push_back(one(s.lits[0]));
                for (auto& s : n.samples)
                    samples.push_back(one(s.lits[0]));
            } else if (n.kind == Arr) {
                hints(content_);
                if (!n.lits.empty()) {
                    JV g = group(n.lits, {});
                    if (asDefault)
                        defaults.push_back(g);
                    else if (asSample)
                        samples.push_back(g);
                    else
                        for (auto& x : g.get("content")->a)
                            content_.push_back(x);
                }
                for (auto& x : n.items)
                    content_.push_back(itemEl(x, item, false));
                if (!content_.empty())
                    e.c(arr(content_));
                for (auto& s : n.defaults)
                    defaults.push_back(group(s.lits, s.items));
                for (auto& s : n.samples)
                    samples.push_back(group(s.lits, s.items));
            } else if (n.kind == Obj) {
                if (!n.props.empty())
                    e.c(arr(members(n.props)));
                for (auto& s : n.defaults)
                    defaults.push_back(El("object").c(arr(members(s.props))).v());
                for (auto& s : n.samples)
                    samples.push_back(El("object").c(arr(members(s.props))).v());
            } else {
                std::vector<JV> enums;
                std::set<std::string> seen;
                auto add = [&](const JV& x) {
                    if (seen.insert(withoutDescription(x)).second)
                        enums.push_back(x);
                };
                std::vector<JV> inl, vals, smp, dfl;
                for (auto& l : n.lits)
                    (asDefault ? dfl : asSample ? smp : inl).push_back(leaf(item, l, true));
                for (auto& x : n.items)
                    vals.push_back(itemEl(x, item, true));
                for (auto& s : n.samples)
                    smp.push_back(leaf(item, s.lits[0], true));
                for (auto& s : n.defaults)
                    dfl.push_back(leaf(item, s.lits[0], true));
                // a single value, or a single member, is the value
                if (inl.size() == 1)
                    e.c(inl[0]);
                else if (vals.size() == 1)
                    e.c(vals[0]);
                for (auto* g : { &inl, &vals, &smp, &dfl })
                    for (auto& x : *g)
                        add(x);
                std::vector<JV> h;
                hints(h);
                for (auto& x : h)
                    add(x);
                if (!enums.empty())
                    e.a("enumerations", El("array").c(arr(enums)).v());
                for (auto& x : smp)
                    samples.push_back(El("enum").c(x).v());
                for (auto& x : dfl)
                    defaults.push_back(El("enum").c(x).v());
            }
            if (!samples.empty())
                e.a("samples", El("array").c(arr(samples)).v());
            if (!defaults.empty())
                e.a("default", defaults.back());
        }
        JV itemEl(const Node& n, Kind fallback, bool fixed) const
        {
            if (!n.include.empty())
                return El("ref").a("path", str("content")).c(JV::str(n.include)).v();
            El e(n.type.empty() ? base(n.kind) : n.type);
            unsigned a = n.attrs & Said;
            if (!n.desc.empty())
                e.m("description", str(n.desc));
            if (a || fixed)
                e.a("typeAttributes", typeAttributes(a | (fixed ? Fixed : 0)));
            value(e, n, false);
            return e.v();
        }

    public:
        std::vector<JV> members(const std::vector<Member>& ms) const
        {
            std::vector<JV> r;
            for (auto& m : ms)
                switch (m.what) {
                    case Member::Include: r.push_back(El("ref").a("path", str("content")).c(JV::str(m.name)).v()); break;
                    case Member::OneOf: {
                        std::vector<JV> ops;
                        for (auto& op : m.options)
                            ops.push_back(El("option").c(arr(members(op))).v());
                        r.push_back(El("select").c(arr(ops)).v());
                        break;
                    }
                    default: {
                        El e("member");
                        const Node& n = m.node;
                        std::string d = n.desc;
                        if (!n.block.empty())
                            d += (d.empty() ? "" : "\n\n") + n.block;
                        if (!d.empty())
                            e.m("description", str(d));
                        if (m.variable)
                            e.a("variable", El("boolean").c(number("true")).v());
                        if (n.attrs & Said)
                            e.a("typeAttributes", typeAttributes(n.attrs));
                        El v(n.type.empty() ? base(n.kind) : n.type);
                        value(v, n, false);
                        El k(m.keyType.empty() ? "string" : m.keyType);
                        k.c(JV::str(m.name));
                        e.c(obj({ { "key", k.v() }, { "value", v.v() } }));
                        r.push_back(e.v());
                    }
                }
            return r;
        }
        JV structure(const Node& n, const std::string& id) const
        {
            El e(n.type.empty() ? base(n.kind) : n.type);
            if (!id.empty())
                e.m("id", str(id));
            if (!n.block.empty())
                e.m("description", str(n.block));
            if (n.attrs & Said)
                e.a("typeAttributes", typeAttributes(n.attrs));
            value(e, n, true);
            return e.v();
        }
    };
}
