#pragma once
#include "gen_text.h"
#include "utils/so/Value.h"

namespace gso
{
    using namespace drafter::utils::so;
    using mj::JV;

    inline std::string number(pbt::Case& c)
    {
        static const std::vector<std::string> n = { "0", "1", "-1", "42", "3.14", "-0.5", "1e3", "2E-7", "1.5e+10", "9007199254740993", "-0",
            "12345678901234567890", "0.0" };
        return c.pick(n);
    }
    inline std::string key(pbt::Case& c, bool bytes)
    {
        static const std::vector<std::string> k = { "a", "b", "element", "content", "meta", "attributes", "", "null", "true", "false", "Yes", "no",
            "on", "OFF", "y", "N", "True", "NULL", "a-b", "-", "a b", "a:b", "1", "A_z", "[", "\\", "^", "`", "aZ" };
        if (c.chance(2, 3))
            return c.pick(k);
        return bytes ? gt::anyBytes(c, 8, true) : gt::utf8(c, 8, true);
    }
    // unique keys unless dup
    inline JV value(pbt::Case& c, int depth, bool bytes = false)
    {
        switch (c.weighted({ 2, 1, 1, 3, 5, depth > 0 ? 4u : 0u, depth > 0 ? 4u : 0u })) {
            case 0: return JV(JV::Null);
            case 1: return JV(JV::True);
            case 2: return JV(JV::False);
            case 3: return JV::num(number(c));
            case 4: return JV::str(bytes ? gt::anyBytes(c, 12, true) : gt::utf8(c, 12, true));
            case 5: {
                JV v(JV::Arr);
                size_t n = c.size(5);
                for (size_t i = 0; i < n; ++i)
                    v.a.push_back(value(c, depth - 1, bytes));
                return v;
            }
            default: {
                JV v(JV::Obj);
                size_t n = c.size(5);
                for (size_t i = 0; i < n; ++i) {
                    std::string k = key(c, bytes);
                    if (!v.get(k))
                        v.o.emplace_back(k, value(c, depth - 1, bytes));
                }
                return v;
            }
        }
    }
    inline Value toSo(const JV& v)
    {
        switch (v.t) {
            case JV::Null: return Null{};
            case JV::True: return True{};
            case JV::False: return False{};
            case JV::Num: return Number{ v.s };
            case JV::Str: return String{ v.s };
            case JV::Arr: {
                Array a;
                for (auto& x : v.a)
                    a.data.emplace_back(toSo(x));
                return a;
            }
            default: {
                Object o;
                for (auto& m : v.o)
                    o.data.emplace_back(m.first, toSo(m.second));
                return o;
            }
        }
    }
    struct FromSo {
        JV operator()(const Null&) const { return JV(JV::Null); }
        JV operator()(const True&) const { return JV(JV::True); }
        JV operator()(const False&) const { return JV(JV::False); }
        JV operator()(const Number& n) const { return JV::num(n.data); }
        JV operator()(const String& n) const { return JV::str(n.data); }
        JV operator()(const Array& n) const
        {
            JV v(JV::Arr);
            for (auto& x : n.data)
                v.a.push_back(mpark::visit(*this, x));
            return v;
        }
        JV operator()(const Object& n) const
        {
            JV v(JV::Obj);
            for (auto& x : n.data)
                v.o.emplace_back(x.first, mpark::visit(*this, x.second));
            return v;
        }
    };
    inline JV fromSo(const Value& v) { return mpark::visit(FromSo(), v); }

    inline size_t weight(const JV& v)
    {
        size_t n = 1 + v.s.size() / 4;
        for (auto& x : v.a)
            n += weight(x);
        for (auto& m : v.o)
            n += weight(m.second);
        return n;
    }
}
