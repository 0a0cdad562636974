// Reading a serialised parse result.
#pragma once
#include "model_json.h"
#include <string>
#include <vector>

namespace res
{
    using mj::JV;
    inline const JV* content(const JV& e) { return e.get("content"); }
    inline std::string element(const JV& e)
    {
        const JV* n = e.get("element");
        return n && n->t == JV::Str ? n->s : "";
    }
    inline const JV* attribute(const JV& e, const std::string& k)
    {
        const JV* a = e.get("attributes");
        return a ? a->get(k) : nullptr;
    }
    inline const JV* metaOf(const JV& e, const std::string& k)
    {
        const JV* a = e.get("meta");
        return a ? a->get(k) : nullptr;
    }
    // textual content of a (possibly absent) element
    inline std::string text(const JV* e)
    {
        if (!e)
            return "";
        const JV* c = e->get("content");
        return c ? c->s : "";
    }
    inline bool hasClass(const JV& e, const std::string& cls)
    {
        const JV* c = metaOf(e, "classes");
        if (!c || !content(*c))
            return false;
        for (auto& x : content(*c)->a)
            if (text(&x) == cls)
                return true;
        return false;
    }
    inline std::vector<const JV*> annotations(const JV& parseResult)
    {
        std::vector<const JV*> o;
        if (const JV* c = content(parseResult))
            for (auto& x : c->a)
                if (element(x) == "annotation")
                    o.push_back(&x);
        return o;
    }
    inline size_t errors(const JV& parseResult)
    {
        size_t n = 0;
        for (auto* a : annotations(parseResult))
            n += hasClass(*a, "error");
        return n;
    }
}
