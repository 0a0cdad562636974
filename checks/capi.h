#pragma once
#include "drafter.h"
#include <cstdlib>
#include <string>

namespace capi
{
    enum { NameRequired = 1, SkipBodies = 2, SkipSchemas = 4 };
    struct Parse {
        drafter_result* result = nullptr;
        drafter_parse_options* po;
        int rc = 0;
        explicit Parse(const std::string& src, unsigned opts = 0)
        {
            po = drafter_init_parse_options();
            if (opts & NameRequired)
                drafter_set_name_required(po);
            if (opts & SkipBodies)
                drafter_set_skip_gen_bodies(po);
            if (opts & SkipSchemas)
                drafter_set_skip_gen_body_schemas(po);
            rc = drafter_parse_blueprint(src.c_str(), &result, po);
        }
        Parse(const Parse&) = delete;
        ~Parse()
        {
            drafter_free_result(result);
            drafter_free_parse_options(po);
        }
        const drafter_parse_options* options() const { return po; }
        bool serialize(bool json, bool sourceMaps, std::string& out)
        {
            drafter_serialize_options* so = drafter_init_serialize_options();
            drafter_set_format(so, json ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
            if (sourceMaps)
                drafter_set_sourcemaps_included(so);
            char* s = drafter_serialize(result, so);
            drafter_free_serialize_options(so);
            if (!s)
                return false;
            out = s;
            free(s);
            return true;
        }
        std::string json(bool sm = false)
        {
            std::string s;
            serialize(true, sm, s);
            return s;
        }
        std::string yaml(bool sm = false)
        {
            std::string s;
            serialize(false, sm, s);
            return s;
        }
    };
}
