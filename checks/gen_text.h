// Strings for the text-level properties.
#pragma once
#include "model_json.h"
#include "pbt.h"

namespace gt
{
    inline uint32_t codepoint(pbt::Case& c)
    {
        switch (c.weighted({ 6, 4, 3, 2, 2, 2, 2 })) {
            case 0: return (uint32_t)c.range('a', 'z');
            case 1: return (uint32_t)c.range(1, 0x7F);
            case 2: {
                static const std::vector<uint32_t> edge = { '"', '\\', '/', '\n', '\r', '\t', '\b', '\f', 0x0B, 0x1B, 0x1F, 0x7F, 0x80,
                    0x85, 0x9F, 0xA0, 0xAD, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
                    0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF, ':', '-', '#', '{', '}', '[', ']', ',', '&', '*', '!', '|', '>', '\'',
                    '%', '@', '`', '?', ' ' };
                return c.pick(edge);
            }
            case 3: return (uint32_t)c.range(0x80, 0x7FF);
            case 4: return (uint32_t)c.range(0x800, 0xD7FF);
            case 5: return (uint32_t)c.range(0xE000, 0xFFFF);
            default: return (uint32_t)c.range(0x10000, 0x10FFFF);
        }
    }
    // outside ASCII
    inline uint32_t character(pbt::Case& c)
    {
        static const std::vector<uint32_t> edge = { 0x80, 0x85, 0x9F, 0xA0, 0xAD, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
            0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF };
        switch (c.draw(4)) {
            case 0: return (uint32_t)c.range(0x80, 0x7FF);
            case 1: return (uint32_t)c.range(0x800, 0xD7FF);
            case 2: return (uint32_t)c.range(0xE000, 0xFFFF);
            case 3: return (uint32_t)c.range(0x10000, 0x10FFFF);
            default: return c.pick(edge);
        }
    }
    inline std::string utf8(pbt::Case& c, size_t max, bool nul = false)
    {
        std::string s;
        size_t n = c.size(max);
        for (size_t i = 0; i < n; ++i)
            if (nul && c.chance(1, 40))
                s += '\0';
            else
                mj::putUtf8(s, codepoint(c));
        return s;
    }
    // anything, ill-formed sequences included
    inline std::string anyBytes(pbt::Case& c, size_t max, bool nul)
    {
        std::string s;
        size_t n = c.size(max);
        for (size_t i = 0; i < n; ++i)
            switch (c.weighted({ 3, 2, 2, 1 })) {
                case 0: mj::putUtf8(s, codepoint(c)); break;
                case 1: s += (char)c.range(nul ? 0 : 1, 255); break;
                case 2: s += (char)c.pick(std::vector<int>{ 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF }); break;
                default: s += '\n';
            }
        return s;
    }
}
