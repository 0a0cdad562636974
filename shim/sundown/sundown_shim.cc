// A block-level Markdown parser with the event order and source maps of Apiary's sundown fork, which is an
// absent submodule here.  Every byte of the working text carries its offset in the source; a source map is
// the list of contiguous runs of those offsets.  It is part of the harness, not of the code under test.
#include "markdown.h"
#include <cstring>
#include <strings.h>
#include <string>
#include <vector>

struct sd_markdown {
    sd_callbacks cb;
    unsigned ext;
    size_t max_nesting;
    void* opaque;
    size_t depth;
};

namespace
{
    typedef const uint8_t* B;

    // a view of working text with the source offset of each byte
    struct Text {
        B d;
        const size_t* pos;
        size_t n;
        Text from(size_t i) const { return Text{ d + i, pos + i, n - i }; }
        Text first(size_t k) const { return Text{ d, pos, k }; }
    };
    struct Work {
        std::string s;
        std::vector<size_t> pos;
        void put(const Text& t)
        {
            s.append((const char*)t.d, t.n);
            pos.insert(pos.end(), t.pos, t.pos + t.n);
        }
        void putc(char ch, size_t p)
        {
            s.push_back(ch);
            pos.push_back(p);
        }
        Text text() const { return Text{ (B)s.data(), pos.data(), s.size() }; }
    };

    struct Buf : buf {
        std::string s;
        explicit Buf(const std::string& t) : s(t)
        {
            data = s.empty() ? nullptr : (uint8_t*)&s[0];
            size = s.size();
            asize = s.size();
            unit = 64;
        }
    };

    bool sp(int c) { return c == ' ' || c == '\n'; }

    size_t is_empty(B d, size_t n)
    {
        size_t i;
        for (i = 0; i < n && d[i] != '\n'; ++i)
            if (d[i] != ' ')
                return 0;
        return i + 1;
    }
    size_t lead3(B d, size_t n)
    {
        size_t i = 0;
        while (i < 3 && i < n && d[i] == ' ')
            ++i;
        return i;
    }
    bool is_hrule(B d, size_t n)
    {
        if (n < 3)
            return false;
        size_t i = lead3(d, n), k = 0;
        if (i + 2 >= n || (d[i] != '*' && d[i] != '-' && d[i] != '_'))
            return false;
        uint8_t c = d[i];
        for (; i < n && d[i] != '\n'; ++i)
            if (d[i] == c)
                ++k;
            else if (d[i] != ' ')
                return false;
        return k >= 3;
    }
    size_t prefix_codefence(B d, size_t n)
    {
        if (n < 3)
            return 0;
        size_t i = lead3(d, n), k = 0;
        if (i + 2 >= n || !(d[i] == '~' || d[i] == '`'))
            return 0;
        uint8_t c = d[i];
        while (i < n && d[i] == c) {
            ++k;
            ++i;
        }
        return k < 3 ? 0 : i;
    }
    size_t is_codefence(B d, size_t n, std::string* syntax)
    {
        size_t i = prefix_codefence(d, n);
        if (!i)
            return 0;
        while (i < n && d[i] == ' ')
            ++i;
        size_t b = i, e;
        if (i < n && d[i] == '{') {
            ++i;
            ++b;
            while (i < n && d[i] != '}' && d[i] != '\n')
                ++i;
            if (i == n || d[i] != '}')
                return 0;
            e = i;
            while (b < e && sp(d[b]))
                ++b;
            while (e > b && sp(d[e - 1]))
                --e;
            ++i;
        } else {
            while (i < n && !sp(d[i]))
                ++i;
            e = i;
        }
        if (syntax)
            syntax->assign((const char*)d + b, e - b);
        while (i < n && d[i] != '\n') {
            if (!sp(d[i]))
                return 0;
            ++i;
        }
        return i + 1;
    }
    int is_headerline(B d, size_t n)
    {
        if (!n)
            return 0;
        if (d[0] == '=' || d[0] == '-') {
            size_t i = 1;
            while (i < n && d[i] == d[0])
                ++i;
            while (i < n && d[i] == ' ')
                ++i;
            if (i >= n || d[i] == '\n')
                return d[0] == '=' ? 1 : 2;
        }
        return 0;
    }
    bool is_next_headerline(B d, size_t n)
    {
        size_t i = 0;
        while (i < n && d[i] != '\n')
            ++i;
        if (++i >= n)
            return false;
        return is_headerline(d + i, n - i) != 0;
    }
    size_t prefix_quote(B d, size_t n)
    {
        size_t i = lead3(d, n);
        if (i < n && d[i] == '>')
            return i + 1 < n && d[i + 1] == ' ' ? i + 2 : i + 1;
        return 0;
    }
    size_t prefix_code(B d, size_t n) { return n > 3 && !memcmp(d, "    ", 4) ? 4 : 0; }
    size_t prefix_oli(B d, size_t n)
    {
        size_t i = lead3(d, n);
        if (i >= n || d[i] < '0' || d[i] > '9')
            return 0;
        while (i < n && d[i] >= '0' && d[i] <= '9')
            ++i;
        if (i + 1 >= n || d[i] != '.' || d[i + 1] != ' ')
            return 0;
        if (is_next_headerline(d + i, n - i))
            return 0;
        return i + 2;
    }
    size_t prefix_uli(B d, size_t n)
    {
        size_t i = lead3(d, n);
        if (i + 1 >= n || (d[i] != '*' && d[i] != '+' && d[i] != '-') || d[i + 1] != ' ')
            return 0;
        if (is_next_headerline(d + i, n - i))
            return 0;
        return i + 2;
    }
    const char* find_block_tag(const char* s, size_t n)
    {
        static const char* tags[] = { "p", "dl", "h1", "h2", "h3", "h4", "h5", "h6", "ol", "ul", "del", "div", "ins",
            "pre", "form", "math", "table", "figure", "iframe", "script", "style", "fieldset", "noscript",
            "blockquote" };
        for (const char* t : tags)
            if (strlen(t) == n && !strncasecmp(t, s, n))
                return t;
        return nullptr;
    }
    size_t htmlblock_end_tag(const char* tag, size_t len, B d, size_t n)
    {
        if (len + 3 >= n || strncasecmp((const char*)d + 2, tag, len) || d[len + 2] != '>')
            return 0;
        size_t i = len + 3, w = 0;
        if (i < n && !(w = is_empty(d + i, n - i)))
            return 0;
        i += w;
        w = 0;
        if (i < n)
            w = is_empty(d + i, n - i);
        return i + w;
    }
    size_t htmlblock_end(const char* tag, B d, size_t n, bool startOfLine)
    {
        size_t len = strlen(tag), i = 1;
        int lines = 0;
        while (i < n) {
            ++i;
            while (i < n && !(d[i - 1] == '<' && d[i] == '/')) {
                if (d[i] == '\n')
                    ++lines;
                ++i;
            }
            if (i >= n)
                break;
            if (startOfLine && lines > 0 && d[i - 2] != '\n')
                continue;
            if (i + 2 + len >= n)
                break;
            if (size_t e = htmlblock_end_tag(tag, len, d + i - 1, n - i + 1))
                return i + e - 1;
        }
        return 0;
    }

    std::string inlineText(B d, size_t n)
    {
        // no span callbacks are registered: only a backslash escape changes the text
        static const char* escapes = "\\`*_{}[]()#+-.!:|&<>^~";
        std::string o;
        for (size_t i = 0; i < n; ++i) {
            if (d[i] == '\\') {
                if (i + 1 < n) {
                    if (d[i + 1] && strchr(escapes, d[i + 1])) {
                        o += (char)d[++i];
                        continue;
                    }
                } else {
                    o += '\\';
                    continue;
                }
            }
            o += (char)d[i];
        }
        return o;
    }

    struct Parser {
        sd_markdown* md;
        buf* ob;

        void didParse(const Text& t, size_t n)
        {
            if (n > t.n)
                n = t.n;
            if (!n || !md->cb.block_did_parse)
                return;
            std::vector<range> rs;
            for (size_t i = 0; i < n; ++i) {
                if (!rs.empty() && rs.back().loc + rs.back().len == t.pos[i])
                    ++rs.back().len;
                else
                    rs.push_back(range{ t.pos[i], 1 });
            }
            std::vector<void*> items;
            for (auto& r : rs)
                items.push_back(&r);
            src_map m{ items.data(), items.size(), items.size() };
            md->cb.block_did_parse(&m, t.d, n, md->opaque);
        }
        void header(const std::string& s, int level)
        {
            Buf b(s);
            md->cb.header(ob, &b, level, md->opaque);
        }
        void paragraph(const std::string& s)
        {
            Buf b(s);
            md->cb.paragraph(ob, &b, md->opaque);
        }
        size_t atx(const Text& t)
        {
            size_t level = 0, i, end, skip;
            while (level < t.n && level < 6 && t.d[level] == '#')
                ++level;
            for (i = level; i < t.n && t.d[i] == ' '; ++i) {
            }
            for (end = i; end < t.n && t.d[end] != '\n'; ++end) {
            }
            skip = end;
            while (end && t.d[end - 1] == '#')
                --end;
            while (end && t.d[end - 1] == ' ')
                --end;
            if (end > i)
                header(inlineText(t.d + i, end - i), (int)level);
            return skip;
        }
        size_t html(const Text& t, bool render)
        {
            B d = t.d;
            size_t n = t.n, i = 1, j = 0;
            if (n < 2 || d[0] != '<')
                return 0;
            while (i < n && d[i] != '>' && d[i] != ' ')
                ++i;
            const char* tag = i < n ? find_block_tag((const char*)d + 1, i - 1) : nullptr;
            size_t end = 0;
            if (!tag) {
                if (n > 5 && d[1] == '!' && d[2] == '-' && d[3] == '-') {
                    i = 5;
                    while (i < n && !(d[i - 2] == '-' && d[i - 1] == '-' && d[i] == '>'))
                        ++i;
                    ++i;
                    if (i < n)
                        j = is_empty(d + i, n - i);
                    if (j)
                        end = i + j;
                }
                if (!end && n > 4 && (d[1] | 32) == 'h' && (d[2] | 32) == 'r') {
                    i = 3;
                    while (i < n && d[i] != '>')
                        ++i;
                    if (i + 1 < n) {
                        ++i;
                        j = is_empty(d + i, n - i);
                        if (j)
                            end = i + j;
                    }
                }
            } else {
                end = htmlblock_end(tag, d, n, true);
                if (!end && strcmp(tag, "ins") && strcmp(tag, "del"))
                    end = htmlblock_end(tag, d, n, false);
            }
            if (!end)
                return 0;
            if (end > n)
                end = n;
            if (render) {
                Buf b(std::string((const char*)d, end));
                md->cb.blockhtml(ob, &b, md->opaque);
            }
            return end;
        }
        static size_t lineEnd(const Text& t, size_t beg)
        {
            size_t end = beg + 1;
            while (end < t.n && t.d[end - 1] != '\n')
                ++end;
            return end;
        }
        size_t fenced(const Text& t)
        {
            std::string lang;
            size_t beg = is_codefence(t.d, t.n, &lang);
            if (!beg)
                return 0;
            std::string w;
            while (beg < t.n) {
                std::string trail;
                size_t fe = is_codefence(t.d + beg, t.n - beg, &trail);
                if (fe && trail.empty()) {
                    beg += fe;
                    break;
                }
                size_t end = lineEnd(t, beg);
                if (is_empty(t.d + beg, end - beg))
                    w += '\n';
                else
                    w.append((const char*)t.d + beg, end - beg);
                beg = end;
            }
            if (!w.empty() && w.back() != '\n')
                w += '\n';
            Buf b(w), l(lang);
            md->cb.blockcode(ob, &b, lang.empty() ? nullptr : &l, md->opaque);
            return beg;
        }
        size_t code(const Text& t)
        {
            std::string w;
            size_t beg = 0;
            while (beg < t.n) {
                size_t end = lineEnd(t, beg);
                if (size_t pre = prefix_code(t.d + beg, end - beg))
                    beg += pre;
                else if (!is_empty(t.d + beg, end - beg))
                    break;
                if (beg < end) {
                    if (is_empty(t.d + beg, end - beg))
                        w += '\n';
                    else
                        w.append((const char*)t.d + beg, end - beg);
                }
                beg = end;
            }
            while (!w.empty() && w.back() == '\n')
                w.pop_back();
            w += '\n';
            Buf b(w);
            md->cb.blockcode(ob, &b, nullptr, md->opaque);
            return beg;
        }
        size_t quote(const Text& t)
        {
            Work w;
            size_t beg = 0, end = 0;
            if (md->cb.blockquote_begin)
                md->cb.blockquote_begin(md->opaque);
            while (beg < t.n) {
                end = lineEnd(t, beg);
                if (size_t pre = prefix_quote(t.d + beg, end - beg))
                    beg += pre;
                else if (is_empty(t.d + beg, end - beg)
                    && (end >= t.n
                           || (!prefix_quote(t.d + end, t.n - end) && !is_empty(t.d + end, t.n - end))))
                    break;
                if (beg < end)
                    w.put(t.from(beg).first(end - beg));
                beg = end;
            }
            ++md->depth;
            block(w.text());
            --md->depth;
            Buf b("");
            md->cb.blockquote(ob, &b, md->opaque);
            return end;
        }
        size_t item(const Text& t, int* flags)
        {
            B d = t.d;
            size_t n = t.n, beg, end, sublist = 0, orgpre = lead3(d, n), lastEmpty = 0;
            bool inEmpty = false, inFence = false;
            beg = prefix_uli(d, n);
            if (!beg)
                beg = prefix_oli(d, n);
            if (!beg)
                return 0;
            if (md->cb.listitem_begin)
                md->cb.listitem_begin(*flags, md->opaque);
            end = beg;
            while (end < n && d[end - 1] != '\n')
                ++end;
            Work w;
            w.put(t.from(beg).first(end - beg));
            beg = end;
            while (beg < n) {
                size_t uli = 0, oli = 0;
                ++end;
                while (end < n && d[end - 1] != '\n')
                    ++end;
                if (is_empty(d + beg, end - beg)) {
                    inEmpty = true;
                    lastEmpty = end - 1;
                    beg = end;
                    continue;
                }
                size_t i = 0;
                while (i < 4 && beg + i < end && d[beg + i] == ' ')
                    ++i;
                size_t pre = i;
                if (is_codefence(d + beg + i, end - beg - i, nullptr))
                    inFence = !inFence;
                if (!inFence) {
                    uli = prefix_uli(d + beg + i, end - beg - i);
                    oli = prefix_oli(d + beg + i, end - beg - i);
                }
                if (inEmpty && (((*flags & MKD_LIST_ORDERED) && uli) || (!(*flags & MKD_LIST_ORDERED) && oli))) {
                    *flags |= MKD_LI_END;
                    break;
                }
                if ((uli && !is_hrule(d + beg + i, end - beg - i)) || oli) {
                    if (pre <= orgpre)
                        break;
                    if (!sublist)
                        sublist = w.s.size();
                } else if (inEmpty && pre == 0) {
                    *flags |= MKD_LI_END;
                    break;
                } else if (inEmpty)
                    w.putc('\n', t.pos[lastEmpty]);
                inEmpty = false;
                w.put(t.from(beg + i).first(end - beg - i));
                beg = end;
            }
            *flags |= MKD_LI_BLOCK;
            md->depth += 2;
            if (sublist && sublist < w.s.size()) {
                block(w.text().first(sublist));
                block(w.text().from(sublist));
            } else
                block(w.text());
            md->depth -= 2;
            Buf b("");
            md->cb.listitem(ob, &b, *flags, md->opaque);
            didParse(t, beg);
            return beg;
        }
        size_t list(const Text& t, int flags)
        {
            size_t i = 0;
            if (md->cb.list_begin)
                md->cb.list_begin(flags, md->opaque);
            ++md->depth;
            while (i < t.n) {
                size_t j = item(t.from(i), &flags);
                i += j;
                if (!j || (flags & MKD_LI_END))
                    break;
            }
            --md->depth;
            Buf b("");
            md->cb.list(ob, &b, flags, md->opaque);
            return i;
        }
        size_t para(const Text& t)
        {
            B d = t.d;
            size_t n = t.n, i = 0, end = 0;
            int level = 0;
            while (i < n) {
                end = lineEnd(t, i);
                if (is_empty(d + i, n - i))
                    break;
                if ((level = is_headerline(d + i, n - i)))
                    break;
                if (d[i] == '#' || is_hrule(d + i, n - i) || prefix_quote(d + i, n - i)) {
                    end = i;
                    break;
                }
                if (!(isalnum(d[i]) && d[i] < 128)) {
                    if (prefix_oli(d + i, n - i) || prefix_uli(d + i, n - i)
                        || (d[i] == '<' && html(t.from(i), false)) || is_codefence(d + i, n - i, nullptr)) {
                        end = i;
                        break;
                    }
                }
                i = end;
            }
            size_t ws = i;
            while (ws && d[ws - 1] == '\n')
                --ws;
            if (!level) {
                paragraph(inlineText(d, ws));
            } else {
                B wd = d;
                if (ws) {
                    size_t k = ws, b;
                    --ws;
                    while (ws && d[ws] != '\n')
                        --ws;
                    b = ws + 1;
                    while (ws && d[ws - 1] == '\n')
                        --ws;
                    if (ws > 0) {
                        paragraph(inlineText(d, ws));
                        wd += b;
                        ws = k - b;
                    } else
                        ws = k;
                }
                header(inlineText(wd, ws), level);
            }
            return end;
        }
        void block(const Text& t)
        {
            if (md->depth > md->max_nesting)
                return;
            size_t beg = 0;
            while (beg < t.n) {
                Text x = t.from(beg);
                size_t k;
                if (x.d[0] == '#')
                    k = atx(x);
                else if (x.d[0] == '<' && (k = html(x, true))) {
                } else if ((k = is_empty(x.d, x.n))) {
                } else if (is_hrule(x.d, x.n)) {
                    md->cb.hrule(ob, md->opaque);
                    k = 0;
                    while (k < x.n && x.d[k] != '\n')
                        ++k;
                    ++k;
                } else if ((k = fenced(x))) {
                } else if (prefix_quote(x.d, x.n))
                    k = quote(x);
                else if (prefix_code(x.d, x.n))
                    k = code(x);
                else if (prefix_uli(x.d, x.n))
                    k = list(x, 0);
                else if (prefix_oli(x.d, x.n))
                    k = list(x, MKD_LIST_ORDERED);
                else
                    k = para(x);
                if (!k)
                    break;
                didParse(x, k);
                beg += k;
            }
        }
    };
}

extern "C" {
struct sd_markdown* sd_markdown_new(unsigned int ext, size_t max_nesting, const struct sd_callbacks* cb, void* opaque)
{
    sd_markdown* m = new sd_markdown;
    m->cb = *cb;
    m->ext = ext;
    m->max_nesting = max_nesting;
    m->opaque = opaque;
    m->depth = 0;
    return m;
}
void sd_markdown_render(struct buf* ob, const uint8_t* doc, size_t n, struct sd_markdown* md)
{
    Work w;
    size_t i = 0;
    if (n >= 3 && !memcmp(doc, "\xEF\xBB\xBF", 3))
        i = 3;
    for (; i < n; ++i) {
        if (doc[i] == '\r') {
            if (i + 1 < n && doc[i + 1] == '\n')
                continue;
            w.putc('\n', i);
        } else if (doc[i] == '\t') {
            // expanded to the next multiple of four; the extra columns map to the tab
            size_t col = w.s.size() - (w.s.rfind('\n') == std::string::npos ? 0 : w.s.rfind('\n') + 1);
            do
                w.putc(' ', i);
            while (++col % 4);
        } else
            w.putc((char)doc[i], i);
    }
    if (w.s.empty())
        return;
    if (w.s.back() != '\n')
        w.putc('\n', n);
    md->depth = 0;
    Parser p{ md, ob };
    p.block(w.text());
}
void sd_markdown_free(struct sd_markdown* md) { delete md; }
struct buf* bufnew(size_t unit)
{
    buf* b = new buf;
    b->data = nullptr;
    b->size = b->asize = 0;
    b->unit = unit;
    return b;
}
void bufrelease(struct buf* b) { delete b; }
}
