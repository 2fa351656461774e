// Stand-in for sundown's block parser (see markdown.h). The rules of the markdown dialect are those of sundown with fenced
// code and lax spacing, with the fork's two changes that the project's own tests pin down: every list item is made of
// blocks, and an item that is indented as its list or less ends the one before. Every byte of a nested block keeps the
// offset it has in the source; a block's map is what these offsets join up to.
//
// Its own memory is the harness's: allocations made here never fail and are not counted, except for the two handles that
// the caller owns. What the callbacks do is the code under test.
#include "markdown.h"

#include <cstdlib>
#include <cstring>
#include <string>
#include <strings.h>
#include <vector>

namespace sim
{
    void standin(int delta) __attribute__((weak));
}

namespace
{
    struct Inside {
        Inside()
        {
            if (sim::standin)
                sim::standin(1);
        }
        ~Inside()
        {
            if (sim::standin)
                sim::standin(-1);
        }
    };
    struct Outside {
        Outside()
        {
            if (sim::standin)
                sim::standin(-1);
        }
        ~Outside()
        {
            if (sim::standin)
                sim::standin(1);
        }
    };

    using u8 = unsigned char;

    // text, with the place in the source of each byte
    struct Text {
        std::string s;
        std::vector<std::size_t> at;
        void put(const u8* d, const std::size_t* a, std::size_t n)
        {
            s.append(reinterpret_cast<const char*>(d), n);
            at.insert(at.end(), a, a + n);
        }
        void put(char c, std::size_t a)
        {
            s += c;
            at.push_back(a);
        }
        const u8* data() const
        {
            return reinterpret_cast<const u8*>(s.data());
        }
    };

    bool space(int c)
    {
        return c == ' ' || c == '\n';
    }
    std::size_t line(const u8* d, std::size_t n, std::size_t from = 0)
    {
        std::size_t end = from + 1;
        while (end < n && d[end - 1] != '\n')
            ++end;
        return end < n ? end : n;
    }
    std::size_t indent(const u8* d, std::size_t n, std::size_t most)
    {
        std::size_t i = 0;
        while (i < most && i < n && d[i] == ' ')
            ++i;
        return i;
    }
    std::size_t is_empty(const u8* d, std::size_t n)
    {
        std::size_t i = 0;
        for (; i < n && d[i] != '\n'; ++i)
            if (d[i] != ' ')
                return 0;
        return i + 1;
    }
    bool is_hrule(const u8* d, std::size_t n)
    {
        if (n < 3)
            return false;
        std::size_t i = indent(d, n, 3), count = 0;
        if (i + 2 >= n || !(d[i] == '*' || d[i] == '-' || d[i] == '_'))
            return false;
        const u8 c = d[i];
        for (; i < n && d[i] != '\n'; ++i) {
            if (d[i] == c)
                ++count;
            else if (d[i] != ' ')
                return false;
        }
        return count >= 3;
    }
    std::size_t prefix_codefence(const u8* d, std::size_t n)
    {
        if (n < 3)
            return 0;
        std::size_t i = indent(d, n, 3), count = 0;
        if (i + 2 >= n || !(d[i] == '~' || d[i] == '`'))
            return 0;
        const u8 c = d[i];
        while (i < n && d[i] == c)
            ++count, ++i;
        return count < 3 ? 0 : i;
    }
    std::size_t is_codefence(const u8* d, std::size_t n, std::string* syntax)
    {
        std::size_t i = prefix_codefence(d, n);
        if (!i)
            return 0;
        while (i < n && d[i] == ' ')
            ++i;
        std::string name;
        if (i < n && d[i] == '{') {
            ++i;
            while (i < n && d[i] != '}' && d[i] != '\n')
                name += static_cast<char>(d[i++]);
            if (i == n || d[i] != '}')
                return 0;
            ++i;
        } else {
            while (i < n && !space(d[i]))
                name += static_cast<char>(d[i++]);
        }
        if (syntax)
            *syntax = name;
        for (; i < n && d[i] != '\n'; ++i)
            if (!space(d[i]))
                return 0;
        return i + 1;
    }
    int is_headerline(const u8* d, std::size_t n)
    {
        if (!n || (d[0] != '=' && d[0] != '-'))
            return 0;
        std::size_t i = 1;
        while (i < n && d[i] == d[0])
            ++i;
        while (i < n && d[i] == ' ')
            ++i;
        if (i < n && d[i] != '\n')
            return 0;
        return d[0] == '=' ? 1 : 2;
    }
    bool is_next_headerline(const u8* d, std::size_t n)
    {
        std::size_t i = 0;
        while (i < n && d[i] != '\n')
            ++i;
        if (++i >= n)
            return false;
        return is_headerline(d + i, n - i) != 0;
    }
    std::size_t prefix_quote(const u8* d, std::size_t n)
    {
        const std::size_t i = indent(d, n, 3);
        if (i < n && d[i] == '>')
            return i + 1 < n && d[i + 1] == ' ' ? i + 2 : i + 1;
        return 0;
    }
    std::size_t prefix_code(const u8* d, std::size_t n)
    {
        return n > 3 && indent(d, n, 4) == 4 ? 4 : 0;
    }
    std::size_t prefix_oli(const u8* d, std::size_t n)
    {
        std::size_t i = indent(d, n, 3);
        if (i >= n || d[i] < '0' || d[i] > '9')
            return 0;
        while (i < n && d[i] >= '0' && d[i] <= '9')
            ++i;
        if (i + 1 >= n || d[i] != '.' || d[i + 1] != ' ' || is_next_headerline(d + i, n - i))
            return 0;
        return i + 2;
    }
    std::size_t prefix_uli(const u8* d, std::size_t n)
    {
        const std::size_t i = indent(d, n, 3);
        if (i + 1 >= n || (d[i] != '*' && d[i] != '+' && d[i] != '-') || d[i + 1] != ' ' || is_next_headerline(d + i, n - i))
            return 0;
        return i + 2;
    }

    const char* block_tag(const char* d, std::size_t n)
    {
        static const char* const tags[] = { "p", "dl", "div", "math", "table", "ul", "del", "form", "blockquote", "figure", "ol",
            "fieldset", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "script", "iframe", "noscript", "ins" };
        for (const char* t : tags)
            if (std::strlen(t) == n && !strncasecmp(t, d, n))
                return t;
        return nullptr;
    }
    std::size_t htmlblock_end_tag(const char* tag, std::size_t len, const u8* d, std::size_t n)
    {
        if (len + 3 >= n || strncasecmp(reinterpret_cast<const char*>(d) + 2, tag, len) || d[len + 2] != '>')
            return 0;
        std::size_t i = len + 3, w = 0;
        if (i < n && !(w = is_empty(d + i, n - i)))
            return 0;
        i += w;
        w = 0;
        if (i < n)
            w = is_empty(d + i, n - i);
        return i + w;
    }
    std::size_t htmlblock_end(const char* tag, const u8* d, std::size_t n, bool start_of_line)
    {
        const std::size_t len = std::strlen(tag);
        std::size_t i = 1;
        int lines = 0;
        while (i < n) {
            ++i;
            while (i < n && !(d[i - 1] == '<' && d[i] == '/')) {
                if (d[i] == '\n')
                    ++lines;
                ++i;
            }
            if (start_of_line && lines > 0 && d[i - 2] != '\n')
                continue;
            if (i + 2 + len >= n)
                break;
            if (const std::size_t e = htmlblock_end_tag(tag, len, d + i - 1, n - i + 1))
                return i + e - 1;
        }
        return 0;
    }
    std::size_t htmlblock(const u8* d, std::size_t n)
    {
        if (n < 2 || d[0] != '<')
            return 0;
        std::size_t i = 1;
        while (i < n && d[i] != '>' && d[i] != ' ')
            ++i;
        const char* tag = i < n ? block_tag(reinterpret_cast<const char*>(d) + 1, i - 1) : nullptr;
        if (!tag) {
            if (n > 5 && d[1] == '!' && d[2] == '-' && d[3] == '-') {
                i = 5;
                while (i < n && !(d[i - 2] == '-' && d[i - 1] == '-' && d[i] == '>'))
                    ++i;
                ++i;
                const std::size_t j = i < n ? is_empty(d + i, n - i) : 0;
                if (j)
                    return i + j;
            }
            if (n > 4 && (d[1] == 'h' || d[1] == 'H') && (d[2] == 'r' || d[2] == 'R')) {
                i = 3;
                while (i < n && d[i] != '>')
                    ++i;
                if (i + 1 < n) {
                    ++i;
                    if (const std::size_t j = is_empty(d + i, n - i))
                        return i + j;
                }
            }
            return 0;
        }
        std::size_t e = htmlblock_end(tag, d, n, true);
        if (!e && std::strcmp(tag, "ins") && std::strcmp(tag, "del"))
            e = htmlblock_end(tag, d, n, false);
        return e;
    }
}

struct sd_markdown {
    sd_callbacks cb;
    void* opaque;
    unsigned ext;
    std::size_t max_nesting;
};

namespace
{
    class Parser
    {
        const sd_markdown& md_;
        buf* ob_;
        std::size_t nesting_ = 0;

        struct Level {
            std::size_t& n;
            std::size_t by;
            Level(std::size_t& n, std::size_t by) : n(n), by(by)
            {
                n += by;
            }
            ~Level()
            {
                n -= by;
            }
        };

        template <typename F>
        void with(const std::string& s, F&& call)
        {
            buf b = { reinterpret_cast<u8*>(const_cast<char*>(s.data())), s.size(), s.size(), 1 };
            Outside o;
            call(&b);
        }
        // inline markup: there are no callbacks for it, so that all that happens is the removal of escapes
        static std::string inlined(const u8* d, std::size_t n)
        {
            return std::string(reinterpret_cast<const char*>(d), n);
        }
        void paragraph(const u8* d, std::size_t n)
        {
            with(inlined(d, n), [&](buf* b) { md_.cb.paragraph(ob_, b, md_.opaque); });
        }
        void header(const u8* d, std::size_t n, int level)
        {
            with(inlined(d, n), [&](buf* b) { md_.cb.header(ob_, b, level, md_.opaque); });
        }
        void code(const std::string& text, const std::string* lang)
        {
            with(text, [&](buf* b) {
                if (lang && !lang->empty()) {
                    buf l = { reinterpret_cast<u8*>(const_cast<char*>(lang->data())), lang->size(), lang->size(), 1 };
                    md_.cb.blockcode(ob_, b, &l, md_.opaque);
                } else
                    md_.cb.blockcode(ob_, b, nullptr, md_.opaque);
            });
        }
        void did_parse(const u8* d, const std::size_t* at, std::size_t n)
        {
            if (!n)
                return;
            std::vector<range> r;
            for (std::size_t i = 0; i < n; ++i) {
                if (!r.empty() && at[i] == r.back().loc + r.back().len)
                    ++r.back().len;
                else
                    r.push_back({ at[i], 1 });
            }
            std::vector<void*> items;
            for (auto& x : r)
                items.push_back(&x);
            src_map m = { items.data(), items.size(), items.size() };
            Outside o;
            md_.cb.block_did_parse(&m, d, n, md_.opaque);
        }

        std::size_t atxheader(const u8* d, std::size_t n)
        {
            std::size_t level = 0;
            while (level < n && level < 6 && d[level] == '#')
                ++level;
            std::size_t i = level;
            while (i < n && d[i] == ' ')
                ++i;
            std::size_t end = i;
            while (end < n && d[end] != '\n')
                ++end;
            const std::size_t skip = end;
            while (end && d[end - 1] == '#')
                --end;
            while (end && d[end - 1] == ' ')
                --end;
            if (end > i)
                header(d + i, end - i, static_cast<int>(level));
            return skip;
        }
        std::size_t fencedcode(const u8* d, std::size_t n)
        {
            std::string lang, work;
            std::size_t beg = is_codefence(d, n, &lang);
            if (!beg)
                return 0;
            while (beg < n) {
                std::string trail;
                const std::size_t e = is_codefence(d + beg, n - beg, &trail);
                if (e && trail.empty()) {
                    beg += e;
                    break;
                }
                const std::size_t end = line(d, n, beg);
                if (is_empty(d + beg, end - beg))
                    work += '\n';
                else
                    work.append(reinterpret_cast<const char*>(d) + beg, end - beg);
                beg = end;
            }
            if (!work.empty() && work.back() != '\n')
                work += '\n';
            code(work, &lang);
            return beg;
        }
        std::size_t blockcode(const u8* d, std::size_t n)
        {
            std::string work;
            std::size_t beg = 0;
            while (beg < n) {
                const std::size_t end = line(d, n, beg);
                const std::size_t pre = prefix_code(d + beg, end - beg);
                if (pre)
                    beg += pre;
                else if (!is_empty(d + beg, end - beg))
                    break;
                if (beg < end) {
                    if (is_empty(d + beg, end - beg))
                        work += '\n';
                    else
                        work.append(reinterpret_cast<const char*>(d) + beg, end - beg);
                }
                beg = end;
            }
            while (!work.empty() && work.back() == '\n')
                work.pop_back();
            work += '\n';
            code(work, nullptr);
            return beg;
        }
        std::size_t blockquote(const u8* d, const std::size_t* at, std::size_t n)
        {
            Text work;
            std::size_t beg = 0, end = 0;
            while (beg < n) {
                end = line(d, n, beg);
                const std::size_t pre = prefix_quote(d + beg, end - beg);
                if (pre)
                    beg += pre;
                else if (is_empty(d + beg, end - beg)
                    && (end >= n || (!prefix_quote(d + end, n - end) && !is_empty(d + end, n - end))))
                    break;
                if (beg < end)
                    work.put(d + beg, at + beg, end - beg);
                beg = end;
            }
            {
                Outside o;
                md_.cb.blockquote_begin(md_.opaque);
            }
            {
                Level l(nesting_, 1);
                blocks(work.data(), work.at.data(), work.s.size());
            }
            with(std::string(), [&](buf* b) { md_.cb.blockquote(ob_, b, md_.opaque); });
            return end;
        }
        std::size_t listitem(const u8* d, const std::size_t* at, std::size_t n, int& flags)
        {
            const std::size_t orgpre = indent(d, n, 3);
            std::size_t beg = prefix_uli(d, n);
            if (!beg)
                beg = prefix_oli(d, n);
            if (!beg)
                return 0;
            std::size_t end = beg;
            while (end < n && d[end - 1] != '\n')
                ++end;
            Text work;
            work.put(d + beg, at + beg, end - beg);
            beg = end;
            std::size_t sublist = 0, blank = 0;
            bool in_empty = false, in_fence = false;
            while (beg < n) {
                std::size_t uli = 0, oli = 0;
                end = line(d, n, beg);
                if (is_empty(d + beg, end - beg)) {
                    if (!in_empty)
                        blank = beg;
                    in_empty = true;
                    beg = end;
                    continue;
                }
                const std::size_t pre = indent(d + beg, end - beg, 4);
                if (is_codefence(d + beg + pre, end - beg - pre, nullptr))
                    in_fence = !in_fence;
                if (!in_fence) {
                    uli = prefix_uli(d + beg + pre, end - beg - pre);
                    oli = prefix_oli(d + beg + pre, end - beg - pre);
                }
                if (in_empty && (((flags & MKD_LIST_ORDERED) && uli) || (!(flags & MKD_LIST_ORDERED) && oli))) {
                    flags |= MKD_LI_END;
                    break;
                }
                if ((uli && !is_hrule(d + beg + pre, end - beg - pre)) || oli) {
                    if (pre <= orgpre)
                        break;
                    if (!sublist)
                        sublist = work.s.size();
                } else if (in_empty && !pre) {
                    flags |= MKD_LI_END;
                    break;
                } else if (in_empty)
                    work.put('\n', at[blank]);
                in_empty = false;
                work.put(d + beg + pre, at + beg + pre, end - beg - pre);
                beg = end;
            }
            flags |= MKD_LI_BLOCK;
            {
                Outside o;
                md_.cb.listitem_begin(flags & ~MKD_LI_END, md_.opaque);
            }
            {
                Level l(nesting_, 2);
                if (sublist && sublist < work.s.size()) {
                    blocks(work.data(), work.at.data(), sublist);
                    blocks(work.data() + sublist, work.at.data() + sublist, work.s.size() - sublist);
                } else
                    blocks(work.data(), work.at.data(), work.s.size());
            }
            with(std::string(), [&](buf* b) { md_.cb.listitem(ob_, b, flags & ~MKD_LI_END, md_.opaque); });
            did_parse(d, at, beg);
            return beg;
        }
        std::size_t list(const u8* d, const std::size_t* at, std::size_t n, int flags)
        {
            Level l(nesting_, 1);
            {
                Outside o;
                md_.cb.list_begin(flags, md_.opaque);
            }
            std::size_t i = 0;
            while (i < n) {
                const std::size_t j = listitem(d + i, at + i, n - i, flags);
                i += j;
                if (!j || (flags & MKD_LI_END))
                    break;
            }
            with(std::string(), [&](buf* b) { md_.cb.list(ob_, b, flags, md_.opaque); });
            return i;
        }
        std::size_t text(const u8* d, std::size_t n)
        {
            std::size_t i = 0, end = 0;
            int level = 0;
            while (i < n) {
                end = line(d, n, i);
                if (is_empty(d + i, n - i))
                    break;
                if ((level = is_headerline(d + i, n - i)) != 0)
                    break;
                if (d[i] == '#' || is_hrule(d + i, n - i) || prefix_quote(d + i, n - i)) {
                    end = i;
                    break;
                }
                const bool alnum = (d[i] >= '0' && d[i] <= '9') || (d[i] >= 'a' && d[i] <= 'z') || (d[i] >= 'A' && d[i] <= 'Z');
                if ((md_.ext & MKDEXT_LAX_SPACING) && !alnum) {
                    if (prefix_oli(d + i, n - i) || prefix_uli(d + i, n - i) || (d[i] == '<' && htmlblock(d + i, n - i))
                        || is_codefence(d + i, n - i, nullptr)) {
                        end = i;
                        break;
                    }
                }
                i = end;
            }
            std::size_t size = i;
            while (size && d[size - 1] == '\n')
                --size;
            if (!level) {
                paragraph(d, size);
            } else {
                const u8* work = d;
                if (size) {
                    i = size--;
                    while (size && d[size] != '\n')
                        --size;
                    const std::size_t beg = size + 1;
                    while (size && d[size - 1] == '\n')
                        --size;
                    if (size > 0) {
                        paragraph(d, size);
                        work += beg;
                        size = i - beg;
                    } else
                        size = i;
                }
                header(work, size, level);
            }
            return end;
        }

    public:
        Parser(const sd_markdown& md, buf* ob) : md_(md), ob_(ob) {}

        void blocks(const u8* d, const std::size_t* at, std::size_t n)
        {
            if (nesting_ > md_.max_nesting)
                return;
            std::size_t beg = 0;
            while (beg < n) {
                const u8* p = d + beg;
                const std::size_t* a = at + beg;
                const std::size_t left = n - beg;
                std::size_t i;
                if (p[0] == '#')
                    i = atxheader(p, left);
                else if (p[0] == '<' && (i = htmlblock(p, left)) != 0)
                    with(std::string(reinterpret_cast<const char*>(p), i), [&](buf* b) { md_.cb.blockhtml(ob_, b, md_.opaque); });
                else if ((i = is_empty(p, left)) != 0)
                    ;
                else if (is_hrule(p, left)) {
                    {
                        Outside o;
                        md_.cb.hrule(ob_, md_.opaque);
                    }
                    i = line(p, left);
                } else if ((i = fencedcode(p, left)) != 0)
                    ;
                else if (prefix_quote(p, left))
                    i = blockquote(p, a, left);
                else if (prefix_code(p, left))
                    i = blockcode(p, left);
                else if (prefix_uli(p, left))
                    i = list(p, a, left, 0);
                else if (prefix_oli(p, left))
                    i = list(p, a, left, MKD_LIST_ORDERED);
                else
                    i = text(p, left);
                if (i > left)
                    i = left;
                did_parse(p, a, i);
                beg += i;
            }
        }
    };
}

extern "C" {
sd_markdown* sd_markdown_new(unsigned ext, size_t max_nesting, const sd_callbacks* cb, void* opaque)
{
    auto md = static_cast<sd_markdown*>(std::malloc(sizeof(sd_markdown)));
    if (!md)
        return nullptr;
    md->cb = *cb;
    md->opaque = opaque;
    md->ext = ext;
    md->max_nesting = max_nesting;
    return md;
}
void sd_markdown_free(sd_markdown* md)
{
    std::free(md);
}
struct buf* bufnew(size_t unit)
{
    auto b = static_cast<buf*>(std::malloc(sizeof(buf)));
    if (b) {
        b->data = nullptr;
        b->size = b->asize = 0;
        b->unit = unit;
    }
    return b;
}
void bufrelease(struct buf* b)
{
    if (!b)
        return;
    std::free(b->data);
    std::free(b);
}
void sd_markdown_render(struct buf* ob, const uint8_t* d, size_t n, sd_markdown* md)
{
    Inside here;
    Text text;
    std::size_t i = n >= 3 && d[0] == 0xEF && d[1] == 0xBB && d[2] == 0xBF ? 3 : 0;
    std::size_t column = 0;
    for (; i < n; ++i) {
        if (d[i] == '\t') {
            do
                text.put(' ', i), ++column;
            while (column % 4);
        } else if (d[i] == '\n' || (d[i] == '\r' && !(i + 1 < n && d[i + 1] == '\n'))) {
            text.put('\n', i);
            column = 0;
        } else if (d[i] != '\r') {
            text.put(static_cast<char>(d[i]), i);
            ++column;
        }
    }
    if (!text.s.empty() && text.s.back() != '\n')
        text.put('\n', n);
    Parser(*md, ob).blocks(text.data(), text.at.data(), text.s.size());
}
}
