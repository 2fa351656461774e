// Sources whose stored bytes are damaged: cut off, flipped, zeroed, lost or doubled blocks. The
// services that map bytes, characters and lines must cope, and must still be right before the damage.
#include <algorithm>
#include <iostream>

#include "../engine/seams.h"
#include "oracle.h"
#include "ops.h"
#include "SourceMapUtils.h"
#include "reporting.h"
#include "utils/Utf8.h"

using sim::count;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_ops = sim::counter("damage.operations");
    const int c_cut = sim::counter("fault.bytes-cut-off");
    const int c_flip = sim::counter("fault.bit-flipped");
    const int c_zero = sim::counter("fault.byte-zeroed");
    const int c_lost = sim::counter("fault.block-lost");
    const int c_twice = sim::counter("fault.block-doubled");
    const int c_set = sim::counter("fault.byte-overwritten");
    const int c_intact = sim::counter("damage.sources-intact");
    const int c_tail = sim::counter("damage.cut-inside-a-character");

    std::string piece(Rng& r)
    {
        static const char* const p[] = { "\n", "a", "# Group A\n", "\xc3\xa9", "\xe6\xbc\xa2\xe5\xad\x97", "\xf0\x9f\x98\x80", "\r\n",
            "+ Response 200\n\n        {}\n", " ", "text of some length", "\xc2\x80", "\xf4\x8f\xbf\xbf", "\xe0\xa0\x80" };
        return p[r.below(sizeof p / sizeof *p)];
    }
    std::string intact_text(std::int64_t seed, std::int64_t pieces)
    {
        Rng r(static_cast<std::uint64_t>(seed) * 31 + 7);
        std::string o;
        for (std::int64_t i = 0; i < pieces; ++i)
            o += piece(r);
        return o;
    }

    // ------------------------------------------------------------ reference, for intact text
    struct Text {
        std::string bytes;
        std::vector<std::size_t> chars; //< character a byte belongs to
        std::size_t count = 0;
        std::vector<std::size_t> lines; //< first character of each line
        explicit Text(const std::string& b) : bytes(b)
        {
            lines.push_back(0);
            for (std::size_t i = 0; i < b.size(); ++i) {
                if ((static_cast<unsigned char>(b[i]) & 0xc0) != 0x80)
                    ++count;
                chars.push_back(count - 1);
                if (b[i] == '\n')
                    lines.push_back(count);
            }
        }
    };

    std::string nums(const std::vector<std::size_t>& v)
    {
        std::string o;
        for (std::size_t i = 0; i < v.size() && i < 40; ++i)
            o += (i ? "," : "") + std::to_string(v[i]);
        return o;
    }

    template <typename F>
    void sut(const char* what, int id, F f)
    {
        try {
            sim::SutScope s(what, id);
            f();
        } catch (const std::exception& e) {
            sim::violate("damage-exception", what, std::string(what) + " of a damaged source ended with an exception: " + e.what());
        } catch (...) {
            sim::violate("damage-exception", what, std::string(what) + " of a damaged source ended with an exception");
        }
    }

    void wrong(const char* what, const std::string& msg)
    {
        sim::violate("damage", what, msg);
    }

    void exec(const Plan& plan)
    {
        sim::io_start();
        std::string good;
        for (const auto& l : plan.lines)
            if (l.kind == "source")
                good = intact_text(l.num(0), l.num(1));
        std::string now = good;
        std::size_t same = good.size(); //< bytes before this one are undamaged
        for (const auto& l : plan.lines) {
            if (l.kind != "damage" || sim::is_ref())
                continue;
            const auto at = static_cast<std::size_t>(l.num(1));
            const auto n = static_cast<std::size_t>(l.num(2));
            const std::string& k = l.str(0);
            if (at >= now.size())
                continue;
            if (k == "cut") {
                count(c_cut);
                if ((static_cast<unsigned char>(now[at]) & 0xc0) == 0x80)
                    count(c_tail);
                now.resize(at);
            } else if (k == "flip") {
                count(c_flip);
                now[at] = static_cast<char>(now[at] ^ (1 << (n & 7)));
            } else if (k == "zero") {
                count(c_zero);
                now[at] = '\0';
            } else if (k == "set") {
                count(c_set);
                now[at] = static_cast<char>(n);
            } else if (k == "lose") {
                count(c_lost);
                now.erase(at, n);
            } else if (k == "double") {
                count(c_twice);
                now.insert(at, now.substr(at, n));
            }
            same = std::min(same, at);
        }
        if (now == good) {
            same = good.size();
            count(c_intact);
        }
        const bool intact = now == good;
        const Text t(good);
        // whole characters before the damage
        std::size_t sure = same;
        while (sure > 0 && sure < good.size() && (static_cast<unsigned char>(good[sure]) & 0xc0) == 0x80)
            --sure;
        const std::size_t sure_chars = sure < good.size() ? (sure ? t.chars[sure - 1] + 1 : 0) : t.count;
        // kept in a block of its exact size, so that nothing beyond it is touched unnoticed
        auto exact = [](const std::string& s) {
            std::string o;
            o.reserve(s.size() > 15 ? s.size() : 16);
            o = s;
            o.shrink_to_fit();
            return o;
        };
        const std::string source = exact(now);

        for (const auto& l : plan.lines) {
            if (l.kind != "op")
                continue;
            const int id = static_cast<int>(l.num(0));
            const std::string& op = l.str(2);
            const auto a = static_cast<std::size_t>(l.num(3)), b = static_cast<std::size_t>(l.num(4));
            const auto c = static_cast<std::size_t>(l.num(5)), d = static_cast<std::size_t>(l.num(6));
            sim::event("op %d %s", id, op.c_str());
            count(c_ops);
            if (op == "index") {
                mdp::ByteBufferCharacterIndex index;
                sut("indexing the characters", id, [&] { mdp::BuildCharacterIndex(index, source); });
                if (index.size() != source.size())
                    wrong("index", "the character index has not one entry per byte");
                for (std::size_t i = 0; i < sure; ++i)
                    if (index[i] != t.chars[i])
                        wrong("index",
                            "byte " + std::to_string(i) + ", before the damage at " + std::to_string(same) + ", is said to belong to character "
                                + std::to_string(index[i]) + " and not " + std::to_string(t.chars[i]));
                for (auto v : index)
                    if (v >= source.size())
                        wrong("index", "a byte is said to belong to character " + std::to_string(v) + " of " + std::to_string(source.size()) + " bytes");
                sim::event("index %016llx", static_cast<unsigned long long>(sim::fnv(index.data(), index.size() * sizeof index[0])));
            } else if (op == "lines") {
                drafter::NewLinesIndex lines;
                sut("indexing the lines", id, [&] { lines = drafter::GetLinesEndIndex(source); });
                std::vector<std::size_t> want;
                for (auto v : t.lines)
                    if (v <= sure_chars)
                        want.push_back(v);
                if (lines.size() < want.size() || !std::equal(want.begin(), want.end(), lines.begin()) || (intact && lines != t.lines))
                    wrong("lines",
                        "the lines before the damage at byte " + std::to_string(same) + " begin at characters " + nums(want) + ", said to: " + nums(lines));
                for (std::size_t i = 1; i < lines.size(); ++i)
                    if (lines[i] <= lines[i - 1] || lines[i] > source.size())
                        wrong("lines", "the lines are said to begin at characters " + nums(lines));
                // where the lines are, for any range at all
                const mdp::Range range(c, d);
                drafter::AnnotationPosition p;
                sut("locating a range", id, [&] { p = drafter::GetLineFromMap(lines, range); });
                if (p.fromLine > lines.size() || p.toLine > lines.size())
                    wrong("lines", "a range is said to be on a line that is not there");
                const bool there = c <= sure_chars && d <= sure_chars && c + d <= sure_chars; // before the damage
                const oracle::Lines plain(good);
                const auto q = plain.place(c, d);
                if (there && (intact || q.from_line < want.size()) && (p.fromLine != q.from_line || p.fromColumn != q.from_column))
                    wrong("lines",
                        "character " + std::to_string(c) + " is said to be at " + std::to_string(p.fromLine) + ":" + std::to_string(p.fromColumn)
                            + " and not " + std::to_string(q.from_line) + ":" + std::to_string(q.from_column));
                if (there && d && (intact || q.to_line < want.size()) && (p.toLine != q.to_line || p.toColumn != q.to_column))
                    wrong("lines",
                        "a range that ends at " + std::to_string(q.to_line) + ":" + std::to_string(q.to_column) + " is said to end at "
                            + std::to_string(p.toLine) + ":" + std::to_string(p.toColumn));
                sim::event("lines %zu %zu:%zu %zu:%zu", lines.size(), p.fromLine, p.fromColumn, p.toLine, p.toColumn);
            } else if (op == "utf8") {
                std::vector<std::size_t> cps;
                sut("decoding", id, [&] {
                    drafter::utils::utf8::input_iterator<std::string::const_iterator> it(source), e{ source.end(), source.end() };
                    for (; it != e; ++it) {
                        sim::HarnessScope h;
                        cps.push_back(*it);
                        if (cps.size() > source.size())
                            break;
                    }
                });
                if (cps.size() > source.size())
                    wrong("utf8", "more characters were decoded than there are bytes");
                for (auto v : cps)
                    if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000))
                        wrong("utf8", "decoded " + std::to_string(v) + ", which is no character");
                std::vector<std::size_t> want;
                for (std::size_t i = 0; i < sure;) {
                    const auto u = static_cast<unsigned char>(good[i]);
                    const std::size_t n = u < 0x80 ? 1 : u < 0xe0 ? 2 : u < 0xf0 ? 3 : 4;
                    std::size_t v = n == 1 ? u : u & (0xff >> (n + 1));
                    for (std::size_t k = 1; k < n; ++k)
                        v = (v << 6) | (static_cast<unsigned char>(good[i + k]) & 0x3f);
                    want.push_back(v);
                    i += n;
                }
                if (cps.size() < want.size() || !std::equal(want.begin(), want.end(), cps.begin()) || (intact && cps.size() != want.size()))
                    wrong("utf8", "the characters before the damage are " + nums(want) + ", decoded " + nums(cps));
                // and encoding brings back what was decoded
                std::string back;
                sut("encoding", id, [&] {
                    for (auto v : cps)
                        drafter::utils::utf8::encode(static_cast<drafter::utils::utf8::codepoint>(v), std::back_inserter(back));
                });
                if (back.compare(0, sure, good, 0, sure) != 0 || (intact && back != good))
                    wrong("utf8", "encoding the characters before the damage did not give their bytes");
                sim::event("utf8 %zu %016llx", cps.size(), static_cast<unsigned long long>(sim::fnv(back)));
            } else if (op == "ranges" || op == "indexed" || op == "consecutive" || op == "together") {
                mdp::BytesRangeSet set;
                set.push_back(mdp::BytesRange(a, b));
                set.push_back(mdp::BytesRange(c, d));
                mdp::CharactersRangeSet got;
                mdp::ByteBufferCharacterIndex index;
                if (op != "ranges")
                    sut("indexing the characters", id, [&] { mdp::BuildCharacterIndex(index, source); });
                sut("mapping byte ranges to characters", id, [&] {
                    got = op == "ranges" ? mdp::BytesRangeSetToCharactersRangeSet(set, source)
                        : op == "indexed" ? mdp::BytesRangeSetToCharactersRangeSet(set, index)
                                          : mdp::BytesRangeSetToConsecutiveCharactersRangeSet(set, index);
                });
                if (op == "consecutive" || op == "together") {
                    if (source.empty() ? got.size() > 1 : got.size() != 1)
                        wrong("ranges", "a consecutive range is not one range");
                    const auto from = set[0].location, to = set[1].location + set[1].length;
                    auto edge = [&good](std::size_t i) { return i >= good.size() || (static_cast<unsigned char>(good[i]) & 0xc0) != 0x80; };
                    if (got.size() == 1 && from <= to && set[1].length < sure && to < sure && to < source.size() && edge(from) && edge(to)) {
                        const auto loc = t.chars[from], len = t.chars[to] - t.chars[from];
                        const auto& g = got[0];
                        const std::string msg = "bytes " + std::to_string(from) + " to " + std::to_string(to)
                            + ", before the damage, became together characters " + std::to_string(g.location) + ":" + std::to_string(g.length)
                            + " and not " + std::to_string(loc) + ":" + std::to_string(len);
                        if (g.location == loc && g.length == len)
                            ;
                        else if (g.location == from && g.length == to) { // begin and end in bytes: known, and not looked for each time
                            if (op == "together")
                                wrong("consecutive-is-begin-and-end-in-bytes", msg);
                        } else
                            wrong("ranges", msg);
                    }
                } else if (got.size() != 2)
                    wrong("ranges", "two ranges became " + std::to_string(got.size()));
                else
                    for (int k = 0; k < 2; ++k) {
                        const auto& r = set[static_cast<std::size_t>(k)];
                        const auto& g = got[static_cast<std::size_t>(k)];
                        if (!source.empty() && (g.location > source.size() || g.length > source.size() + 1))
                            wrong("ranges",
                                "bytes " + std::to_string(r.location) + ":" + std::to_string(r.length) + " of " + std::to_string(source.size())
                                    + " became characters " + std::to_string(g.location) + ":" + std::to_string(g.length));
                        // of whole characters before the damage
                        const auto e = r.location + r.length;
                        auto edge = [&good](std::size_t i) { return i >= good.size() || (static_cast<unsigned char>(good[i]) & 0xc0) != 0x80; };
                        auto character = [&t](std::size_t i) { return i < t.chars.size() ? t.chars[i] : t.count; };
                        if (!source.empty() && r.location <= sure && r.length <= sure && e <= sure && (intact || e < sure) && edge(r.location) && edge(e)) {
                            const auto loc = character(r.location);
                            const auto len = character(e) - loc;
                            if (g.location != loc || g.length != len)
                                wrong("ranges",
                                    "bytes " + std::to_string(r.location) + ":" + std::to_string(r.length) + ", before the damage, became characters "
                                        + std::to_string(g.location) + ":" + std::to_string(g.length) + " and not " + std::to_string(loc) + ":"
                                        + std::to_string(len));
                        }
                    }
                for (const auto& g : got)
                    sim::event("range %zu:%zu", g.location, g.length);
            } else if (op == "map") {
                mdp::BytesRangeSet set;
                set.push_back(mdp::BytesRange(a, b));
                set.push_back(mdp::BytesRange(c, d));
                std::string got;
                sut("mapping byte ranges to bytes", id, [&] { got = mdp::MapBytesRangeSet(set, source); });
                std::string want;
                bool right = !source.empty();
                for (const auto& r : set) {
                    const auto left = source.size() - std::min(r.location, source.size());
                    if (r.length > left || r.location > source.size()) {
                        // one more than there is: the newline that the parser adds
                        if (r.length - left == 1 && r.location <= source.size())
                            want += source.substr(r.location);
                        else
                            right = false;
                        break;
                    }
                    want += source.substr(r.location, r.length);
                }
                if (!right)
                    want.clear();
                if (got != want)
                    wrong("map", "ranges of the source gave " + sim::quote(got) + " and not " + sim::quote(want));
                sim::event("map %zu", got.size());
            } else if (op == "report") {
                snowcrash::Report r;
                r.error.code = 2;
                r.error.message = "damaged";
                r.error.location.push_back(mdp::CharactersRange(a, b));
                r.error.location.push_back(mdp::CharactersRange(c, d));
                const auto before = sim::channel("<stderr>").data.size();
                sut("reporting on", id, [&] { PrintReport(r, source, true); });
                const std::string said = sim::channel("<stderr>").data.substr(before);
                if (std::count(said.begin(), said.end(), '\n') != 2 || said.find("damaged; line ") == std::string::npos)
                    wrong("report", "a report on a damaged source is not one line: " + sim::quote(said));
                sim::event("report %016llx", static_cast<unsigned long long>(sim::fnv(said)));
            }
        }
        sim::leak_check("at the end");
        sim::io_stop();
    }

    void gen(Rng& r, Plan& p)
    {
        const auto pieces = r.chance(1, 150) ? r.below(40000) : r.chance(1, 6) ? r.below(4) : r.below(30);
        const auto seed = r.below(1000000);
        p.add("source", { S(static_cast<std::int64_t>(seed)), S(static_cast<std::int64_t>(pieces)) });
        const std::string good = intact_text(static_cast<std::int64_t>(seed), static_cast<std::int64_t>(pieces));
        static const char* const ops[] = { "index", "lines", "utf8", "ranges", "indexed", "consecutive", "map", "report" };
        const auto n = 1 + r.below(8);
        auto range = [&](std::initializer_list<int>) {
            const auto len = good.size();
            std::uint64_t a = r.below(len + 2), b;
            switch (r.below(5)) {
                case 0:
                    b = len - std::min<std::uint64_t>(a, len); // up to the end
                    break;
                case 1:
                    b = len - std::min<std::uint64_t>(a, len) + 1; // with the newline that is not there
                    break;
                case 2:
                    a = r.chance(1, 2) ? 0 : len + r.below(8); // at the end, or beyond
                    b = r.below(4);
                    break;
                default:
                    b = r.below(len + 4);
            }
            if (r.chance(1, 40)) // from a map that is damaged itself
                (r.chance(1, 2) ? a : b) = ~0ull - r.below(3);
            return std::make_pair(S(static_cast<std::int64_t>(a)), S(static_cast<std::int64_t>(b)));
        };
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto x = range({}), y = range({});
            p.add("op", { S(static_cast<std::int64_t>(p.lines.size())), "0", r.chance(1, 60) ? "together" : ops[r.below(8)], x.first, x.second, y.first, y.second });
        }
    }
    void faults(Rng& r, Plan& p, const Shared&)
    {
        std::string good;
        for (const auto& l : p.lines)
            if (l.kind == "source")
                good = intact_text(l.num(0), l.num(1));
        if (good.empty() || r.chance(1, 10))
            return;
        const auto n = 1 + r.below(3);
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto at = S(static_cast<std::int64_t>(r.chance(1, 3) ? good.size() - 1 - r.below(std::min<std::size_t>(good.size(), 4)) : r.below(good.size())));
            switch (r.below(7)) {
                case 0:
                case 1:
                    p.add("damage", { "cut", at, "0" });
                    break;
                case 2:
                    p.add("damage", { "flip", at, S(r.below(8)) });
                    break;
                case 3:
                    p.add("damage", { "zero", at, "0" });
                    break;
                case 4:
                    p.add("damage", { "set", at, S(0x80 + r.below(128)) });
                    break;
                case 5:
                    p.add("damage", { "lose", at, S(1 + r.below(9)) });
                    break;
                case 6:
                    p.add("damage", { "double", at, S(1 + r.below(9)) });
                    break;
            }
        }
    }
    const sim::Register a({ "damage", gen, faults, exec, "sources whose stored bytes are damaged" });
}
