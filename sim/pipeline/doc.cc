#include "doc.h"

using sim::Rng;

namespace
{
    struct Writer {
        Rng& r;
        DocStyle style;
        std::vector<std::string> out;
        int budget;
        std::vector<std::string> types;  //< names of data structures, defined or not
        std::vector<std::string> models;
        std::string later;

        Writer(Rng& rng, DocStyle s) : r(rng), style(s), budget(s.budget)
        {
            static const char* const names[] = { "User", "Note", "Address Book", "Tag", "Coupon-Base", "Plan B", "Ünïcode" };
            const auto n = 1 + r.below(5);
            for (std::uint64_t i = 0; i < n; ++i)
                types.push_back(names[r.below(style.unicode ? 7 : 6)]);
            if (r.chance(1, 4)) // referred to, and perhaps defined later
                models.push_back(later = word());
        }
        bool error(unsigned den = 24)
        {
            return style.errors && r.chance(1, den);
        }
        void line(int indent, const std::string& s)
        {
            out.push_back(std::string(static_cast<std::size_t>(indent * 4), ' ') + s);
            --budget;
        }
        void blank()
        {
            out.push_back("");
        }

        std::string word()
        {
            static const char* const w[] = { "alpha", "id", "name", "value", "count", "created_at", "is-open", "x", "list",
                "total amount", "tags", "kind", "a.b", "first", "última", "名前", "ß", "𝔘", "7", "tab\\_le", "it's" };
            return w[r.below(style.unicode ? 21 : 14)];
        }
        std::string words(int n)
        {
            std::string s;
            for (int i = 0; i < n; ++i)
                s += (i ? " " : "") + word();
            return s;
        }
        std::string sentence()
        {
            switch (r.below(9)) {
                case 0:
                    return "See *" + word() + "* and **" + word() + "** or `" + word() + "`.";
                case 1:
                    return "A [link](http://example.com/" + word() + ") to " + word();
                case 2:
                    return words(1 + static_cast<int>(r.below(30)));
                case 3:
                    return "\"quoted\" \\ slash, {brace} & <tag> " + word();
                case 4:
                    return style.unicode ? "Žluťoučký kůň 🐎 " + word() + "\u2028x\u00a0y\u0085" : words(3);
                default:
                    return words(2 + static_cast<int>(r.below(5))) + ".";
            }
        }
        void text(int indent)
        {
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n; ++i)
                line(indent, sentence());
            if (r.chance(1, 5)) {
                blank();
                if (r.chance(1, 3))
                    line(indent, "> " + sentence());
                else if (r.chance(1, 2)) {
                    line(indent, "1. " + sentence());
                    line(indent, "2. " + sentence());
                } else
                    switch (r.below(8)) {
                        case 0:
                            line(indent, r.chance(1, 2) ? "---" : "***");
                            break;
                        case 1:
                            line(indent, "a | b");
                            line(indent, "--|--");
                            line(indent, word() + " | " + word());
                            break;
                        case 2:
                            line(indent, "```");
                            line(indent, word());
                            line(indent, "```");
                            break;
                        case 3:
                            line(indent, "![" + word() + "](/" + word() + ".png) <http://" + word() + "> \\* &amp; &#65; ~~" + word() + "~~");
                            break;
                        case 4:
                            line(indent, "[" + word() + "]: http://example.com/ \"" + word() + "\"");
                            break;
                        case 5:
                            line(indent, "### " + word());
                            break;
                        default:
                            line(indent, r.chance(1, 2) ? "<div>" + word() + "</div>" : "    code " + word());
                    }
            }
            blank();
        }

        // -------------------------------------------------------- MSON
        std::string primitive()
        {
            static const char* const p[] = { "string", "number", "boolean" };
            return p[r.below(3)];
        }
        std::string named()
        {
            if (error(50)) {
                static const char* const reserved[] = { "string", "array", "object", "enum", "extend", "ref", "null", "member", "Object" };
                return reserved[r.below(9)];
            }
            return r.pick(types);
        }
        std::string type(int depth)
        {
            switch (r.below(11)) {
                case 0:
                    return "object";
                case 1:
                    return r.chance(1, 3) ? "array" : "array[" + type_list(depth) + "]";
                case 2:
                    return r.chance(1, 3) ? "enum" : "enum[" + (r.chance(1, 4) ? named() : primitive()) + "]";
                case 3:
                case 4:
                    return named();
                case 5:
                    return error(3) ? "*" + word() + "*" : "array[" + named() + "]";
                case 6:
                    if (depth > 0 && r.chance(1, 2))
                        return (r.chance(1, 2) ? "array[" : "enum[") + type(depth - 1) + "]";
                    // fall through
                default:
                    return primitive();
            }
        }
        std::string type_list(int depth)
        {
            std::string s = depth > 1 ? type(depth - 1) : primitive();
            while (r.chance(1, 4))
                s += ", " + (r.chance(1, 2) ? named() : primitive());
            return s;
        }
        std::string literal(const std::string& t)
        {
            static const char* const n[] = { "42", "-1", "0", "3.14", "1e5", "-0.5E-2", "1000000000000000000000", "0.1" };
            static const char* const bad[] = { "007", "+5", ".5", "5.", "0x10", "nan", "--1", "1e", "1 2", "tru", "" };
            if (error(12))
                return bad[r.below(11)];
            if (t == "number")
                return n[r.below(8)];
            if (t == "boolean")
                return r.chance(1, 2) ? "true" : "false";
            switch (r.below(8)) {
                case 0:
                    return "`" + word() + ", " + word() + "`";
                case 1:
                    return "*" + word() + "*";
                case 2:
                    return style.unicode ? "héllo \"wörld\" \\ 漢字" : "hello";
                case 3:
                    return n[r.below(8)];
                case 4:
                    return "/path/{" + word() + "}?x=1&y";
                default:
                    return word();
            }
        }
        std::string attributes(bool member, std::string& t, int depth)
        {
            std::string s;
            t.clear();
            auto put = [&](const std::string& x) { s += (s.empty() ? "" : ", ") + x; };
            if (r.chance(2, 3)) {
                t = type(depth);
                put(t);
            }
            static const char* const all[] = { "required", "optional", "fixed", "fixed-type", "nullable", "default", "sample" };
            while (r.chance(1, 3))
                put(all[member ? r.below(7) : 2 + r.below(4)]);
            if (style.fixed && r.chance(1, 3))
                put(r.chance(2, 3) ? "fixed" : "fixed-type");
            if (error(30))
                put(word());
            if (s.empty())
                return "";
            return " (" + s + (error(60) ? "" : ")");
        }
        static bool begins(const std::string& s, const char* p)
        {
            return s.compare(0, std::string(p).size(), p) == 0;
        }
        void nested(int indent, const std::string& t, int depth)
        {
            if (depth <= 0 || budget <= 0)
                return;
            const bool list = begins(t, "array") || begins(t, "enum");
            const bool object = t == "object" || (!list && t != "string" && t != "number" && t != "boolean");
            if (list) {
                const auto n = r.below(4);
                const bool section = r.chance(1, 5);
                if (section && n) {
                    line(indent, begins(t, "array") ? "+ Items" : "+ Members");
                    ++indent;
                }
                for (std::uint64_t i = 0; i < n && budget > 0; ++i) {
                    std::string it;
                    const std::string a = r.chance(1, 2) ? attributes(false, it, depth - 1) : "";
                    const std::string v = r.chance(2, 3) || a.empty() ? literal(it) : "";
                    if (r.chance(1, 16))
                        line(indent, "+ " + (r.chance(1, 2) ? "Include " + named() : std::string("One Of")));
                    else
                        line(indent, "+ " + v + a + (r.chance(1, 5) ? " - " + sentence() : ""));
                    if (r.chance(1, 8))
                        line(indent + 1, sentence());
                    if (r.chance(1, 2))
                        nested(indent + 1, it, depth - 1);
                }
                if (section && n)
                    --indent;
            } else if (object) {
                members(indent, depth - 1, 3);
            } else if (r.chance(1, 6)) { // values and descriptions of primitive types
                for (auto n = r.below(3); n; --n)
                    line(indent, r.chance(1, 4) ? sentence() : "+ " + literal(t));
            }
            if (r.chance(1, 6))
                samples(indent, t, depth - 1);
        }
        void samples(int indent, const std::string& t, int depth)
        {
            const std::string what = r.chance(1, 2) ? "Sample" : "Default";
            if (r.chance(1, 2)) {
                line(indent, "+ " + what + ": " + literal(t));
            } else {
                line(indent, "+ " + what);
                if (begins(t, "array") || begins(t, "enum") || t == "string" || t == "number" || t == "boolean") {
                    for (auto n = 1 + r.below(2); n; --n)
                        line(indent + 1, "+ " + literal(t) + (r.chance(1, 6) ? " (" + type(1) + ")" : ""));
                    if (r.chance(1, 5))
                        line(indent + 1, sentence());
                } else
                    members(indent + 1, depth - 1, 2);
            }
        }
        void members(int indent, int depth, unsigned many)
        {
            auto n = 1 + r.below(many);
            if (r.chance(1, 10)) {
                line(indent, "+ Properties");
                ++indent;
            }
            for (; n && budget > 0; --n) {
                switch (r.below(14)) {
                    case 0:
                        line(indent, "+ Include " + (error(6) ? word() : r.chance(1, 4) ? named() + " (" + named() + ")" : named()));
                        if (error(6))
                            property(indent + 1, depth - 1);
                        break;
                    case 2:
                        if (r.chance(1, 4)) { // mistakes: values, texts, sections that do not belong here
                            switch (r.below(5)) {
                                case 0:
                                    line(indent, "+ " + literal("number") + (r.chance(1, 2) ? " (number)" : ""));
                                    break;
                                case 1:
                                    line(indent, sentence());
                                    break;
                                case 2:
                                    samples(indent, "object", depth);
                                    break;
                                case 3:
                                    line(indent, r.chance(1, 2) ? "+ Items" : "+ Members");
                                    line(indent + 1, "+ " + word());
                                    break;
                                default:
                                    line(indent, "+");
                            }
                            break;
                        }
                        property(indent, depth);
                        break;
                    case 1:
                        if (depth > 0) {
                            line(indent, "+ One Of");
                            const auto k = 1 + r.below(3);
                            for (std::uint64_t i = 0; i < k; ++i)
                                if (r.chance(1, 3)) {
                                    line(indent + 1, "+ Properties");
                                    for (auto m = r.below(3) + 1; m; --m)
                                        property(indent + 2, depth - 2);
                                } else if (r.chance(1, 8)) {
                                    line(indent + 1, "+ Include " + named());
                                } else if (r.chance(1, 8)) {
                                    line(indent + 1, "+ One Of");
                                    property(indent + 2, depth - 2);
                                    property(indent + 2, depth - 2);
                                } else
                                    property(indent + 1, depth - 1);
                            break;
                        }
                        // fall through
                    default:
                        property(indent, depth);
                }
            }
        }
        std::string variable()
        {
            static const char* const odd[] = { "a.b", "x+y?", "^z$", "(p)", "{q}", "back\\\\slash", "s|t", "[u]", "rel*", "a, b", "" };
            std::string k = r.chance(1, 3) ? odd[r.below(11)] : word();
            switch (r.below(5)) {
                case 0:
                    k += " (" + named() + ")";
                    break;
                case 1:
                    k += r.chance(1, 3) ? " (string)" : r.chance(1, 2) ? " (string, fixed)" : " (number)";
                    break;
                case 2:
                    k += " (" + type(1) + (r.chance(1, 3) ? ", fixed" : "") + ")";
                    break;
                default:
                    break;
            }
            const char* e = r.chance(1, 2) ? "*" : "_";
            return e + k + (error(40) ? "" : e);
        }
        void property(int indent, int depth)
        {
            std::string t;
            const std::string a = attributes(true, t, 2);
            std::string key = r.chance(1, 5) ? "`" + word() + "`" : word();
            if (r.chance(1, 8))
                key = variable();
            std::string v;
            if (r.chance(1, 2)) {
                v = ": " + literal(t);
                if (r.chance(1, begins(t, "array") ? 2 : 12))
                    v += ", " + literal("");
            }
            line(indent, "+ " + key + v + a + (r.chance(1, 5) ? " - " + sentence() : ""));
            if (r.chance(1, 8))
                line(indent + 1, sentence());
            if (r.chance(2, 3))
                nested(indent + 1, t, depth);
        }
        void attributes_section(int indent)
        {
            std::string t;
            const std::string a = attributes(false, t, 2);
            line(indent, "+ Attributes" + a);
            if (t.empty())
                t = "object";
            if (r.chance(4, 5))
                nested(indent + 1, t, 3);
            blank();
        }
        void data_structures(int level)
        {
            line(0, std::string(static_cast<std::size_t>(level), '#') + " Data Structures");
            blank();
            const auto n = 1 + r.below(4);
            for (std::uint64_t i = 0; i < n && budget > 0; ++i) {
                std::string t;
                const std::string a = attributes(false, t, 2);
                line(0, std::string(static_cast<std::size_t>(level) + 1, '#') + " " + named() + a);
                if (r.chance(1, 3))
                    text(0);
                if (t.empty())
                    t = "object";
                const int head = level + 2;
                if (r.chance(1, 4)) {
                    const bool list = begins(t, "array") || begins(t, "enum");
                    line(0, std::string(static_cast<std::size_t>(head), '#')
                        + (r.chance(1, 4) ? (r.chance(1, 2) ? " Sample" : " Default") : list ? " Items" : " Properties"));
                }
                nested(0, t, 3);
                blank();
            }
        }

        // types that inherit from, contain and mix in one another, defined once, twice or not at all
        void web(int level)
        {
            line(0, std::string(static_cast<std::size_t>(level), '#') + " Data Structures");
            blank();
            const auto n = 2 + r.below(6);
            for (std::uint64_t i = 0; i < n; ++i) {
                std::string base;
                if (r.chance(2, 3))
                    base = " (" + (r.chance(5, 6) ? named() : r.chance(1, 2) ? "array[" + named() + "]" : "enum[" + named() + "]") + ")";
                line(0, std::string(static_cast<std::size_t>(level) + 1, '#') + " " + named() + base);
                for (auto k = r.below(4); k; --k)
                    switch (r.below(6)) {
                        case 0:
                            line(0, "+ Include " + named());
                            break;
                        case 1:
                            line(0, "+ " + word() + " (array[" + named() + "])");
                            break;
                        case 2:
                            line(0, "+ One Of");
                            line(1, "+ " + word() + " (" + named() + ")");
                            line(1, r.chance(1, 2) ? "+ Include " + named() : "+ " + word());
                            break;
                        case 3:
                            line(0, "+ " + word() + " (" + named() + ")");
                            line(1, r.chance(1, 2) ? "+ Include " + named() : "+ " + word() + " (" + named() + ")");
                            break;
                        default:
                            line(0, "+ " + word() + " (" + named() + ")");
                    }
                blank();
            }
        }

        // -------------------------------------------------------- API
        std::string media()
        {
            static const char* const m[] = { "application/json", "text/plain", "application/vnd.x+json", "application/xml",
                "text/html; charset=utf-8", "*/*", "application/schema+json", "image/*", "json", "a/b;c=\"d e\"" };
            return m[r.below(style.errors ? 10 : 5)];
        }
        std::string uri()
        {
            static const char* const u[] = { "/", "/users", "/users/{id}", "/a/{b}/c{?q,page}", "/x{#frag}", "/{+path*}/y",
                "/a{?b*}{&c}", "/%20/{id}", "/{%41b}/{a.b}", "/p/{var:3}", "/n{?a,b,c}{#d}", "/ü/{id", "/{a-b}", "/q?x={y}", "/{a}{b}{c}{d}", "/{?}",
                "/l{.x}", "/s{/x}", "/m{;x,y}", "/{a..b}", "/{.a.}", "{id}", "users/{id}", "http://h.example/{id}", "/{=x}", "/{a b}", "/[x]", "/{a}}",
                "/{{a}", "/{}", "/{%zz}" };
            return u[r.below(style.errors ? 30 : 10)];
        }
        std::string method()
        {
            static const char* const m[] = { "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "LINK", "FETCH" };
            return m[r.below(style.errors ? 9 : 5)];
        }
        void headers(int indent)
        {
            line(indent, "+ Headers");
            blank();
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n; ++i) {
                static const char* const h[] = { "X-Header: value", "Content-Type: application/json", "Accept: */*",
                    "Set-Cookie: a=b; c=\"d\"", "Location: /x/{y}", "Content-Length: 12", "Transfer-Encoding: chunked", "Empty:", "no colon", "X-Ünï: ü",
                    "A:b:c", ": value", "X (y): z", "Content-Type:", "X-Header: again" };
                line(indent + (error(8) ? 1 : 2), h[r.below(style.errors ? 15 : 7)]);
            }
            blank();
        }
        void parameters(int indent)
        {
            line(indent, "+ Parameters");
            blank();
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n && budget > 0; ++i) {
                static const char* const p[] = { "id", "q", "page", "b", "path", "y" };
                const std::string name = error(8) ? word() : p[r.below(6)];
                switch (r.below(4)) {
                    case 0: // the older way
                        line(indent + 1, "+ " + name + " = `" + literal("") + "` (" + (r.chance(1, 2) ? "required" : "optional")
                            + (error(8) ? ", required" : "") + ", " + primitive() + ", `" + word() + "`) ... " + sentence());
                        break;
                    case 1:
                        line(indent + 1, "+ " + name);
                        break;
                    default: {
                        static const char* const t[] = { "string", "number", "enum[string]", "array[string]", "boolean", "required",
                            "array", "enum", "object", "array[number]", "enum[number]" };
                        line(indent + 1, "+ " + name + (r.chance(1, 2) ? ": " + literal("") : "") + " (" + (r.chance(1, 12) ? named() : t[r.below(11)])
                            + (r.chance(1, 2) ? ", optional" : ", required") + ")" + (r.chance(1, 2) ? " - " + sentence() : ""));
                    }
                }
                if (r.chance(1, 4)) {
                    blank();
                    line(indent + 2, sentence());
                    blank();
                }
                if (r.chance(1, 4)) {
                    if (r.chance(3, 4))
                        line(indent + 2, (r.chance(1, 3) ? "+ Sample: " : "+ Default: ") + literal(""));
                    else {
                        line(indent + 2, r.chance(1, 2) ? "+ Sample" : "+ Default");
                        for (auto k = r.below(3); k; --k)
                            line(indent + 3, "+ " + literal(""));
                    }
                }
                if (r.chance(1, 4)) {
                    line(indent + 2, r.chance(1, 2) ? "+ Values" : "+ Members");
                    const auto k = r.below(4);
                    for (std::uint64_t j = 0; j < k; ++j)
                        line(indent + 3, "+ `" + word() + "`" + (r.chance(1, 4) ? " - " + sentence() : ""));
                }
            }
            blank();
        }
        void body_lines(int indent)
        {
            static const char* const b[] = { "{\"a\": 1, \"b\": [true, null]}", "Hello World!", "<xml a=\"b\">&amp;</xml>",
                "{\"broken\": ", "línea é 漢字", "\"\\u0041 \\\\ \\\"\"", "+ not a list", "# not a header" };
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n; ++i)
                line(indent, b[r.below(style.unicode ? 8 : 4)]);
        }
        void asset(int indent, const char* name)
        {
            line(indent, std::string("+ ") + name);
            blank();
            if (r.chance(1, 5)) {
                line(indent + 1, "```" + std::string(r.chance(1, 2) ? "json" : ""));
                body_lines(indent + 1);
                line(indent + 1, error(4) ? "~~~" : "```");
            } else {
                body_lines(indent + (error(5) ? 1 : 2));
            }
            blank();
        }
        void payload_body(int indent)
        {
            if (r.chance(1, 8) && !models.empty()) {
                line(indent, "[" + (error(3) ? word() : r.pick(models)) + "][]");
                blank();
                if (error(3))
                    r.chance(1, 2) ? headers(indent) : asset(indent, "Body");
                return;
            }
            if (style.bodies && r.chance(1, 3)) { // the whole payload is the body
                body_lines(indent + (error(6) ? 0 : 1));
                blank();
                return;
            }
            if (r.chance(1, 5))
                text(indent);
            if (r.chance(1, 4))
                headers(indent);
            if (style.mson && r.chance(1, 2))
                attributes_section(indent);
            if (style.bodies && r.chance(1, 2))
                asset(indent, "Body");
            if (r.chance(1, 4))
                asset(indent, "Schema");
            if (error(10))
                parameters(indent);
            if (error(12))
                asset(indent, r.chance(1, 2) ? "Body" : "Schema");
        }
        void response()
        {
            static const char* const c[] = { "200", "204", "404", "500", "304", "100", "", "2xx", "99999999999" };
            line(0, std::string("+ Response ") + c[r.below(style.errors ? 9 : 4)] + (r.chance(2, 3) ? " (" + media() + ")" : ""));
            blank();
            payload_body(1);
        }
        void request()
        {
            line(0, "+ Request" + (r.chance(1, 2) ? " " + word() : std::string()) + (r.chance(2, 3) ? " (" + media() + ")" : ""));
            blank();
            payload_body(1);
        }
        void relation(int indent)
        {
            line(indent, "+ Relation: " + (error(4) ? word() : std::string("self")));
            blank();
        }
        void action(int level)
        {
            const std::string h(static_cast<std::size_t>(level), '#');
            switch (r.below(4)) {
                case 0:
                    line(0, h + " " + method());
                    break;
                case 1:
                    line(0, h + " " + words(2) + " [" + method() + " " + uri() + "]");
                    break;
                default:
                    line(0, h + " " + words(2) + " [" + method() + "]");
            }
            blank();
            action_body();
        }
        void action_body()
        {
            if (r.chance(1, 3))
                text(0);
            if (r.chance(1, 8))
                relation(0);
            if (r.chance(1, 4))
                parameters(0);
            if (error(12))
                headers(0);
            if (style.mson && r.chance(1, 5))
                attributes_section(0);
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n && budget > 0; ++i) {
                for (auto k = r.chance(1, 3) ? 1 + r.below(2) : 0; k; --k)
                    request();
                for (auto k = error(10) ? 0 : r.chance(1, 5) ? 2 : 1; k; --k)
                    response();
            }
            if (error(12))
                switch (r.below(4)) {
                    case 0:
                        parameters(0);
                        break;
                    case 1:
                        attributes_section(0);
                        break;
                    case 2:
                        relation(0);
                        break;
                    default:
                        line(0, "+ Model");
                        blank();
                        payload_body(1);
                }
        }
        void resource(int level)
        {
            const std::string h(static_cast<std::size_t>(level), '#');
            std::string name = words(1 + static_cast<int>(r.below(2)));
            const bool awaited = !later.empty() && r.chance(1, 3);
            if (awaited)
                std::swap(name, later), later.clear();
            bool one = false;
            switch (awaited ? 3 : r.below(4)) {
                case 0:
                    line(0, h + " " + uri());
                    break;
                case 1:
                    line(0, h + " " + method() + " " + uri());
                    one = true;
                    break;
                case 2:
                    if (r.chance(1, 2)) {
                        line(0, h + " " + name + " [" + method() + " " + uri() + "]");
                        one = true;
                        break;
                    }
                    // fall through
                default:
                    line(0, h + " " + name + " [" + uri() + "]");
                    types.push_back(name);
            }
            blank();
            if (one) {
                action_body();
                if (error(10))
                    action(level + 1);
                return;
            }
            if (r.chance(1, 3))
                text(0);
            if (awaited || r.chance(1, 5)) {
                models.push_back(name);
                line(0, "+ " + (r.chance(1, 3) ? name + " " : std::string()) + "Model" + (r.chance(3, 4) ? " (" + media() + ")" : ""));
                blank();
                payload_body(1);
            }
            if (r.chance(1, 4))
                parameters(0);
            if (style.mson && r.chance(1, 3))
                attributes_section(0);
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n && budget > 0; ++i)
                action(error(12) ? level : level + 1);
        }
        void group(int level)
        {
            line(0, std::string(static_cast<std::size_t>(level), '#') + " Group " + words(1));
            blank();
            if (r.chance(1, 3))
                text(0);
            const auto n = 1 + r.below(3);
            for (std::uint64_t i = 0; i < n && budget > 0; ++i)
                resource(level + 1);
        }
        void document()
        {
            if (r.chance(1, 2)) {
                line(0, "FORMAT: 1A");
                if (r.chance(1, 2))
                    line(0, "HOST: https://api.example.com/" + word());
                if (error(8))
                    line(0, "FORMAT: 1A" + word());
                if (error(12))
                    line(0, "no metadata");
                blank();
            }
            if (!error(6)) {
                if (r.chance(1, 8)) {
                    line(0, words(2));
                    line(0, "=====");
                } else
                    line(0, "# " + words(2));
                if (r.chance(1, 2))
                    text(0);
                blank();
            }
            if (style.mson && r.chance(1, 40)) { // quite deep
                data_structures(1);
                for (int i = 0, n = 5 + static_cast<int>(r.below(40)); i < n; ++i)
                    line(i, "+ " + word() + (r.chance(1, 5) ? " (array)" : " (object)"));
                blank();
            }
            do {
                switch (r.below(5)) {
                    case 0:
                        group(1);
                        break;
                    case 1:
                    case 2:
                        if (style.mson) {
                            r.chance(1, 5) ? web(1) : data_structures(1);
                            break;
                        }
                        // fall through
                    default:
                        resource(r.chance(1, 4) ? 2 : 1);
                }
            } while (budget > 0 && !r.chance(1, 4));
        }
    };
}

namespace
{
    std::vector<std::string> fixture(Rng& r)
    {
        std::vector<std::string> v;
        for (const char* const* l = corpus[r.below(corpus_count)]; *l; ++l)
            v.push_back(*l);
        return v;
    }
    // a place between sections, or anywhere
    std::size_t seam(Rng& r, const std::vector<std::string>& v)
    {
        std::size_t i = r.below(v.size() + 1);
        if (r.chance(2, 3))
            while (i && i < v.size() && !v[i - 1].empty() && (v[i].empty() || (v[i][0] != '#' && v[i][0] != '+')))
                ++i;
        return i;
    }
    std::vector<std::string> from_fixtures(Rng& r, DocStyle style)
    {
        auto v = fixture(r);
        for (auto n = r.below(5); n; --n) {
            Writer w(r, style);
            w.budget = 8;
            const auto at = seam(r, v);
            const auto p = v.begin() + static_cast<std::ptrdiff_t>(at);
            switch (r.below(8)) {
                case 0: { // goes on as another one
                    const auto o = fixture(r);
                    const auto from = seam(r, o);
                    v.resize(at);
                    v.insert(v.end(), o.begin() + static_cast<std::ptrdiff_t>(from), o.end());
                    break;
                }
                case 1: { // holds a piece of another one
                    const auto o = fixture(r);
                    auto a = seam(r, o), b = seam(r, o);
                    if (a > b)
                        std::swap(a, b);
                    v.insert(p, o.begin() + static_cast<std::ptrdiff_t>(a), o.begin() + static_cast<std::ptrdiff_t>(std::min(b, a + 20)));
                    break;
                }
                case 2: { // a section more
                    r.chance(1, 2) ? w.data_structures(1) : r.chance(1, 2) ? w.resource(2) : w.action_body();
                    v.insert(p, w.out.begin(), w.out.end());
                    break;
                }
                default: { // another type, value or member
                    if (v.empty())
                        break;
                    auto i = r.below(v.size());
                    for (int k = 0; k < 8 && v[i].find_first_of("+-") == std::string::npos; ++k)
                        i = r.below(v.size());
                    std::string& l = v[i];
                    std::string t;
                    const auto open = l.find('('), close = l.find(')');
                    const bool has = open != std::string::npos && close != std::string::npos && open < close;
                    switch (r.below(4)) {
                        case 0:
                            if (has) {
                                static const char* const more[] = { ", fixed", ", required", ", nullable", ", fixed-type", ", sample", ", default", ", optional" };
                                l.insert(close, more[r.below(7)]);
                                break;
                            }
                            // fall through
                        case 1:
                            if (has)
                                l.erase(open, close - open + 1);
                            l += w.attributes(true, t, 2);
                            break;
                        case 2: {
                            const auto c = l.find(": ");
                            if (c != std::string::npos)
                                l = l.substr(0, c + 2) + w.literal("");
                            break;
                        }
                        default: {
                            const auto in = l.find_first_not_of(' ');
                            const auto depth = static_cast<int>((in == std::string::npos ? 0 : in) / 4);
                            r.chance(1, 3) ? w.members(depth + 1, 2, 2) : r.chance(1, 2) ? w.members(depth, 2, 2) : w.samples(depth + 1, "", 1);
                            v.insert(v.begin() + static_cast<std::ptrdiff_t>(i) + 1, w.out.begin(), w.out.end());
                        }
                    }
                }
            }
        }
        if (v.size() > 120)
            v.resize(120);
        return v;
    }
}

std::vector<std::string> random_document(Rng& r, DocStyle style)
{
    style.fixed = r.chance(1, 4);
    Writer w(r, style);
    if (style.errors && r.chance(1, 3)) {
        w.out = from_fixtures(r, style);
        if (!r.chance(1, 6))
            return w.out;
    }
    if (w.out.empty() && style.errors && r.chance(1, 30)) {
        // hardly a document
        const auto n = r.below(6);
        for (std::uint64_t i = 0; i < n; ++i)
            w.line(static_cast<int>(r.below(3)), r.chance(1, 2) ? w.sentence() : "+ " + w.word());
        return w.out;
    }
    if (w.out.empty())
        w.document();
    if (style.errors && r.chance(1, 6) && !w.out.empty()) {
        // a few lines lost, doubled, swapped or shifted, as an editor does
        for (auto n = 1 + r.below(3); n; --n) {
            const auto i = r.below(w.out.size());
            switch (r.below(4)) {
                case 0:
                    if (w.out.size() > 1)
                        w.out.erase(w.out.begin() + static_cast<std::ptrdiff_t>(i));
                    break;
                case 1:
                    w.out.insert(w.out.begin() + static_cast<std::ptrdiff_t>(i), w.out[i]);
                    break;
                case 2:
                    std::swap(w.out[i], w.out[r.below(w.out.size())]);
                    break;
                default:
                    w.out[i] = std::string(1 + r.below(6), ' ') + w.out[i];
            }
        }
    }
    return w.out;
}

const char* const damages[] = { "cut", "flip", "zero", "lose", "double", "overwrite", "insert", "swap" };
const int damages_count = 8;

std::string damaged(const std::string& text, const std::string& kind, std::uint64_t a, std::uint64_t b)
{
    std::string s = text;
    if (s.empty())
        return s;
    const std::size_t at = a % s.size();
    const std::size_t n = std::min<std::size_t>(1 + b % 64, s.size() - at);
    if (kind == "open") // the last line does not end
        s.erase(s.find_last_not_of('\n') + 1);
    else if (kind == "cut")
        s.resize(at);
    else if (kind == "flip")
        s[at] = static_cast<char>(s[at] ^ (1u << (b % 8)));
    else if (kind == "zero")
        s.replace(at, n, std::string(n, '\0'));
    else if (kind == "lose")
        s.erase(at, n);
    else if (kind == "double")
        s.insert(at, s.substr(at, n));
    else if (kind == "overwrite")
        for (std::size_t i = 0; i < n; ++i)
            s[at + i] = static_cast<char>((b * 31 + i * 17 + a) & 0xff);
    else if (kind == "insert") {
        static const char* const what[] = { "\t", "\r", "\xff", "\xf4\x90\x80\x80", "\xc3", "```\n", "    ", "\n\n", "+ ", "# ", "`",
            "(", "[", "]", ")", "\xef\xbb\xbf", "> ", "\\", "*", "_", ":", "{", "}" };
        s.insert(at, what[b % 23]);
    } else if (kind == "swap") {
        const std::size_t to = b % s.size();
        std::swap(s[at], s[to]);
    }
    return s;
}
