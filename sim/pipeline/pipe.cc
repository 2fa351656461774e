// Histories of calls of the C interface on generated and damaged documents, with failing allocations.
#include <algorithm>
#include <map>
#include <memory>
#include <new>

#include "drafter.h"

#include "../engine/seams.h"
#include "../workloads/tree.h"
#include "doc.h"
#include "value.h"

using sim::count;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_ops = sim::counter("pipe.calls");
    const int c_abandoned = sim::counter("pipe.calls-that-failed-for-lack-of-memory");
    const int c_survived = sim::counter("pipe.calls-that-succeeded-despite-a-failure");
    const int c_said = sim::counter("pipe.results-that-say-that-memory-ran-out");
    const int c_decoded = sim::counter("pipe.serializations-decoded");
    const int c_maps = sim::counter("pipe.source-maps-checked");
    const int c_covers = sim::counter("pipe.texts-found-under-their-source-map");
    const int c_ok = sim::counter("pipe.documents-without-error");
    const int c_err = sim::counter("pipe.documents-with-error");
    const int c_ann = sim::counter("pipe.annotations");
    const int c_elements = sim::counter("pipe.elements");
    const int c_damage = sim::counter("fault.damaged-document");

    constexpr int Docs = 3, Results = 3;

    struct Pipe {
        std::vector<std::string> lines[Docs];
        std::string doc[Docs];
        drafter_result* result[Results] = {};
        std::string made_of[Results]; //< document of the result
        bool misplaced = false; //< look for the known finding as well
        std::map<std::string, std::string> memory; //< call and document: its outcome
    };
    Pipe* p_;

    struct Attempt {
        bool failed = false; //< for lack of memory, and it said so
        std::string outcome;
        std::uint64_t seen = 0, fired = 0;
    };

    const Node* attr(const Node& n, const char* k)
    {
        for (const auto& a : n.attrs)
            if (a.first == k)
                return &a.second;
        return nullptr;
    }
    bool classed(const Node& n, const char* c)
    {
        for (const auto& m : n.meta)
            if (m.first == "classes")
                for (const auto& k : m.second.kids)
                    if (k.scalar == c)
                        return true;
        return false;
    }
    std::string quoted_doc(const std::string& d)
    {
        return "of\n----\n" + d.substr(0, 900) + "\n----";
    }

    // ------------------------------------------------------------ what every result must be like
    std::size_t characters(const std::string& s)
    {
        std::size_t n = 0;
        for (char c : s)
            n += (static_cast<unsigned char>(c) & 0xc0) != 0x80;
        return n;
    }
    // Annotations that are located by bytes: known findings, and not looked for each time
    const char* misplaced(const Node& n)
    {
        if (n.scalar.find("is expected to be a pre-formatted code block, every of its line indented by exactly") != std::string::npos)
            return "indentation-warning"; // begin and end
        const Node* c = attr(n, "code");
        if (c && std::atoi(c->scalar.c_str()) == 4 /* MSON */)
            return "conversion-in-bytes";
        return nullptr;
    }
    void check_map(const Node& map, const std::string& doc, std::size_t chars, bool whole, const char* key = "outside")
    {
        // [[location, length], ...]
        for (const auto& sm : map.kids) {
            if (sm.name != "sourceMap")
                sim::violate("sourcemap", "shape", "a source map is not an array of source maps, " + quoted_doc(doc));
            long long last = -1;
            for (const auto& range : sm.kids) {
                count(c_maps);
                if (range.type != 'A' || range.kids.size() != 2 || range.kids[0].type != 'N' || range.kids[1].type != 'N')
                    sim::violate("sourcemap", "shape", "an entry of a source map is not a pair of numbers: " + range.text());
                const long long at = std::atoll(range.kids[0].scalar.c_str());
                const long long n = std::atoll(range.kids[1].scalar.c_str());
                if (whole && (at < 0 || n < 0 || at + n > static_cast<long long>(chars)))
                    sim::violate("sourcemap",
                        key,
                        "a source map entry " + std::to_string(at) + ":" + std::to_string(n) + " lies outside of the "
                            + std::to_string(chars) + (key == std::string("bytes") ? " bytes " : " characters ") + quoted_doc(doc));
                (void)last;
                last = at;
            }
        }
    }
    // the text of an element is found, in order, in the text that its source map covers
    void check_covers(const Node& n, const Node& map, const std::string& doc)
    {
        std::string text;
        for (const auto& sm : map.kids)
            for (const auto& range : sm.kids) {
                const std::size_t at = static_cast<std::size_t>(std::atoll(range.kids[0].scalar.c_str()));
                const std::size_t len = static_cast<std::size_t>(std::atoll(range.kids[1].scalar.c_str()));
                if (at < doc.size())
                    text += doc.substr(at, len);
            }
        // a heading where a signature is expected is spelled with number signs, however it is in the source
        std::size_t from = 0;
        while (from < n.scalar.size() && n.scalar[from] == '#')
            ++from;
        const auto end_of_line = text.find('\n');
        const auto under = end_of_line == std::string::npos ? end_of_line : text.find_first_not_of(" \t\r\n", end_of_line);
        if (from > 2 || under == std::string::npos || (text[under] != '-' && text[under] != '='))
            from = 0;
        std::size_t i = 0;
        for (const char c : n.scalar.substr(from)) {
            if (c == ' ' || c == '\n' || c == '\r' || c == '\t')
                continue;
            while (i < text.size() && text[i] != c)
                ++i;
            if (i == text.size())
                sim::violate("sourcemap",
                    "text",
                    "the text of an element is not in the part of the source that its source map covers: " + sim::quote(n.scalar) + ", covered: "
                        + sim::quote(text) + ", " + n.name + " " + quoted_doc(doc));
            ++i;
        }
        count(c_covers);
    }
    // what comes straight from the document has a source map: descriptions, titles, templates, methods, relations.
    // (A resource that is made for an action without one takes its title; other values may be implied.)
    void check_mapped(const Node& n, const std::string& doc)
    {
        const auto lacks = [&](const Node& k, const std::string& what) {
            if (k.type == 'S' && k.scalar.find_first_not_of(" \t\r\n") != std::string::npos && !attr(k, "sourceMap"))
                sim::violate("sourcemap", ("none-" + what).c_str(), what + " " + sim::quote(k.scalar) + " has no source map, " + quoted_doc(doc));
        };
        if (n.name == "copy")
            lacks(n, "copy");
        for (const auto& m : n.meta)
            if (m.first == "description" || (m.first == "title" && n.name != "resource"))
                lacks(m.second, m.first);
        for (const auto& m : n.attrs)
            if (m.first == "href" || m.first == "method" || m.first == "relation")
                lacks(m.second, m.first);
    }
    void check_result(const Node& root, int code, const std::string& doc, bool told)
    {
        if (root.type != 'A' || root.name != "parseResult")
            sim::violate("result", "root", "the result of parsing is no parse result but " + root.text().substr(0, 200));
        int errors = 0, others = 0;
        bool annotations = false;
        for (const auto& k : root.kids) {
            if (k.name == "annotation") {
                count(c_ann);
                const Node* c = attr(k, "code");
                if (!c || c->type != 'N')
                    sim::violate("result", "annotation-code", "an annotation has no code: " + k.text().substr(0, 300));
                if (k.scalar.empty())
                    sim::violate("result", "annotation-text", "an annotation says nothing, " + quoted_doc(doc));
                if (classed(k, "error")) {
                    ++errors;
                    if (std::atoi(c->scalar.c_str()) != code)
                        sim::violate("result", "code", "the error annotation has code " + c->scalar + ", the call returned " + std::to_string(code));
                    if (annotations)
                        sim::violate("result", "order", "the error annotation is not the first, " + quoted_doc(doc));
                } else if (!classed(k, "warning"))
                    sim::violate("result", "annotation-class", "an annotation is neither error nor warning");
                annotations = true;
            } else {
                ++others;
                if (annotations)
                    sim::violate("result", "order", "something follows the annotations, " + quoted_doc(doc));
                if (k.name != "category" || !classed(k, "api"))
                    sim::violate("result", "content", "a parse result holds something that is neither API nor annotation");
            }
        }
        if (errors != (code != 0))
            sim::violate("result",
                "errors",
                "the call returned " + std::to_string(code) + ", and there are " + std::to_string(errors) + " errors, " + quoted_doc(doc));
        if (others > 1)
            sim::violate("result", "content", "more than one API in a parse result");
        (void)told;
        // every source map lies in the source: those of elements count bytes, those of annotations characters
        const bool whole = valid_utf8(doc);
        const std::size_t chars = characters(doc);
        Node copy = root;
        copy.each([&](Node& n) {
            count(c_elements);
            if (whole)
                check_mapped(n, doc);
            if (const Node* m = attr(n, "sourceMap")) {
                if (n.name != "annotation") {
                    check_map(*m, doc, doc.size() + 1, true, "bytes"); // Markdown sees a newline at the end
                    if (n.type == 'S' && !n.empty && whole)
                        check_covers(n, *m, doc);
                    if (n.type == 'M' && whole) // a header, or metadata: one map for both
                        for (const auto& k : n.kids)
                            if (k.type == 'S' && !k.empty && k.scalar != "Content-Type") // that one may be implied
                                check_covers(k, *m, doc);
                } else if (const char* key = misplaced(n)) {
                    if (p_->misplaced)
                        check_map(*m, doc, chars, whole, key);
                    else if (*key == 'c')
                        check_map(*m, doc, doc.size() + 1, whole, "bytes");
                } else
                    check_map(*m, doc, chars + 1, whole);
            }
        });
        count(code ? c_err : c_ok);
    }

    // ------------------------------------------------------------ one call
    struct Options {
        drafter_parse_options* parse = nullptr;
        drafter_serialize_options* out = nullptr;
        ~Options()
        {
            if (parse)
                drafter_free_parse_options(parse);
            if (out)
                drafter_free_serialize_options(out);
        }
    };

    Node node_of(const drafter_result* r)
    {
        return read(r);
    }

    // says that memory ran out, in the result
    bool says_so(const Node& root)
    {
        for (const auto& k : root.kids)
            if (k.name == "annotation" && classed(k, "error") && k.scalar.find("bad_alloc") != std::string::npos)
                return true;
        return false;
    }

    void check_serialized(const std::string& text, const Node& n, bool json, bool maps, const std::string& doc)
    {
        Val got;
        try {
            got = json ? read_json(text) : read_yaml(text);
        } catch (const Malformed& m) {
            std::size_t from = m.at > 80 ? m.at - 80 : 0;
            sim::violate("serialization",
                json ? "json" : "yaml",
                std::string("malformed ") + (json ? "JSON" : "YAML") + " at " + std::to_string(m.at) + ", " + m.what + ":\n"
                    + text.substr(from, 160) + "\n" + quoted_doc(doc));
        }
        count(c_decoded);
        if (!valid_utf8(doc))
            return;
        std::string where;
        if (!equal(got, expected_value(n, maps), where))
            sim::violate("serialization",
                json ? "json-content" : "yaml-content",
                std::string(json ? "JSON" : "YAML") + " says something else than the element it was made from, at " + where);
    }

    // runs one operation; allocations of the code under test fail as armed
    template <typename F>
    Attempt attempt(const char* name, int id, std::uint64_t nth, std::uint64_t burst, F f)
    {
        Attempt r;
        {
            sim::SutScope sut(name, id);
            sim::alloc_arm(nth, burst);
            try {
                r.outcome = f(r);
                sim::alloc_disarm();
            } catch (const std::exception& e) {
                sim::alloc_disarm();
                sim::HarnessScope h;
                sim::violate("exception", name, std::string("the C function of ") + name + " let an exception out: " + e.what());
            } catch (...) {
                sim::alloc_disarm();
                sim::violate("exception", name, std::string("the C function of ") + name + " let an exception out");
            }
            r.fired = sim::alloc_fired();
            r.seen = sim::alloc_seen();
        }
        return r;
    }

    Attempt call(const Line& l, std::uint64_t nth, std::uint64_t burst)
    {
        const int id = static_cast<int>(l.num(0));
        const std::string& name = l.str(2);
        const int a = static_cast<int>(l.num(3)), b = static_cast<int>(l.num(4));
        const int flags = static_cast<int>(l.num(5)), out_flags = static_cast<int>(l.num(6));
        auto options = [&](Options& o) {
            // 0: the default, a null pointer
            if (flags & 8) {
                o.parse = drafter_init_parse_options();
                if (o.parse) {
                    if (flags & 1)
                        drafter_set_name_required(o.parse);
                    if (flags & 2)
                        drafter_set_skip_gen_bodies(o.parse);
                    if (flags & 4)
                        drafter_set_skip_gen_body_schemas(o.parse);
                }
            }
            if (out_flags & 4) {
                o.out = drafter_init_serialize_options();
                if (o.out) {
                    if (out_flags & 1)
                        drafter_set_sourcemaps_included(o.out);
                    drafter_set_format(o.out, out_flags & 2 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
                }
            }
            return !((flags & 8) && !o.parse) && !((out_flags & 4) && !o.out);
        };
        const bool json = (out_flags & 4) && (out_flags & 2), maps = (out_flags & 4) && (out_flags & 1);

        if (name == "parse") {
            const std::string& doc = p_->doc[a];
            drafter_result*& slot = p_->result[b];
            return attempt("parse", id, nth, burst, [&](Attempt& r) -> std::string {
                drafter_free_result(slot);
                slot = nullptr;
                Options o;
                if (!options(o)) {
                    r.failed = true;
                    return "";
                }
                drafter_result* got = nullptr;
                const int code = drafter_parse_blueprint(doc.c_str(), &got, o.parse);
                sim::HarnessScope h;
                slot = got;
                p_->made_of[b] = doc;
                if (code < 0) {
                    if (got)
                        sim::violate("result", "status", "parsing failed with " + std::to_string(code) + " and gave a result");
                    r.failed = true;
                    return "";
                }
                if (!got)
                    sim::violate("result", "status", "parsing returned " + std::to_string(code) + " and gave no result");
                Node n = node_of(got);
                if (says_so(n)) {
                    r.failed = true;
                    count(c_said);
                    return "";
                }
                check_result(n, code, std::string(doc.c_str()), false);
                return std::to_string(code) + " " + n.text();
            });
        }
        if (name == "parseto") {
            const std::string& doc = p_->doc[a];
            return attempt("parseto", id, nth, burst, [&](Attempt& r) -> std::string {
                Options o;
                if (!options(o)) {
                    r.failed = true;
                    return "";
                }
                char* got = nullptr;
                const int code = drafter_parse_blueprint_to(doc.c_str(), b & 1 ? nullptr : &got, o.parse, o.out);
                std::string text;
                {
                    sim::HarnessScope h;
                    if (got)
                        text = got;
                }
                std::free(got);
                sim::HarnessScope h;
                if (code < 0 || (!got && !(b & 1))) {
                    r.failed = true;
                    return "";
                }
                // without a result there is but the status to say it
                if (text.find("bad_alloc") != std::string::npos || ((b & 1) && code != 0 && nth)) {
                    r.failed = true;
                    return "";
                }
                return std::to_string(code) + " " + text;
            });
        }
        if (name == "check") {
            const std::string& doc = p_->doc[a];
            return attempt("check", id, nth, burst, [&](Attempt& r) -> std::string {
                Options o;
                if (!options(o)) {
                    r.failed = true;
                    return "";
                }
                drafter_result* got = nullptr;
                const int code = drafter_check_blueprint(doc.c_str(), b & 1 ? nullptr : &got, o.parse);
                std::string text;
                bool said = false;
                {
                    sim::HarnessScope h;
                    if (got) {
                        Node n = node_of(got);
                        said = says_so(n);
                        text = n.text();
                    }
                }
                drafter_free_result(got);
                sim::HarnessScope h;
                if (code < 0 || said || ((b & 1) && code != 0 && nth)) {
                    r.failed = true;
                    return "";
                }
                return std::to_string(code) + " " + text;
            });
        }
        if (name == "serialize") {
            drafter_result* res = p_->result[a];
            return attempt("serialize", id, nth, burst, [&](Attempt& r) -> std::string {
                Options o;
                if (!options(o)) {
                    r.failed = true;
                    return "";
                }
                char* got = drafter_serialize(res, o.out);
                std::string text;
                {
                    sim::HarnessScope h;
                    if (got)
                        text = got;
                }
                std::free(got);
                sim::HarnessScope h;
                if (!res) {
                    if (got)
                        sim::violate("result", "status", "serializing nothing gave something");
                    return "nothing";
                }
                if (!got) {
                    r.failed = true;
                    return "";
                }
                check_serialized(text, node_of(res), json, maps, p_->made_of[a]);
                return text;
            });
        }
        if (name == "free") {
            return attempt("free", id, 0, 0, [&](Attempt&) -> std::string {
                drafter_free_result(p_->result[a]);
                p_->result[a] = nullptr;
                return "";
            });
        }
        if (name == "null") {
            return attempt("null", id, 0, 0, [&](Attempt&) -> std::string {
                char* c = nullptr;
                drafter_result* r = nullptr;
                if (drafter_parse_blueprint_to(nullptr, &c, nullptr, nullptr) != DRAFTER_EINVALID_INPUT || c
                    || drafter_parse_blueprint(nullptr, &r, nullptr) != DRAFTER_EINVALID_INPUT || r
                    || drafter_check_blueprint(nullptr, &r, nullptr) != DRAFTER_EINVALID_INPUT || r)
                    sim::violate("result", "status", "no source, and that was not told");
                drafter_free_result(nullptr);
                drafter_free_parse_options(nullptr);
                drafter_free_serialize_options(nullptr);
                return "";
            });
        }
        return Attempt();
    }

    // what calls that are the same must agree on: independent of everything that happened before
    std::string call_key(const Line& l)
    {
        const std::string& name = l.str(2);
        if (name == "parse" || name == "check" || name == "parseto") {
            std::string k = name + " " + S(name == "parse" ? 0 : l.num(4) & 1) + " " + S(l.num(5) & 8 ? l.num(5) & 7 : 0);
            if (name == "parseto")
                k += " " + S(l.num(6) & 4 ? l.num(6) & 3 : 0);
            return k + " " + p_->doc[l.num(3)].c_str();
        }
        return "";
    }

    void exec(const Plan& plan)
    {
        p_ = new Pipe;
        for (const auto& l : plan.lines)
            if (l.kind == "src")
                p_->lines[l.num(0) % Docs].push_back(sim::unquote(l.str(1)));
        for (int i = 0; i < Docs; ++i)
            for (const auto& l : p_->lines[i])
                p_->doc[i] += l + "\n";
        for (const auto& l : plan.lines)
            p_->misplaced = p_->misplaced || l.kind == "misplaced";
        // damage is part of the world, in the reference run as well
        for (const auto& l : plan.lines)
            if (l.kind == "damage") {
                auto& d = p_->doc[l.num(0) % Docs];
                d = damaged(d, l.str(1), static_cast<std::uint64_t>(l.num(2)), static_cast<std::uint64_t>(l.num(3)));
                count(c_damage);
            }
        for (const auto& l : plan.lines) {
            if (l.kind != "op")
                continue;
            const int id = static_cast<int>(l.num(0));
            sim::event("op %d %s", id, l.str(2).c_str());
            count(c_ops);
            Attempt r;
            bool done = false;
            std::uint64_t survived = 0;
            for (const auto& f : plan.lines) {
                if (f.kind != "alloc" || f.num(0) != id || done || sim::is_ref())
                    continue;
                const auto n = static_cast<std::uint64_t>(f.num(1)), burst = static_cast<std::uint64_t>(f.num(2));
                r = call(l, n, burst ? burst : ~0ull >> 1);
                sim::event("try %d n %llu fired %llu %s", id, static_cast<unsigned long long>(n),
                    static_cast<unsigned long long>(r.fired), r.failed ? "failed" : "done");
                if (r.failed) {
                    if (!r.fired)
                        sim::violate("wrong-answer", l.str(2), l.str(2) + " failed without a reason");
                    count(c_abandoned);
                } else {
                    done = true;
                    if (r.fired) {
                        count(c_survived);
                        survived = n;
                    }
                }
            }
            if (!done) {
                r = call(l, 0, 0);
                if (r.failed)
                    sim::violate("wrong-answer", l.str(2), l.str(2) + " failed without a reason, " + quoted_doc(p_->doc[l.num(3) % Docs]));
                if (sim::is_ref() && id >= 0 && id < sim::MaxResults)
                    sim::shared->results[id].allocs = static_cast<std::uint32_t>(r.seen);
            }
            const std::string key = call_key(l);
            if (!key.empty()) {
                auto it = p_->memory.find(key);
                if (it == p_->memory.end())
                    p_->memory.emplace(key, r.outcome);
                else if (it->second != r.outcome) {
                    std::size_t i = 0;
                    while (i < r.outcome.size() && i < it->second.size() && r.outcome[i] == it->second[i])
                        ++i;
                    i = i > 60 ? i - 60 : 0;
                    sim::violate(survived ? "wrong-answer" : "history",
                        l.str(2),
                        l.str(2) + " gives another result than the same call before:\n  " + it->second.substr(i, 300) + "\nand now\n  "
                            + r.outcome.substr(i, 300));
                }
            }
            if (survived && sim::expect->results[id].set && sim::expect->results[id].hash != sim::fnv(r.outcome))
                sim::violate("wrong-answer",
                    l.str(2),
                    l.str(2) + ": allocation " + std::to_string(survived) + " failed, no error was reported, and it gave\n  "
                        + r.outcome.substr(0, 700) + "\nand not\n  " + sim::expect->results[id].text);
            sim::result(id, l.str(2), r.outcome);
        }
        {
            sim::SutScope s("tear-down", -1);
            for (auto& r : p_->result) {
                drafter_free_result(r);
                r = nullptr;
            }
        }
        sim::leak_check("at the end");
        delete p_;
        p_ = nullptr;
    }

    // ------------------------------------------------------------ generation
    void document(Rng& r, Plan& p, int d, int budget, bool hurt)
    {
        DocStyle st;
        st.budget = budget;
        st.errors = r.chance(3, 4);
        st.unicode = r.chance(2, 3);
        st.mson = r.chance(5, 6);
        for (const auto& l : random_document(r, st))
            p.add("src", { S(d), sim::quote(l) });
        if (r.chance(1, 5)) {
            // ends without a newline, in a short line now and then
            static const char* const last[] = { "x", "}", "\xc3\xa9", "+ x", "        }", "    x", "# x", "            x" };
            if (r.chance(1, 2)) {
                if (r.chance(3, 4))
                    p.add("src", { S(d), sim::quote("") });
                if (r.chance(1, 3))
                    p.add("src", { S(d), sim::quote(r.chance(1, 2) ? "{" : "        {") });
                p.add("src", { S(d), sim::quote(last[r.below(8)]) });
            }
            p.add("damage", { S(d), "open", "0", "0" });
        }
        if (hurt)
            for (auto n = 1 + r.below(3); n; --n)
                p.add("damage", { S(d), damages[r.below(static_cast<std::uint64_t>(damages_count))], S(static_cast<std::int64_t>(r.below(4000))), S(static_cast<std::int64_t>(r.below(4000))) });
    }
    void gen(Rng& r, Plan& p, unsigned hurt)
    {
        const int docs = 1 + static_cast<int>(r.below(r.chance(1, 2) ? 1 : 3));
        for (int d = 0; d < docs; ++d)
            document(r, p, d, r.chance(1, 6) ? 60 : 4 + static_cast<int>(r.below(24)), r.chance(hurt, 12));
        if (r.chance(1, 100))
            p.add("misplaced", {});
        const auto n = 1 + r.below(5);
        std::int64_t id = 0;
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto d = S(static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(docs))));
            const auto flags = S(r.chance(1, 2) ? 0 : 8 + static_cast<std::int64_t>(r.below(8)));
            const auto out = S(r.chance(1, 6) ? 0 : 4 + static_cast<std::int64_t>(r.below(4)));
            const auto slot = S(static_cast<std::int64_t>(r.below(Results)));
            switch (i ? r.below(9) : 0) {
                case 0:
                case 1:
                case 2:
                    p.add("op", { S(id++), "0", "parse", d, slot, flags, "0" });
                    if (r.chance(3, 4))
                        p.add("op", { S(id++), "0", "serialize", slot, "0", "0", out });
                    break;
                case 3:
                    p.add("op", { S(id++), "0", "parseto", d, S(r.chance(1, 8)), flags, out });
                    break;
                case 4:
                    p.add("op", { S(id++), "0", "check", d, S(r.chance(1, 8)), flags, "0" });
                    break;
                case 5:
                case 6:
                    p.add("op", { S(id++), "0", "serialize", slot, "0", "0", out });
                    break;
                case 7:
                    p.add("op", { S(id++), "0", "free", slot, "0", "0", "0" });
                    break;
                default:
                    p.add("op", { S(id++), "0", "null", "0", "0", "0", "0" });
            }
        }
    }
    void gen_sound(Rng& r, Plan& p)
    {
        gen(r, p, 1);
    }
    void gen_damaged(Rng& r, Plan& p)
    {
        gen(r, p, 10);
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        const auto there = p.lines;
        for (const auto& l : there) {
            if (l.kind != "op")
                continue;
            const auto id = l.num(0);
            const std::uint64_t n = ref.results[id].allocs;
            if (!ref.results[id].set || !n || !r.chance(2, 3))
                continue;
            for (auto k = 1 + r.below(4); k; --k)
                p.add("alloc", { S(id), S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, id))), S(r.chance(1, 4) ? 0 : 1 + static_cast<std::int64_t>(r.below(2))) });
        }
    }
    void faults_few(Rng& r, Plan& p, const Shared& ref)
    {
        if (r.chance(1, 6))
            faults(r, p, ref);
    }

    const sim::Register a({ "pipe-history", gen_sound, faults_few, exec, "the C interface on documents" });
    const sim::Register b({ "pipe-damage", gen_damaged, faults_few, exec, "the C interface on damaged documents" });
    const sim::Register c({ "pipe-oom", gen_sound, faults, exec, "the C interface, allocations fail" });
}
