// The command line tool, from its arguments to its exit status: documents from files and the standard
// input, results to files and the standard output, while devices fail, disks fill up, memory runs out
// and the machine stops. What it must write is what the library gives for the same document.
#include <cstdlib>
#include <iostream>
#include <memory>
#include <new>

#include "drafter.h"

#include "../engine/seams.h"
#include "../workloads/oracle.h"
#include "../workloads/tree.h"
#include "doc.h"
#include "value.h"

using sim::Channel;
using sim::count;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

int drafter_main(int argc, const char* argv[]);

namespace
{
    const int c_runs = sim::counter("tool.runs");
    const int c_complete = sim::counter("tool.outputs-complete");
    const int c_failed = sim::counter("tool.failures-told");
    const int c_validated = sim::counter("tool.validations");
    const int c_exit = sim::counter("tool.gave-up");
    const int c_crashed = sim::counter("tool.machine-stopped");
    const int c_died = sim::counter("tool.ended-for-lack-of-memory");
    const int c_input = sim::counter("tool.input-lost");
    const int c_early = sim::counter("tool.input-ended-early");

    const char* const InFile = "in/input.apib";
    const char* const OutFile = "out/result of it.yaml";

    struct Tool {
        std::vector<std::string> args;
        bool in_file = false, out_file = false, json = false, validate = false, maps = false, lines = false;
        std::int64_t special = 0; //< 1: two inputs, 2: version, 3: help
        std::string doc, old;
        bool has_old = false;
        bool starved = false; //< allocations fail
    };
    Tool* t_;

    struct Expected {
        int code = 0;
        std::string out, err;
    };

    Channel& input()
    {
        return sim::channel(t_->in_file ? InFile : "<stdin>");
    }
    Channel& output()
    {
        return sim::channel(t_->out_file ? OutFile : "<stdout>");
    }
    bool input_failed()
    {
        const Channel& c = input();
        return sim::io_told(c) || (!t_->in_file && c.injected[sim::IO_EINTR]) || (t_->in_file && !c.exists);
    }
    bool failed(const Channel& c)
    {
        return sim::io_told(c) || (c.name[0] == '<' && c.injected[sim::IO_EINTR]);
    }
    bool prefix(const std::string& p, const std::string& of)
    {
        return p.size() <= of.size() && of.compare(0, p.size(), p) == 0;
    }
    std::string where(const std::string& a, const std::string& b)
    {
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        const std::size_t from = i > 40 ? i - 40 : 0;
        return "they differ at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ": "
            + sim::quote(a.substr(from, 100)) + " and " + sim::quote(b.substr(from, 100));
    }
    std::string command()
    {
        std::string o = "drafter";
        for (const auto& a : t_->args)
            o += " " + sim::quote(a);
        return o + " < " + std::to_string(t_->doc.size()) + " bytes";
    }

    // what the library gives for what has been read
    Expected expected()
    {
        sim::HarnessScope hs;
        Expected e;
        std::string doc = t_->doc;
        if (input().injected[sim::IO_EOF]) {
            count(c_early);
            if (input().pos < doc.size())
                doc.resize(input().pos);
        }
        drafter_result* r = nullptr;
        drafter_parse_options* po = drafter_init_parse_options();
        e.code = drafter_parse_blueprint(doc.c_str(), &r, po);
        drafter_free_parse_options(po);
        if (!r)
            sim::violate("tool", "library", "the library gives no result for the document, and says " + std::to_string(e.code));
        if (!t_->validate) {
            drafter_serialize_options* so = drafter_init_serialize_options();
            if (t_->maps)
                drafter_set_sourcemaps_included(so);
            if (t_->json)
                drafter_set_format(so, DRAFTER_SERIALIZE_JSON);
            char* text = drafter_serialize(r, so);
            drafter_free_serialize_options(so);
            if (!text)
                sim::violate("tool", "library", "the library does not serialize the result of the document");
            e.out = std::string(text) + "\n";
            std::free(text);
        }
        if (t_->validate && t_->out_file)
            e.err = "WARN: While validation is enabled, output file will not be created\n";
        e.err += oracle::report_text(read(r), doc, t_->lines, e.code);
        drafter_free_result(r);
        return e;
    }

    // files the tool has no business with
    void check_bystanders(const char* when, bool opened)
    {
        const Channel& in = sim::channel(InFile);
        if (in.data != (t_->in_file ? t_->doc : std::string()))
            sim::violate("tool", "input-changed", std::string(when) + ": the input file is not what it was, " + command());
        const Channel& out = sim::channel(OutFile);
        if (!opened && (out.exists != t_->has_old || out.data != t_->old))
            sim::violate("tool",
                "output-touched",
                std::string(when) + ": the output file " + (t_->has_old ? "is not what it was" : "was created") + ", " + command());
        if (t_->out_file && t_->special != 2 && !sim::channel("<stdout>").data.empty())
            sim::violate("tool", "stdout", std::string(when) + ": something went to the standard output, " + command());
    }

    void ended(int rc, bool exited)
    {
        const Channel& err = sim::channel("<stderr>");
        const bool err_sound = !failed(err);
        sim::event("ended %d %d", rc, exited);
        count(c_runs);
        const bool may_open = t_->out_file && !t_->validate && !t_->special;
        auto said = [&](const char* what) { return err.data.find(what) != std::string::npos; };

        if (t_->special || (t_->in_file && !input().exists) || input().open_errno || (may_open && output().open_errno)) {
            // nothing to parse
            count(c_exit);
            check_bystanders("when there is nothing to do", false);
            const std::string& out = sim::channel("<stdout>").data;
            if (t_->starved && rc)
                return;
            if (t_->special == 2) {
                const std::string want = std::string(drafter_version_string()) + "\n";
                if (rc != EXIT_SUCCESS || (!failed(sim::channel("<stdout>")) && out != want) || !prefix(out, want))
                    sim::violate("tool", "version", "asked for its version, the tool says " + sim::quote(out) + " with status " + std::to_string(rc));
                return;
            }
            if (!out.empty())
                sim::violate("tool", "stdout", "something went to the standard output though there is nothing to do: " + command());
            if (t_->special == 3)
                return;
            if (rc == EXIT_SUCCESS)
                sim::violate("tool", "status", "success though there is nothing that could be done: " + command());
            if (!t_->special && err_sound && !t_->starved) {
                const bool in_missing = t_->in_file && (!input().exists || input().open_errno);
                const std::string name = in_missing ? InFile : OutFile;
                if (!said(name.c_str()))
                    sim::violate("tool", "message", "the file that cannot be opened is not named: " + sim::quote(err.data));
            }
            return;
        }
        if (exited && !t_->starved)
            sim::violate("tool", "exit", "the tool gave up with status " + std::to_string(rc) + ": " + sim::quote(err.data) + ", " + command());
        check_bystanders("at the end", may_open);

        if (input_failed()) {
            count(c_input);
            if (rc == EXIT_SUCCESS)
                sim::violate("tool", "input", "the input could not be read, and the tool succeeded: " + command());
            if (!output().data.empty() && (may_open || !t_->out_file))
                sim::violate("tool", "input-output", "the input could not be read, and there is output: " + command());
            if (err_sound && !t_->starved && !said("unable to read the input"))
                sim::violate("tool", "message", "the input could not be read, and that was not told but " + sim::quote(err.data));
            return;
        }

        const Expected e = expected();
        const Channel& out = output();
        const std::string got = may_open || !t_->out_file ? out.data : std::string();
        if (t_->validate)
            count(c_validated);
        const bool complete = got == e.out;
        if (!complete) {
            const std::size_t sure = out.first_error < got.size() ? out.first_error : got.size();
            if (!(t_->starved && rc) && !prefix(got.substr(0, sure), e.out))
                sim::violate("tool", "output", "the output is not what the library gives; " + where(got, e.out) + ", " + command());
            if (rc == EXIT_SUCCESS)
                sim::violate("tool", "lost", "the tool succeeded, and the output is not complete; " + where(got, e.out) + ", " + command());
            if (!t_->starved && !failed(out))
                sim::violate("tool", "lost", "the output is not complete though nothing failed; " + where(got, e.out) + ", " + command());
            if (err_sound && !t_->starved && !said("unable to write the output"))
                sim::violate("tool", "message", "the output is not complete, and that was not told but " + sim::quote(err.data));
            count(c_failed);
        } else {
            count(c_complete);
            if (!t_->starved && !failed(out) && rc != e.code)
                sim::violate("tool", "status", "exit status " + std::to_string(rc) + " and not " + std::to_string(e.code) + ": " + command());
            if (rc == EXIT_SUCCESS && e.code)
                sim::violate("tool", "status", "success for a document with an error: " + command());
        }
        // the report
        std::string want = e.err;
        if (!complete || failed(out))
            if (said("fatal: unable to write the output\n"))
                want += "fatal: unable to write the output\n";
        const std::size_t sure = err.first_error < err.data.size() ? err.first_error : err.data.size();
        // lines and columns are of characters
        if (!(t_->starved && rc) && (!t_->lines || valid_utf8(t_->doc))) {
            if (!prefix(err.data.substr(0, sure), want))
                sim::violate("tool", "report", "the report is not what the library found; " + where(err.data, want) + ", " + command());
            if (err_sound && !t_->starved && err.data != want)
                sim::violate("tool", "report-lost", "a part of the report is missing; " + where(err.data, want) + ", " + command());
        }
    }

    void on_exit(int rc)
    {
        sim::HarnessScope hs;
        sim::alloc_disarm();
        sim::io_stop();
        ended(rc, true);
    }
    void on_crash()
    {
        sim::HarnessScope hs;
        sim::alloc_disarm();
        count(c_crashed);
        const bool may_open = t_->out_file && !t_->validate && !t_->special && sim::channel(OutFile).opens;
        check_bystanders("after the machine stopped", may_open);
        if (t_->starved || t_->special)
            return;
        const std::string& got = output().data;
        if ((!may_open && t_->out_file) || got.empty())
            return;
        const Expected e = expected();
        const std::size_t sure = output().first_error < got.size() ? output().first_error : got.size();
        if (!prefix(got.substr(0, sure), e.out))
            sim::violate("tool", "crash-output", "after the machine stopped, the output is no part of what the library gives; " + where(got, e.out) + ", " + command());
    }

    const char* const kinds_[] = { "", "short", "eintr", "eio", "enospc", "eof", "eagain", "crash" };

    void arguments(const Plan& plan)
    {
        for (const auto& l : plan.lines)
            if (l.kind == "tool") {
                t_->in_file = l.num(0) & 1;
                t_->out_file = l.num(0) & 2;
                t_->json = l.num(0) & 4;
                t_->validate = l.num(0) & 8;
                t_->maps = l.num(0) & 16;
                t_->lines = l.num(0) & 32;
                t_->special = l.num(1);
                // in any order and style
                Rng r(static_cast<std::uint64_t>(l.num(2)) + 1);
                std::vector<std::vector<std::string> > parts;
                if (t_->out_file)
                    parts.push_back(r.chance(1, 3) ? std::vector<std::string>{ "-o", OutFile }
                            : r.chance(1, 2)       ? std::vector<std::string>{ "--output", OutFile }
                                                   : std::vector<std::string>{ std::string("--output=") + OutFile });
                if (t_->json || r.chance(1, 3)) {
                    const std::string f = t_->json ? "json" : "yaml";
                    parts.push_back(r.chance(1, 3) ? std::vector<std::string>{ "-f", f }
                            : r.chance(1, 2)       ? std::vector<std::string>{ "--format", f }
                                                   : std::vector<std::string>{ "--format=" + f });
                }
                const bool shorts = r.chance(1, 2);
                if (t_->validate)
                    parts.push_back({ shorts ? "-l" : "--validate" });
                if (t_->maps)
                    parts.push_back({ shorts ? "-s" : "--sourcemap" });
                if (t_->lines)
                    parts.push_back({ shorts ? "-u" : "--use-line-num" });
                if (r.chance(1, 4))
                    parts.push_back({ shorts ? "-L" : "--enable-log" });
                if (t_->special == 2)
                    parts.push_back({ shorts ? "-v" : "--version" });
                if (t_->special == 3)
                    parts.push_back({ shorts ? "-h" : "--help" });
                if (t_->in_file)
                    parts.push_back({ InFile });
                if (t_->special == 1) {
                    if (!t_->in_file)
                        parts.push_back({ InFile });
                    parts.push_back({ "another" });
                }
                for (std::size_t i = parts.size(); i > 1; --i)
                    std::swap(parts[i - 1], parts[r.below(i)]);
                for (const auto& p : parts)
                    for (const auto& a : p)
                        t_->args.push_back(a);
            }
    }

    void exec(const Plan& plan)
    {
        t_ = new Tool;
        std::uint64_t nth = 0, burst = 0;
        for (const auto& l : plan.lines)
            if (l.kind == "src")
                t_->doc += sim::unquote(l.str(1)) + "\n";
            else if (l.kind == "pad") // beyond what one read gets
                for (auto n = l.num(1); n > 0; --n)
                    t_->doc += "Lorem ipsum d\xc3\xb6lor sit amet, line " + S(n) + (n % 40 == 0 ? "\n\n" : "\n");
            else if (l.kind == "damage")
                t_->doc = damaged(t_->doc, l.str(1), static_cast<std::uint64_t>(l.num(2)), static_cast<std::uint64_t>(l.num(3)));
        for (const auto& l : plan.lines)
            if (l.kind == "size") { // exactly as long as what some number of reads get, or a little off
                const auto unit = static_cast<std::size_t>(std::max<std::int64_t>(l.num(0), 1)), off = static_cast<std::size_t>(l.num(1));
                const auto to = unit == 1 ? off : (t_->doc.size() / unit + 1) * unit + off;
                for (std::size_t n = t_->doc.size(); n < to; ++n)
                    t_->doc += static_cast<char>(n % 7 ? 'a' + n % 26 : ' ');
                t_->doc.resize(to);
            }
        arguments(plan);
        for (const auto& l : plan.lines)
            if (l.kind == "old") {
                t_->has_old = true;
                t_->old = std::string(static_cast<std::size_t>(l.num(0)), 'x');
            } else if (l.kind == "missing") {
                t_->in_file ? void(sim::channel(InFile).open_errno = 2) : void();
            } else if (l.kind == "noopen") {
                sim::channel(l.num(0) ? OutFile : InFile).open_errno = static_cast<int>(l.num(1));
            } else if (!sim::is_ref() && l.kind == "alloc") {
                nth = static_cast<std::uint64_t>(l.num(0));
                burst = l.num(1) ? static_cast<std::uint64_t>(l.num(1)) : ~0ull >> 1;
                t_->starved = true;
            } else if (!sim::is_ref() && l.kind == "full") {
                sim::channel(sim::unquote(l.str(0))).capacity = static_cast<std::uint64_t>(l.num(1));
            } else if (!sim::is_ref() && l.kind == "io") {
                sim::IoFault f;
                f.call = static_cast<std::uint64_t>(l.num(1));
                f.what = sim::IO_EIO;
                for (int k = 1; k < sim::IO_KINDS; ++k)
                    if (l.str(2) == kinds_[k])
                        f.what = static_cast<sim::IoErr>(k);
                f.arg = static_cast<std::uint64_t>(l.num(3));
                sim::channel(sim::unquote(l.str(0))).faults.push_back(f);
            }
        Channel& in = input();
        in.data = t_->doc;
        in.exists = true;
        if (t_->has_old) {
            sim::channel(OutFile).exists = true;
            sim::channel(OutFile).data = t_->old;
        }
        std::vector<const char*> argv = { "drafter" };
        for (const auto& a : t_->args)
            argv.push_back(a.c_str());
        argv.push_back(nullptr);

        sim::io_start();
        sim::on_exit_call = on_exit;
        sim::on_crash = on_crash;
        int rc = 0;
        bool died = false;
        {
            sim::SutScope sut("main", 0);
            sim::alloc_arm(nth, burst);
            try {
                rc = drafter_main(static_cast<int>(argv.size()) - 1, argv.data());
                sim::alloc_disarm();
            } catch (const std::bad_alloc&) {
                sim::alloc_disarm();
                died = true;
            } catch (const std::exception& e) {
                sim::alloc_disarm();
                sim::HarnessScope hs;
                sim::violate("tool", "exception", std::string("the tool ended with an exception: ") + e.what() + ", " + command());
            }
        }
        sim::on_exit_call = nullptr;
        sim::io_stop();
        if (sim::is_ref()) {
            sim::shared->results[0].allocs = static_cast<std::uint32_t>(sim::alloc_seen());
            sim::shared->results[0].set = 1;
            int k = 1;
            for (const char* n : { "<stdin>", "<stdout>", "<stderr>", InFile, OutFile }) {
                sim::shared->results[k].allocs = static_cast<std::uint32_t>(sim::channel(n).calls);
                sim::shared->results[k++].hash = sim::channel(n).bytes;
            }
        }
        if (died) {
            if (!sim::alloc_fired())
                sim::violate("tool", "bad-alloc", "the tool ended for lack of memory, which there was: " + command());
            count(c_died);
            rc = 134; // abort() follows in the real program
        }
        if (!sim::alloc_fired())
            t_->starved = false;
        ended(rc, false);
        if (sim::io_open_handles())
            sim::violate("leak", "file-handle", "a file handle is left open at the end");
        if (!died)
            sim::leak_check("at the end");
        for (const char* n : { "<stdout>", "<stderr>", OutFile }) {
            const Channel& c = sim::channel(n);
            sim::event("%s %zu %016llx", n, c.data.size(), static_cast<unsigned long long>(sim::fnv(c.data)));
        }
    }

    // ------------------------------------------------------------ generation
    void gen(Rng& r, Plan& p)
    {
        DocStyle st;
        st.budget = r.chance(1, 6) ? 60 : 3 + static_cast<int>(r.below(24));
        st.errors = r.chance(3, 4);
        st.unicode = r.chance(2, 3);
        st.mson = r.chance(5, 6);
        const bool pad = r.chance(1, 8);
        const auto lines = random_document(r, st);
        const auto at = r.below(lines.size() + 1);
        std::size_t i = 0;
        for (const auto& l : lines) {
            if (pad && i++ == at)
                p.add("pad", { "0", S(static_cast<std::int64_t>(r.chance(1, 2) ? 200 + r.below(300) : r.below(60))) });
            p.add("src", { "0", sim::quote(l) });
        }
        if (r.chance(1, 4))
            p.add("damage", { "0", damages[r.below(static_cast<std::uint64_t>(damages_count))], S(static_cast<std::int64_t>(r.below(4000))), S(static_cast<std::int64_t>(r.below(4000))) });
        if (r.chance(1, 10)) {
            static const std::vector<std::int64_t> units = { 8192, 8192, 8191, 4096, 16384, 1 };
            const auto unit = r.pick(units);
            p.add("size", { S(unit), S(static_cast<std::int64_t>(r.below(unit == 1 ? 12 : 4))) });
        }
        std::int64_t bits = static_cast<std::int64_t>(r.below(64));
        if (bits & 8 && r.chance(1, 2))
            bits &= ~8;
        const std::int64_t special = r.chance(1, 16) ? 1 + static_cast<std::int64_t>(r.below(3)) : 0;
        p.add("tool", { S(bits), S(special), S(static_cast<std::int64_t>(r.below(100000))) });
        if (r.chance(1, 2))
            p.add("old", { S(static_cast<std::int64_t>(r.chance(1, 3) ? r.below(20) : r.below(20000))) });
        if (r.chance(1, 12))
            p.add("noopen", { S(static_cast<std::int64_t>(r.below(2))), r.chance(1, 2) ? "13" : r.chance(1, 2) ? "2" : "24" }); // EACCES, ENOENT, EMFILE
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        if (r.chance(1, 6))
            return;
        const char* chans[] = { "<stdin>", "<stdout>", "<stderr>", InFile, OutFile };
        const bool crash = r.chance(1, 6), short_only = r.chance(1, 8);
        bool crashed = false;
        for (int i = 0; i < 5; ++i) {
            const auto& res = ref.results[i + 1];
            if (!res.allocs || !r.chance(1, 2))
                continue;
            for (auto k = 1 + r.below(3); k; --k) {
                const auto call = S(1 + static_cast<std::int64_t>(r.below(res.allocs + 1)));
                const std::string c = sim::quote(chans[i]);
                if (crash && !crashed) {
                    p.add("io", { c, call, "crash", "0" });
                    crashed = true;
                    continue;
                }
                switch (short_only ? r.below(3) : r.below(8)) {
                    case 0:
                    case 1:
                    case 2:
                        p.add("io", { c, call, "short", S(1 + static_cast<std::int64_t>(r.below(300))) });
                        break;
                    case 3:
                        p.add("io", { c, call, "eintr", "0" });
                        break;
                    case 4:
                        p.add("io", { c, call, "eio", S(static_cast<std::int64_t>(r.below(2))) });
                        break;
                    case 5:
                        p.add("io", { c, call, "enospc", S(static_cast<std::int64_t>(r.below(2))) });
                        break;
                    case 6:
                        p.add("io", { c, call, "eof", "1" });
                        break;
                    default:
                        if (i == 0 || i == 3)
                            p.add("io", { c, call, "eagain", "0" });
                        else
                            p.add("full", { c, S(static_cast<std::int64_t>(r.below(res.hash + 1))) });
                }
            }
        }
        if (r.chance(1, 4) && ref.results[0].allocs)
            p.add("alloc", { S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, 0))), S(static_cast<std::int64_t>(r.below(3))) });
    }

    const sim::Register a({ "tool", gen, faults, exec, "the command line tool under I/O faults" });
}
