// Histories on the streams of the command line tool: files and the standard streams opened by name,
// read, written and reported to, while devices fail, disks fill up, memory runs out and the machine
// stops. The oracle is a model of every file: what may be in it, and what must be.
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "../engine/seams.h"
#include "ops.h"
#include "oracle.h"
#include "reporting.h"
#include "stream.h"

using sim::Channel;
using sim::count;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_ops = sim::counter("streams.operations");
    const int c_opened = sim::counter("streams.opened");
    const int c_written = sim::counter("streams.bytes-written");
    const int c_read = sim::counter("streams.bytes-read");
    const int c_told = sim::counter("streams.errors-told-to-the-caller");
    const int c_complete = sim::counter("streams.files-complete");
    const int c_exit = sim::counter("streams.program-gave-up-on-a-missing-file");
    const int c_reports = sim::counter("streams.reports");
    const int c_cut = sim::counter("streams.reports-cut-short");
    const int c_crashed = sim::counter("streams.machine-stopped");
    const int c_nomem = sim::counter("streams.operations-without-memory");
    const int c_rewritten = sim::counter("streams.files-rewritten");

    constexpr int Handles = 4;
    const char* const names_[] = { "input.apib", "a/rather/long/path/to/the/output/of/the/parser.json", "out.json", "second%.apib", "-" };
    constexpr int Names = sizeof names_ / sizeof *names_;

    // where a call into the code under test failed to open: it must give up
    struct Opening {
        bool active = false;
        bool write = false;
        std::string file;
        std::string err_before, out_before;
        int handles = 0;
    };

    struct Handle {
        std::unique_ptr<std::istream> in;
        std::unique_ptr<std::ostream> out;
        std::string chan;
        std::size_t from = 0;   //< reading: where the channel was when it was opened
        std::string got;        //< reading: what came
        std::string want;       //< writing: what was given since it was opened
        bool ended = false, told = false;
        bool open() const
        {
            return in || out;
        }
    };

    struct Sim {
        Handle h[Handles];
        std::map<std::string, std::string> files; //< what must be in a file that nobody writes
        std::map<std::string, bool> exact;        //< ... exactly, not just a prefix of it
        std::string out;                          //< everything given to the standard output
        std::string err;                          //< everything reported
        std::size_t err_ok = 0;                   //< of it, what must be there (cleared errors start anew)
        std::string stdin_all;
        std::size_t stdin_at = 0;
        bool err_broken = false;
        bool stdin_lost = false;
        Opening opening;
    };
    Sim* s_;

    std::string content(std::int64_t seed, std::int64_t len)
    {
        Rng r(static_cast<std::uint64_t>(seed) * 77 + 1);
        std::string o;
        o.reserve(static_cast<std::size_t>(len) + 40);
        switch (r.below(16)) { // what editors and other systems put at the beginning
            case 0:
                o = "\xef\xbb\xbf";
                break;
            case 1:
                o = "\xff\xfe";
                break;
            case 2:
                o = r.chance(1, 2) ? "\r\n" : "\n";
                break;
            case 3:
                o.assign(1, '\0');
                break;
        }
        while (static_cast<std::int64_t>(o.size()) < len) {
            switch (r.below(12)) {
                case 0:
                    o += '\n';
                    break;
                case 1:
                    o += "\r\n";
                    break;
                case 2:
                    o += '\0';
                    break;
                case 3:
                    o += static_cast<char>(0x80 + r.below(128)); // any byte
                    break;
                case 4:
                    o += "\x1a";
                    break;
                case 5:
                    o += "# Group \xc3\xa9t\xc3\xa9\n";
                    break;
                default: {
                    const auto k = 1 + r.below(24);
                    for (std::uint64_t i = 0; i < k; ++i)
                        o += static_cast<char>(' ' + (seed + static_cast<std::int64_t>(r.below(90))) % 95);
                }
            }
        }
        o.resize(static_cast<std::size_t>(len));
        return o;
    }

    std::string where(const std::string& a, const std::string& b)
    {
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        return "they differ at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " and " + std::to_string(b.size())
            + ": " + sim::quote(a.substr(i, 60)) + " and " + sim::quote(b.substr(i, 60));
    }
    // something happened to the channel that its user may notice
    bool disturbed(const Channel& c)
    {
        return sim::io_told(c) || c.injected[sim::IO_EOF] || (c.injected[sim::IO_EINTR] && c.name[0] == '<');
    }
    bool prefix(const std::string& p, const std::string& of)
    {
        return p.size() <= of.size() && of.compare(0, p.size(), p) == 0;
    }

    // ------------------------------------------------------------ the oracle
    // after every operation, and when the machine stops
    void check_all(const char* when, bool final)
    {
        sim::HarnessScope hs;
        for (int i = 0; i < Handles; ++i) {
            auto& h = s_->h[i];
            if (!h.out || h.chan == "<stdout>")
                continue;
            const Channel& c = sim::channel(h.chan);
            const std::size_t sure = c.first_error < c.data.size() ? c.first_error : c.data.size();
            if (!prefix(c.data.substr(0, sure), h.want))
                sim::violate("stream-output",
                    "content",
                    std::string(when) + ": file " + h.chan + " does not hold a prefix of what was written to it; "
                        + where(c.data, h.want));
        }
        for (const auto& f : s_->files) {
            const Channel& c = sim::channel(f.first);
            bool busy = false;
            for (int i = 0; i < Handles; ++i)
                busy = busy || (s_->h[i].out && s_->h[i].chan == f.first);
            if (busy)
                continue;
            if (s_->exact[f.first] ? c.data != f.second : false)
                sim::violate("stream-output",
                    "finished-file",
                    std::string(when) + ": file " + f.first + " changed, though it was complete; " + where(c.data, f.second));
        }
        const Channel& o = sim::channel("<stdout>");
        {
            const std::size_t sure = o.first_error < o.data.size() ? o.first_error : o.data.size();
            if (!prefix(o.data.substr(0, sure), s_->out))
                sim::violate("stream-output",
                    "stdout-content",
                    std::string(when) + ": the standard output is not a prefix of what was written to it; " + where(o.data, s_->out));
            if (final && o.first_error == ~std::size_t(0) && o.data != s_->out)
                sim::violate("stream-output",
                    "stdout-lost",
                    std::string(when) + ": the standard output is not what was written to it; " + where(o.data, s_->out));
        }
        const Channel& e = sim::channel("<stderr>");
        if (e.data.find("fatal:") == std::string::npos) {
            const std::size_t sure = e.first_error < e.data.size() ? e.first_error : e.data.size();
            if (!prefix(e.data.substr(0, sure), s_->err))
                sim::violate("report",
                    "content",
                    std::string(when) + ": the standard error is not a prefix of the reports; " + where(e.data, s_->err));
            if (!s_->err_broken && e.first_error == ~std::size_t(0) && e.data != s_->err && final)
                sim::violate("report",
                    "lost",
                    std::string(when) + ": the standard error is not what was reported; " + where(e.data, s_->err));
        }
    }

    int handles_open()
    {
        int n = 0;
        for (int i = 0; i < Handles; ++i)
            n += s_->h[i].open() && s_->h[i].chan[0] != '<';
        return n;
    }

    void drop_all()
    {
        sim::SutScope sut("closing everything", -1);
        for (int i = 0; i < Handles; ++i) {
            s_->h[i].in.reset();
            s_->h[i].out.reset();
        }
    }

    // the code under test gives up: right only when a file could not be opened
    void gave_up(int rc)
    {
        std::string file;
        {
            sim::HarnessScope hs;
            auto& o = s_->opening;
            sim::event("exit %d", rc);
            if (!o.active)
                sim::violate("stream-exit", "uncalled-for", "the program ended though no file was missing");
            if (rc != EXIT_FAILURE)
                sim::violate("stream-exit", "status", "a file could not be opened, and the exit status was " + std::to_string(rc));
            Channel& c = sim::channel(o.file);
            if (c.exists && !c.open_errno)
                sim::violate("stream-exit", "opened", "the program gave up on a file that could be opened: " + o.file);
            const Channel& e = sim::channel("<stderr>");
            const std::string said = e.data.size() >= o.err_before.size() ? e.data.substr(o.err_before.size()) : e.data;
            if (e.first_error == ~std::size_t(0) && !s_->err_broken && said.find(o.file) == std::string::npos)
                sim::violate("stream-exit", "message", "the name of the missing file was not reported: " + sim::quote(said));
            if (sim::channel("<stdout>").data != o.out_before && prefix(o.out_before, sim::channel("<stdout>").data)
                && !prefix(sim::channel("<stdout>").data, s_->out))
                sim::violate("stream-exit", "stdout", "a message about a missing file went to the standard output");
            count(c_exit);
            if (sim::io_open_handles() != o.handles)
                sim::violate("leak", "file-handle", "a file handle was left open when the program gave up on " + o.file);
            file = o.file;
        }
        drop_all();
        {
            sim::HarnessScope hs;
            file.clear();
            file.shrink_to_fit();
        }
        sim::HarnessScope hs;
        sim::leak_check("when the program gives up on a missing file");
        sim::io_stop();
        check_all("when the program gave up", false);
    }

    void crashed()
    {
        sim::HarnessScope hs;
        count(c_crashed);
        check_all("after the machine stopped", false);
    }

    // ------------------------------------------------------------ reference of the reports
    std::string report_text(const PlainReport& r, const std::string& source, bool lines)
    {
        std::string o = "\n";
        auto note = [&](const char* prefix, const PlainNote& a) {
            o += prefix;
            if (a.code)
                o += " (" + std::to_string(a.code) + ") ";
            if (!a.message.empty())
                o += " " + a.message;
            const oracle::Lines index(source);
            bool first = true;
            for (const auto& l : a.location) {
                if (lines)
                    o += oracle::place(index, l.first, l.second);
                else
                    o += (first ? " :" : ";") + std::to_string(l.first) + ":" + std::to_string(l.second);
                first = false;
            }
            o += "\n";
        };
        if (!r.error.code)
            o += "OK.\n";
        else
            note("error:", r.error);
        for (const auto& w : r.warnings)
            note("warning:", w);
        return o;
    }
    // ------------------------------------------------------------ operations
    // calls f under the faults planned for allocations of this operation; false: no memory, and told so
    template <typename F>
    bool guarded(const Plan& plan, int id, const char* what, F f)
    {
        std::uint64_t nth = 0, burst = 0;
        if (!sim::is_ref())
            for (const auto& l : plan.lines)
                if (l.kind == "alloc" && l.num(0) == id) {
                    nth = static_cast<std::uint64_t>(l.num(1));
                    burst = static_cast<std::uint64_t>(l.num(2));
                    if (!burst)
                        burst = ~0ull >> 1;
                }
        bool ok = false;
        {
            sim::SutScope sut(what, id);
            sim::alloc_arm(nth, burst);
            try {
                f();
                sim::alloc_disarm();
                ok = true;
            } catch (const std::bad_alloc&) {
                sim::alloc_disarm();
            } catch (const std::exception& e) {
                sim::alloc_disarm();
                sim::HarnessScope hs;
                sim::violate("wrong-exception", what, std::string(what) + " ended with an exception: " + e.what());
            } catch (...) {
                sim::alloc_disarm();
                sim::violate("wrong-exception", what, std::string(what) + " ended with an exception");
            }
        }
        if (sim::is_ref() && id >= 0 && id < sim::MaxResults) {
            sim::shared->results[id].allocs = static_cast<std::uint32_t>(sim::alloc_seen());
            sim::shared->results[id].set = 1;
        }
        if (!ok && !sim::alloc_fired())
            sim::violate("wrong-answer", what, std::string(what) + " reported that memory ran out, which it did not");
        if (!ok)
            count(c_nomem);
        return ok;
    }

    void op_open(const Plan& plan, int id, const Args& a, bool write)
    {
        auto& h = s_->h[a.n(0) & (Handles - 1)];
        if (h.open())
            return;
        const std::string file = a.s(1);
        const std::string chan = file.empty() ? (write ? "<stdout>" : "<stdin>") : file;
        if (!file.empty())
            for (int i = 0; i < Handles; ++i)
                if (s_->h[i].open() && s_->h[i].chan == chan)
                    return; // one at a time
        Channel& c = sim::channel(chan);
        auto& o = s_->opening;
        o.active = !file.empty() && (c.open_errno || (!write && !c.exists));
        o.write = write;
        o.file = file;
        o.err_before = sim::channel("<stderr>").data;
        o.out_before = sim::channel("<stdout>").data;
        o.handles = sim::io_open_handles();
        const bool was = c.exists;
        const int opens = c.opens;
        h.chan = chan;
        const bool ok = guarded(plan, id, write ? "open for writing" : "open for reading", [&] {
            if (write)
                h.out.reset(CreateStreamFromName<std::ostream>(file));
            else
                h.in.reset(CreateStreamFromName<std::istream>(file));
        });
        if (!ok) {
            if (sim::io_open_handles() != o.handles)
                sim::violate("leak", "file-handle", "a file handle was left open when memory ran out while opening " + chan);
            if (write && c.opens != opens) {
                s_->files[chan].clear(); // opened, which empties it, and closed again
                s_->exact[chan] = true;
            }
            return;
        }
        if (o.active)
            sim::violate("stream-exit", "went-on", "file " + file + " could not be opened, and the program went on");
        o.active = false;
        if (write ? !h.out : !h.in)
            sim::violate("stream-output", "no-stream", "there is no stream for " + chan);
        if (!file.empty() && c.opens != opens + 1)
            sim::violate("stream-output", "not-opened", "file " + file + " was not opened");
        count(c_opened);
        if (write && was && !file.empty())
            count(c_rewritten);
        h.got.clear();
        h.want.clear();
        h.ended = h.told = false;
        h.from = c.pos;
        if (write && !file.empty()) {
            // a fresh file
            c.first_error = ~std::size_t(0);
            for (auto& n : c.injected)
                n = 0;
            s_->exact[chan] = false;
        }
        if (!write && !file.empty()) {
            h.from = 0;
            c.first_error = ~std::size_t(0);
            for (auto& n : c.injected)
                n = 0;
        }
    }

    void op_write(const Plan& plan, int id, const Args& a)
    {
        auto& h = s_->h[a.n(0) & (Handles - 1)];
        if (!h.out)
            return;
        std::string text = content(a.n(1), a.n(2));
        const bool was_good = h.out->good();
        if (was_good) {
            h.want += text;
            if (h.chan == "<stdout>")
                s_->out += text;
        }
        const auto how = a.n(3) % 3;
        const bool ok = guarded(plan, id, "write", [&] {
            if (how == 0)
                *h.out << text;
            else if (how == 1)
                h.out->write(text.data(), static_cast<std::streamsize>(text.size()));
            else
                for (char ch : text)
                    h.out->put(ch);
        });
        (void)ok;
        count(c_written, text.size());
        Channel& c = sim::channel(h.chan);
        if (!h.out->good() && was_good) {
            count(c_told);
            if (!disturbed(c) && !sim::alloc_fired())
                sim::violate("stream-output", "false-error", "writing to " + h.chan + " failed, though nothing was wrong with it");
        }
        if (was_good && h.out->good() && h.chan == "<stdout>")
            ; // buffered by the C library
    }

    void op_flush(const Plan& plan, int id, const Args& a)
    {
        auto& h = s_->h[a.n(0) & (Handles - 1)];
        if (!h.out)
            return;
        const bool was_good = h.out->good();
        guarded(plan, id, "flush", [&] { h.out->flush(); });
        if (!h.out->good() && was_good)
            count(c_told);
        Channel& c = sim::channel(h.chan);
        const std::string& want = h.chan == "<stdout>" ? s_->out : h.want;
        if (was_good && h.out->good() && c.data != want && !(h.chan == "<stdout>" && !std::cout.good())) {
            // what was lost under another handle of the standard output was told there
            if (!(h.chan == "<stdout>" && disturbed(c)))
                sim::violate("stream-output",
                    "acknowledged-lost",
                    "a flush of " + h.chan + " succeeded, but not everything is there; " + where(c.data, want));
        }
        if (!h.out->good() && was_good && !disturbed(c) && !sim::alloc_fired())
            sim::violate("stream-output", "false-error", "flushing " + h.chan + " failed, though nothing was wrong with it");
    }

    void op_read(const Plan& plan, int id, const Args& a)
    {
        auto& h = s_->h[a.n(0) & (Handles - 1)];
        if (!h.in)
            return;
        Channel& c = sim::channel(h.chan);
        const std::size_t start = h.chan == "<stdin>" ? s_->stdin_at : h.got.size();
        std::string piece;
        bool failed = false, ended = false, nomem = false;
        const auto how = a.n(2) % 3;
        const auto n = static_cast<std::size_t>(a.n(1));
        const bool was_good = h.in->good();
        std::stringstream sink;
        nomem = !guarded(plan, id, "read", [&] {
            if (how == 0) { // as the tool does
                sink << h.in->rdbuf();
                ended = true;
            } else if (how == 1) {
                sim::HarnessScope hs;
                std::string buf(n + 1, '\0');
                h.in->read(&buf[0], static_cast<std::streamsize>(n));
                piece.assign(buf, 0, static_cast<std::size_t>(h.in->gcount()));
                ended = h.in->eof();
            } else {
                sim::HarnessScope hs;
                std::string line;
                if (std::getline(*h.in, line)) {
                    piece = line;
                    if (!h.in->eof())
                        piece += '\n';
                }
                ended = h.in->eof();
            }
        });
        if (how == 0) {
            piece = sink.str();
            failed = sink.bad() || h.in->bad() || (sink.fail() && !piece.empty()) || (sink.fail() && start < c.data.size());
        } else
            failed = h.in->bad();
        if (nomem || sim::alloc_fired()) {
            h.told = true;
            ended = false;
        }
        (void)was_good;
        count(c_read, piece.size());
        h.got += piece;
        const std::string& all = c.data;
        const std::size_t at = h.chan == "<stdin>" ? s_->stdin_at : start;
        if (!h.told && !(h.chan == "<stdin>" && s_->stdin_lost) && all.compare(at, piece.size(), piece) != 0)
            sim::violate("stream-input",
                "content",
                "what was read from " + h.chan + " is not what is in it; " + where(piece, all.substr(at < all.size() ? at : all.size(), piece.size())));
        if (h.chan == "<stdin>") {
            s_->stdin_at += piece.size();
            // the C library reads on after an error, the C++ library cannot tell: what comes then is open
            s_->stdin_lost = s_->stdin_lost || h.told || disturbed(c);
        }
        if (failed) {
            count(c_told);
            h.told = true;
            if (!disturbed(c) && !sim::alloc_fired() && start < c.data.size())
                sim::violate("stream-input", "false-error", "reading " + h.chan + " failed, though nothing was wrong with it");
        }
        // the end was reached and nobody was told of an error: nothing may be missing
        if (ended && !failed && !h.told && !c.injected[sim::IO_EOF]) {
            const bool cannot_tell = h.chan == "<stdin>" && s_->stdin_lost;
            const std::size_t got = h.chan == "<stdin>" ? s_->stdin_at : h.got.size();
            if (!cannot_tell && got != all.size())
                sim::violate("stream-input",
                    "lost",
                    "the end of " + h.chan + " was reached after " + std::to_string(got) + " of " + std::to_string(all.size())
                        + " bytes, and no error was reported");
        }
    }

    void op_close(const Plan& plan, int id, const Args& a)
    {
        auto& h = s_->h[a.n(0) & (Handles - 1)];
        if (!h.open())
            return;
        Channel& c = sim::channel(h.chan);
        const bool write = static_cast<bool>(h.out);
        const bool good = !write || h.out->good();
        const int before = handles_open();
        const int closes = c.closes;
        guarded(plan, id, "close", [&] {
            h.in.reset();
            h.out.reset();
        });
        if (h.chan[0] != '<') {
            if (sim::io_open_handles() != before - 1 || c.closes != closes + 1)
                sim::violate("leak", "file-handle", "file " + h.chan + " was not closed");
            if (write) {
                s_->files[h.chan] = h.want;
                if (good && !sim::io_told(c)) {
                    if (c.data != h.want)
                        sim::violate("stream-output",
                            "lost",
                            "file " + h.chan + " was closed, no error happened, and its content is not what was written; "
                                + where(c.data, h.want));
                    s_->exact[h.chan] = true;
                    count(c_complete);
                } else {
                    s_->files[h.chan] = c.data;
                    s_->exact[h.chan] = true;
                }
            }
        } else {
            // the standard streams outlive the handle
            std::ios& std_ = write ? static_cast<std::ios&>(std::cout) : static_cast<std::ios&>(std::cin);
            if (!std_.rdbuf())
                sim::violate("stream-output", "standard-stream", "closing a handle took the standard stream away");
        }
    }

    void op_direct(const Plan& plan, int id, const Args& a)
    {
        // the standard output itself, between handles
        const std::string text = content(a.n(0), a.n(1));
        if (!std::cout.good())
            return;
        s_->out += text;
        guarded(plan, id, "write to the standard output", [&] { std::cout << text; });
        count(c_written, text.size());
    }

    void op_report(const Plan& plan, int id, const Args& a, bool element)
    {
        const bool lines = a.n(1) % 2 != 0;
        const std::string src = source_of(a.n(1));
        Channel& c = sim::channel("<stderr>");
        const bool could = std::cerr.good();
        const std::string before = c.data;
        const auto io_before = c.injected[sim::IO_EIO] + c.injected[sim::IO_ENOSPC] + c.injected[sim::IO_EAGAIN] + c.injected[sim::IO_EINTR];
        std::string want;
        bool ok;
        if (element) {
            const Node n = parse_result_node(a.n(0));
            const int error = static_cast<int>(a.n(0) % 3);
            auto e = build(n);
            want = oracle::report_text(n, src, lines, error);
            if (could)
                s_->err += want;
            ok = guarded(plan, id, "report", [&] { PrintReport(e.get(), src, lines, error); });
            if (read(e.get()).text() != n.text())
                sim::violate("report", "annotations", "reporting changed the annotations");
        } else {
            const auto r = report_of(a.n(0));
            want = report_text(plain_report(a.n(0)), src, lines);
            if (could)
                s_->err += want;
            ok = guarded(plan, id, "report", [&] { PrintReport(r, src, lines); });
        }
        count(c_reports);
        const auto io_after = c.injected[sim::IO_EIO] + c.injected[sim::IO_ENOSPC] + c.injected[sim::IO_EAGAIN] + c.injected[sim::IO_EINTR];
        const std::string said = c.data.substr(before.size() < c.data.size() ? before.size() : c.data.size());
        if (!could) {
            if (!said.empty())
                sim::violate("report", "broken-stream", "something was reported on a stream that had failed");
            return;
        }
        if (!prefix(said, want))
            sim::violate("report", "content", "a report is not what was to be reported; " + where(said, want));
        if (said != want) {
            count(c_cut);
            if (io_after == io_before && ok && !sim::alloc_fired())
                sim::violate("report", "lost", "a part of a report is missing, though nothing failed; " + where(said, want));
            if (io_after == io_before && ok && std::cerr.good())
                sim::violate("report", "lost", "a part of a report is missing, and nobody was told; " + where(said, want));
            s_->err.resize(s_->err.size() - want.size());
            s_->err += said;
            s_->err_broken = s_->err_broken || io_after != io_before;
        }
        if (io_after != io_before && said != want && std::cerr.good())
            sim::violate("report", "not-told", "a part of a report could not be written, and the stream does not say so");
        c.first_error = ~std::size_t(0);
    }

    const char* const kinds_[] = { "", "short", "eintr", "eio", "enospc", "eof", "eagain", "crash" };

    void exec(const Plan& plan)
    {
        s_ = new Sim;
        sim::io_start();
        sim::on_exit_call = gave_up;
        sim::on_crash = crashed;
        for (const auto& l : plan.lines) {
            if (l.kind == "file") {
                Channel& c = sim::channel(sim::unquote(l.str(0)));
                c.exists = true;
                c.data = content(l.num(1), l.num(2));
                s_->files[c.name] = c.data;
                s_->exact[c.name] = true;
            } else if (l.kind == "stdin") {
                sim::channel("<stdin>").data = content(l.num(0), l.num(1));
            } else if (l.kind == "noopen") {
                // a condition of the world, in the reference run as well
                sim::channel(sim::unquote(l.str(0))).open_errno = static_cast<int>(l.num(1));
            } else if (!sim::is_ref() && l.kind == "full") {
                sim::channel(sim::unquote(l.str(0))).capacity = static_cast<std::uint64_t>(l.num(1));
            } else if (!sim::is_ref() && l.kind == "io") {
                sim::IoFault f;
                f.call = static_cast<std::uint64_t>(l.num(1));
                f.what = sim::IO_EIO;
                for (int k = 1; k < sim::IO_KINDS; ++k)
                    if (l.str(2) == kinds_[k])
                        f.what = static_cast<sim::IoErr>(k);
                f.arg = static_cast<std::uint64_t>(l.num(3));
                sim::channel(sim::unquote(l.str(0))).faults.push_back(f);
            }
        }
        for (const auto& l : plan.lines) {
            if (l.kind != "op")
                continue;
            const int id = static_cast<int>(l.num(0));
            const std::string& name = l.str(2);
            const Args a = { &l, 3 };
            sim::event("op %d %s", id, name.c_str());
            count(c_ops);
            if (name == "openr")
                op_open(plan, id, a, false);
            else if (name == "openw")
                op_open(plan, id, a, true);
            else if (name == "write")
                op_write(plan, id, a);
            else if (name == "flush")
                op_flush(plan, id, a);
            else if (name == "read")
                op_read(plan, id, a);
            else if (name == "close")
                op_close(plan, id, a);
            else if (name == "direct")
                op_direct(plan, id, a);
            else if (name == "report")
                op_report(plan, id, a, false);
            else if (name == "reportel")
                op_report(plan, id, a, true);
            else if (name == "clearerr") {
                std::cerr.clear();
                sim::channel("<stderr>").sticky = sim::IO_OK;
            }
            for (int i = 0; i < Handles; ++i)
                sim::event("h%d %d %d", i, s_->h[i].out ? int(s_->h[i].out->rdstate()) : -1, s_->h[i].in ? int(s_->h[i].in->rdstate()) : -1);
            check_all(name.c_str(), false);
        }
        // whatever is still open is closed, and checked as if the plan had said so
        for (int i = 0; i < Handles; ++i) {
            Line l = { "op", { "-1", "0", "close", S(i) } };
            const Args a = { &l, 3 };
            op_close(plan, -1, a);
        }
        sim::leak_check("at the end");
        if (sim::io_open_handles())
            sim::violate("leak", "file-handle", "a file handle is left open at the end");
        if (std::cout.good())
            std::cout.flush();
        sim::on_exit_call = nullptr;
        sim::io_stop();
        check_all("at the end", std::cout.good());
        // how often each channel was used, for the faults
        if (sim::is_ref()) {
            int k = sim::MaxResults - 8;
            for (const char* n : { "<stdin>", "<stdout>", "<stderr>", names_[0], names_[1], names_[2], names_[3], names_[4] }) {
                sim::shared->results[k].allocs = static_cast<std::uint32_t>(sim::channel(n).calls);
                sim::shared->results[k++].hash = sim::channel(n).bytes;
            }
        }
        for (const char* n : { "<stdout>", "<stderr>", names_[0], names_[1], names_[2], names_[3], names_[4] }) {
            const Channel& c = sim::channel(n);
            sim::event("%s %zu %016llx", n, c.data.size(), static_cast<unsigned long long>(sim::fnv(c.data)));
        }
    }

    // ------------------------------------------------------------ generation
    std::int64_t size(Rng& r)
    {
        static const std::int64_t s[] = { 0, 1, 2, 7, 60, 100, 511, 1000, 1023, 1024, 1025, 3000, 4096, 8190, 8191, 8192, 8193, 20000 };
        static const std::int64_t large[] = { 32768, 65535, 65536, 65537, 70000, 131073, 200000 };
        if (r.chance(1, 40))
            return large[r.below(sizeof large / sizeof *large)];
        return r.chance(1, 3) ? static_cast<std::int64_t>(r.below(300)) : s[r.below(sizeof s / sizeof *s)];
    }
    void add(Plan& p, const std::string& name, std::initializer_list<std::string> args)
    {
        Line l = { "op", { S(static_cast<std::int64_t>(p.lines.size())), "0", name } };
        for (const auto& a : args)
            l.args.push_back(a);
        p.lines.push_back(l);
    }
    std::string some_file(Rng& r, bool standard)
    {
        if (standard && r.chance(1, 3))
            return sim::quote("");
        return sim::quote(names_[r.below(Names)]);
    }
    void world(Rng& r, Plan& p, unsigned missing)
    {
        for (const char* n : names_)
            if (r.chance(missing ? 1 : 4, 5) || !r.chance(missing, 4))
                p.add("file", { sim::quote(n), S(r.below(1000)), S(size(r)) });
        p.add("stdin", { S(r.below(1000)), S(size(r)) });
        if (missing && r.chance(1, 2))
            p.add("noopen", { sim::quote(names_[r.below(Names)]), S(r.pick(std::vector<int>{ 13, 24, 21 })) }); // EACCES, EMFILE, EISDIR
    }
    void gen(Rng& r, Plan& p, unsigned reads, unsigned writes, unsigned reports, unsigned missing)
    {
        world(r, p, missing);
        const auto n = 2 + r.below(16);
        std::vector<int> open(Handles, 0); // 1: reading, 2: writing
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto k = r.below(reads + writes + reports);
            const int h = static_cast<int>(r.below(Handles));
            if (k >= reads + writes) {
                if (r.chance(1, 6))
                    add(p, "clearerr", {});
                else
                    add(p, r.chance(1, 2) ? "report" : "reportel", { S(r.below(1000)), S(r.below(1000)) });
                continue;
            }
            const bool write = k >= reads;
            int found = -1;
            for (int j = 0; j < Handles; ++j)
                if (open[static_cast<std::size_t>((h + j) % Handles)] == (write ? 2 : 1) && found < 0)
                    found = (h + j) % Handles;
            if (found < 0 || r.chance(1, 5)) {
                int to = -1;
                for (int j = 0; j < Handles; ++j)
                    if (!open[static_cast<std::size_t>(j)])
                        to = j;
                if (to >= 0) {
                    add(p, write ? "openw" : "openr", { S(to), some_file(r, true) });
                    open[static_cast<std::size_t>(to)] = write ? 2 : 1;
                    continue;
                }
                if (found < 0) {
                    add(p, "close", { S(h) });
                    open[static_cast<std::size_t>(h)] = 0;
                    continue;
                }
            }
            switch (r.below(6)) {
                case 0:
                    add(p, "close", { S(found) });
                    open[static_cast<std::size_t>(found)] = 0;
                    break;
                case 1:
                    if (write) {
                        add(p, "flush", { S(found) });
                        break;
                    }
                    // fall through
                case 2:
                    if (write && r.chance(1, 2)) {
                        add(p, "direct", { S(r.below(1000)), S(r.below(200)) });
                        break;
                    }
                    // fall through
                default:
                    if (write)
                        add(p, "write", { S(found), S(r.below(1000)), S(size(r)), S(r.below(3)) });
                    else
                        add(p, "read", { S(found), S(size(r)), S(r.below(3)) });
            }
        }
    }
    void gen_read(Rng& r, Plan& p)
    {
        gen(r, p, 8, 1, 1, r.chance(1, 6) ? 2 : 0);
    }
    void gen_write(Rng& r, Plan& p)
    {
        gen(r, p, 1, 8, 1, r.chance(1, 8) ? 1 : 0);
    }
    void gen_report(Rng& r, Plan& p)
    {
        gen(r, p, 1, 1, 8, 0);
    }
    void gen_streams(Rng& r, Plan& p)
    {
        gen(r, p, 3, 3, 2, r.chance(1, 6) ? 1 : 0);
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        if (r.chance(1, 8))
            return; // undisturbed
        const char* chans[] = { "<stdin>", "<stdout>", "<stderr>", names_[0], names_[1], names_[2], names_[3], names_[4] };
        const bool crash = r.chance(1, 5);
        bool crashed = false;
        const auto ops_there = p.lines;
        for (int i = 0; i < 3 + Names; ++i) {
            const auto& res = ref.results[sim::MaxResults - 8 + i];
            if (!res.allocs || !r.chance(2, 3))
                continue;
            const auto n = 1 + r.below(4);
            for (std::uint64_t k = 0; k < n; ++k) {
                const auto call = S(1 + static_cast<std::int64_t>(r.below(res.allocs + 1)));
                const std::string c = sim::quote(chans[i]);
                if (crash && !crashed && r.chance(1, 3)) {
                    p.add("io", { c, call, "crash", "0" });
                    crashed = true;
                    continue;
                }
                switch (r.below(9)) {
                    case 0:
                    case 1:
                    case 2:
                        p.add("io", { c, call, "short", S(1 + static_cast<std::int64_t>(r.below(300))) });
                        break;
                    case 3:
                        p.add("io", { c, call, "eintr", "0" });
                        break;
                    case 4:
                        p.add("io", { c, call, "eio", S(r.below(2)) });
                        break;
                    case 5:
                        p.add("io", { c, call, "enospc", S(r.below(2)) });
                        break;
                    case 6:
                        p.add("io", { c, call, "eof", "1" });
                        break;
                    case 7:
                        p.add("full", { c, S(static_cast<std::int64_t>(r.below(res.hash + 1))) });
                        break;
                    case 8:
                        p.add("io", { c, i > 2 && r.chance(1, 2) ? "0" : call, r.chance(1, 2) ? "eio" : "eagain", "0" });
                        break;
                }
            }
        }
        if (r.chance(1, 3))
            for (const auto& l : ops_there) {
                if (l.kind != "op" || l.num(0) >= sim::MaxResults - 8 || !r.chance(1, 4))
                    continue;
                const auto& res = ref.results[l.num(0)];
                if (res.set && res.allocs)
                    p.add("alloc", { l.str(0), S(1 + static_cast<std::int64_t>(r.below(res.allocs))), S(r.below(2)) });
            }
    }

    const sim::Register a({ "stream-read", gen_read, faults, exec, "input streams under I/O faults" });
    const sim::Register b({ "stream-write", gen_write, faults, exec, "output streams under I/O faults" });
    const sim::Register c({ "stream-report", gen_report, faults, exec, "reports on a failing standard error" });
    const sim::Register d({ "stream-any", gen_streams, faults, exec, "all streams under I/O faults" });
}
