// Several threads at once: each on objects of its own, or all reading the same ones.
#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <streambuf>

#include "../engine/sched.h"
#include "../engine/seams.h"
#include "ops.h"
#include "refract/Element.h"
#include "utils/log/Trivial.h"

using sim::count;
using sim::HarnessScope;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_ops = sim::counter("threads.operations");
    const int c_skip = sim::counter("threads.operations-without-target");
    const int c_retry = sim::counter("threads.operations-tried-again-without-memory");
    const int c_lines = sim::counter("threads.log-lines");

    // what is reported at the same time comes in no order; here it only has to be possible
    struct Nowhere : std::streambuf {
        std::streamsize xsputn(const char*, std::streamsize n) override
        {
            return n;
        }
        int_type overflow(int_type c) override
        {
            return traits_type::not_eof(c);
        }
    };

    // ------------------------------------------------------------ operations
    void one(World& w, const Op& op, const Line& l, const Plan& plan)
    {
        const int id = static_cast<int>(l.num(0));
        const Args a = { &l, 3 };
        std::uint64_t nth = 0, burst = 0;
        {
            HarnessScope h;
            sim::event("op %d %s", id, op.name);
            count(c_ops);
            if (!sim::is_ref())
                for (const auto& f : plan.lines)
                    if (f.kind == "alloc" && f.num(0) == id) {
                        nth = static_cast<std::uint64_t>(f.num(1));
                        burst = f.num(2) ? static_cast<std::uint64_t>(f.num(2)) : ~0ull >> 1;
                    }
        }
        std::string outcome;
        for (int tries = 0; tries < 2; ++tries) {
            sim::SutScope sut(op.name, id);
            sim::alloc_arm(tries ? 0 : nth, burst);
            try {
                std::string o = perform(w, op, a);
                sim::alloc_disarm();
                HarnessScope h;
                outcome = o;
                if (sim::is_ref() && id >= 0 && id < sim::MaxResults)
                    sim::shared->results[id].allocs = static_cast<std::uint32_t>(sim::alloc_seen());
                break;
            } catch (const std::bad_alloc&) {
                sim::alloc_disarm();
                HarnessScope h;
                if (tries || !sim::alloc_fired())
                    sim::violate("wrong-answer", op.name, std::string("operation ") + op.name + " reported that memory ran out, which it did not");
                count(c_retry);
            } catch (const std::exception& e) {
                HarnessScope h;
                sim::violate("wrong-exception", op.name, std::string("operation ") + op.name + " ended with an unexpected exception: " + e.what());
            }
        }
        HarnessScope h;
        if (outcome == "skip")
            count(c_skip);
        sim::result(id, op.name, outcome);
    }

    int threads_of(const Plan& p)
    {
        int n = 0;
        for (const auto& l : p.lines)
            if (l.kind == "op" && l.num(1) + 1 > n)
                n = static_cast<int>(l.num(1)) + 1;
        return n < sim::MaxThreads ? n : sim::MaxThreads;
    }

    void exec(const Plan& plan, bool together)
    {
        const int n = threads_of(plan);
        sim::arena_start();
        std::vector<World*> worlds;
        const int k = together ? 1 : n;
        for (int i = 0; i < k; ++i) {
            worlds.push_back(new World);
            set_up(*worlds.back(), plan);
        }
        // what is there before the threads begin
        for (const auto& l : plan.lines)
            if (l.kind == "op" && l.num(1) < 0)
                if (const Op* op = find_op(l.str(2)))
                    for (auto w : worlds)
                        perform(*w, *op, Args{ &l, 3 });
        const std::string before = together ? dump(*worlds[0]) : "";
        std::vector<std::function<void()> > bodies;
        for (int i = 0; i < n; ++i)
            bodies.push_back([i, together, &worlds, &plan] {
                HarnessScope h;
                World& w = *worlds[together ? 0 : static_cast<std::size_t>(i)];
                for (const auto& l : plan.lines) {
                    if (l.kind != "op" || l.num(1) != i)
                        continue;
                    if (const Op* op = find_op(l.str(2))) {
                        struct Loud { // what follows is the code under test's
                            Loud()
                            {
                                sim::quiet(-1);
                            }
                            ~Loud()
                            {
                                sim::quiet(1);
                            }
                        } loud;
                        one(w, *op, l, plan);
                    }
                }
            });
        Nowhere nowhere;
        std::streambuf* const before_threads = std::cerr.rdbuf(&nowhere);
        sim::run_threads(bodies, plan);
        std::cerr.rdbuf(before_threads);
        for (int i = 0; i < k; ++i) {
            const std::string now = dump(*worlds[static_cast<std::size_t>(i)]);
            if (together && now != before)
                sim::violate("model", "shared", "what the threads read is no longer what it was:\n" + before + "\nand now\n" + now);
            sim::result(sim::MaxResults - 1 - i, "world", now);
        }
        for (auto w : worlds)
            delete w;
    }
    void exec_own(const Plan& p)
    {
        exec(p, false);
    }
    void exec_shared(const Plan& p)
    {
        exec(p, true);
    }

    void add_op(Rng& r, Plan& p, int thread, const Op& o)
    {
        const auto id = static_cast<std::int64_t>(p.lines.size());
        Line l = { "op", { S(id), S(thread), o.name } };
        o.gen(r, l);
        p.lines.push_back(l);
    }
    void copy_args(Plan& p, int back)
    {
        auto& l = p.lines[p.lines.size() - 1];
        const auto& f = p.lines[p.lines.size() - 1 - static_cast<std::size_t>(back)];
        for (std::size_t k = 3; k < l.args.size() && k < f.args.size(); ++k)
            l.args[k] = f.args[k];
    }
    void begin(Rng& r, Plan& p, bool registry)
    {
        for (auto i = 1 + r.below(5); i; --i)
            add_op(r, p, -1, *find_op("build"));
        if (registry)
            for (auto i = r.below(5); i; --i)
                add_op(r, p, -1, *find_op("regadd"));
    }
    void gen_own(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        const int n = r.chance(1, 24) ? sim::MaxThreads : 2 + static_cast<int>(r.below(2) + (r.chance(1, 4) ? 1 : 0));
        begin(r, p, r.chance(1, 2));
        const auto style = r.below(4);
        for (auto i = 1 + r.below(style == 3 ? 3 : 6); i; --i) {
            // often the same operation everywhere: what it hides, it hides in the same place
            const Op& o = pick_op(r, style == 1 ? Text : style == 2 ? Reads : ~0u, 0);
            const bool same = r.chance(2, 3);
            const bool equal = r.chance(1, 2); // all begin with equal trees, too
            for (int t = 0; t < n; ++t) {
                add_op(r, p, t, same ? o : pick_op(r, ~0u, 0));
                if (same && equal && t)
                    copy_args(p, t);
            }
        }
    }
    void gen_shared(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        const int n = r.chance(1, 24) ? sim::MaxThreads : 2 + static_cast<int>(r.below(2) + (r.chance(1, 4) ? 1 : 0));
        begin(r, p, r.chance(3, 4));
        for (auto i = 1 + r.below(5); i; --i) {
            const Op& o = pick_op(r, Reads, Text);
            const bool same = r.chance(2, 3);
            for (int t = 0; t < n; ++t) {
                add_op(r, p, t, same ? o : pick_op(r, Reads, 0));
                // and on the same object
                if (same && t && r.chance(1, 2))
                    copy_args(p, t);
            }
        }
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        const int n = threads_of(p);
        if (r.chance(1, 3)) {
            const auto there = p.lines;
            for (const auto& l : there)
                if (l.kind == "op" && l.num(1) >= 0 && r.chance(1, 4)) {
                    const auto id = l.num(0);
                    const Op* o = find_op(l.str(2));
                    if (id >= sim::MaxResults || !ref.results[id].allocs || !o || (o->flags & Basic))
                        continue;
                    p.add("alloc", { S(id), S(1 + static_cast<std::int64_t>(r.below(ref.results[id].allocs))), S(r.chance(1, 3) ? 0 : 1) });
                }
        }
        sim::add_schedule(r, p, ref, n);
    }
#ifdef LOGGING
    // ------------------------------------------------------------ the log
    // What one log operation writes; `want` is its line without the thread, or empty if it is below
    // what is logged.
    struct Entry {
        std::string want;
        std::string file; //< only its end is told
    };
    struct Loud { // what follows is the code under test's
        Loud()
        {
            sim::quiet(-1);
        }
        ~Loud()
        {
            sim::quiet(1);
        }
    };
    Entry write_entry(std::int64_t k, std::int64_t id, bool again)
    {
        Entry e;
        if (again && k % 7 < 3) // the same entry, again and again
            id = 7;
        std::string t = "entry-" + std::to_string(id) + (k % 5 == 3 ? " which is a good deal longer than a small buffer" : "");
        for (auto more = k / 30 * k; more > 0; more -= 16) // a long one: up to a few pages
            t += " and " + std::to_string(more) + " others";
        std::string number = std::to_string(id) + " apples" + std::to_string(id);
        int line = 0;
        e.file = "threads.cc";
        switch (k % 6) {
            case 0: {
                Loud l;
                line = __LINE__; LOG(info) << t;
            }
                e.want = "[INFO ]|" + std::to_string(line) + "] " + t;
                break;
            case 1: {
                Loud l;
                line = __LINE__; LOG(warning) << t << " of " << static_cast<int>(k) << ' ' << "end";
            }
                e.want = "[WARN ]|" + std::to_string(line) + "] " + t + " of " + std::to_string(k) + " end";
                break;
            case 2: {
                Loud l;
                line = __LINE__; LOG(error) << t << '.';
            }
                e.want = "[ERROR]|" + std::to_string(line) + "] " + t + ".";
                break;
            case 3: {
                Loud l;
                LOG(debug) << t << " only for developers";
            }
                break;
            case 4: {
                Loud l;
                refract::dsd::Number n(number);
                const auto v = static_cast<std::int64_t>(n);
                sim::quiet(1);
                if (v != id)
                    sim::violate("log", "number", "the number " + number + " became " + std::to_string(v));
                sim::quiet(-1);
            }
                e.file = "Number.cc";
                e.want = "[WARN ]|dsd::Number to int; dropped trailing ` apples" + std::to_string(id) + "`";
                break;
            case 5: {
                Loud l;
                line = __LINE__; LOG(info) << t << " " << 1.5 << " " << true << " " << std::string(40, 'x');
            }
                e.want = "[INFO ]|" + std::to_string(line) + "] " + t + " 1.5 1 " + std::string(40, 'x');
                break;
        }
        return e;
    }

    void exec_log(const Plan& plan)
    {
        const int n = threads_of(plan);
        sim::arena_start();
        std::vector<std::vector<Entry> > written(static_cast<std::size_t>(n));
        std::vector<std::ptrdiff_t> enabled(static_cast<std::size_t>(n), -1); //< entries before this thread's own enabling
        bool before = false;
        for (const auto& l : plan.lines)
            if (l.kind == "op" && l.num(1) < 0) {
                Loud loud;
                drafter::utils::log::trivial_log::instance().enable();
                before = true;
            }
        std::vector<std::function<void()> > bodies;
        for (int i = 0; i < n; ++i)
            bodies.push_back([i, &plan, &written, &enabled, before] {
                HarnessScope h;
                auto& mine = written[static_cast<std::size_t>(i)];
                for (const auto& l : plan.lines) {
                    if (l.kind != "op" || l.num(1) != i)
                        continue;
                    const auto id = l.num(0);
                    sim::event("op %d %s", static_cast<int>(id), l.str(2).c_str());
                    count(c_ops);
                    sim::SutScope sut("log", static_cast<int>(id));
                    if (l.str(2) == "enable") {
                        Loud loud;
                        ENABLE_LOGGING;
                        auto& e = enabled[static_cast<std::size_t>(i)];
                        if (e < 0)
                            e = static_cast<std::ptrdiff_t>(mine.size());
                    } else {
                        Entry e = write_entry(l.num(3), id, before);
                        if (!e.want.empty())
                            mine.push_back(e);
                    }
                }
            });
        sim::run_threads(bodies, plan);
        if (auto out = drafter::utils::log::trivial_log::instance().out())
            out->flush();
        const std::string text = sim::file_content("drafter.log");
        // every line is one entry, of the thread that it names, next in the order of that thread
        std::vector<std::size_t> next(static_cast<std::size_t>(n), 0);
        std::vector<bool> seen(static_cast<std::size_t>(n), false);
        std::size_t at = 0;
        std::string all;
        while (at < text.size()) {
            const auto end = text.find('\n', at);
            if (end == std::string::npos)
                sim::violate("log", "line", "the last line of the log has no end: " + text.substr(at));
            const std::string line = text.substr(at, end - at);
            at = end + 1;
            count(c_lines);
            int t = -1;
            std::string tag;
            for (int i = 0; i < n; ++i) {
                tag = "[" + std::to_string(sim::thread_handle(i)) + "]";
                if (line.compare(7, tag.size(), tag) == 0) {
                    t = i;
                    break;
                }
            }
            if (t < 0 || line.size() < 8)
                sim::violate("log", "line", "a line of the log is of none of the threads:\n  " + line + "\nin\n" + text.substr(0, 1500));
            auto& mine = written[static_cast<std::size_t>(t)];
            auto& k = next[static_cast<std::size_t>(t)];
            auto fits = [&line, &tag](const Entry& e) {
                const auto bar = e.want.find('|');
                const std::string left = e.want.substr(0, bar) + tag + "[", right = e.want.substr(bar + 1);
                const std::string file = "/" + e.file + ":";
                if (line.compare(0, left.size(), left) != 0 || line.size() < left.size() + right.size())
                    return false;
                if (line.compare(line.size() - right.size(), right.size(), right) != 0)
                    return false;
                std::string mid = line.substr(left.size(), line.size() - left.size() - right.size());
                const auto f = mid.find(file);
                if (f == std::string::npos)
                    return false;
                mid.erase(0, f + file.size());
                if (right[0] != 'd')
                    return mid.empty();
                while (!mid.empty() && mid[0] >= '0' && mid[0] <= '9')
                    mid.erase(0, 1);
                return mid == "] ";
            };
            if (!seen[static_cast<std::size_t>(t)]) // what came before the log was enabled is not there
                while (k < mine.size() && !fits(mine[k]) && !before && enabled[static_cast<std::size_t>(t)] != static_cast<std::ptrdiff_t>(k))
                    ++k;
            if (k >= mine.size() || !fits(mine[k]))
                sim::violate("log",
                    "line",
                    "a line of the log is not what its thread wrote next:\n  " + line + "\nand not\n  "
                        + (k < mine.size() ? mine[k].want : std::string("nothing")) + "\nin\n" + text.substr(0, 1200));
            seen[static_cast<std::size_t>(t)] = true;
            ++k;
            all += line + "\n";
        }
        for (int i = 0; i < n; ++i) {
            const auto& mine = written[static_cast<std::size_t>(i)];
            const auto k = next[static_cast<std::size_t>(i)];
            const auto e = enabled[static_cast<std::size_t>(i)];
            const bool lost = seen[static_cast<std::size_t>(i)] ? k < mine.size()
                                                                : (before && !mine.empty()) || (e >= 0 && static_cast<std::size_t>(e) < mine.size());
            if (lost)
                sim::violate("log",
                    "lost",
                    "thread " + std::to_string(i) + " wrote " + std::to_string(mine.size()) + " entries, and the log has not\n  "
                        + mine[k].want + "\nin\n" + text.substr(0, 1200));
        }
        sim::event("log %llx", static_cast<unsigned long long>(text.size()));
    }
    void gen_log(Rng& r, Plan& p)
    {
        const int n = 2 + static_cast<int>(r.below(r.chance(1, 8) ? sim::MaxThreads - 1 : 3));
        const bool often = r.chance(1, 12), at_length = r.chance(1, 6);
        if (r.chance(2, 3))
            p.add("op", { S(static_cast<std::int64_t>(p.lines.size())), "-1", "enable" });
        for (auto i = 1 + r.below(often ? 30 : 5); i; --i)
            for (int t = 0; t < n; ++t) {
                if (r.chance(1, 8))
                    p.add("op", { S(static_cast<std::int64_t>(p.lines.size())), S(t), "enable" });
                p.add("op", { S(static_cast<std::int64_t>(p.lines.size())), S(t), "log",
                              S(static_cast<std::int64_t>(r.below(at_length && r.chance(1, 3) ? 400 : 30))) });
            }
    }
    void faults_log(Rng& r, Plan& p, const Shared& ref)
    {
        sim::add_schedule(r, p, ref, threads_of(p));
    }
    const sim::Register l({ "threads-log", gen_log, faults_log, exec_log, "threads that write to the log" });
#endif
    const sim::Register a({ "threads-own", gen_own, faults, exec_own, "threads on objects of their own" });
    const sim::Register b({ "threads-shared", gen_shared, faults, exec_shared, "threads that read the same objects" });
}
