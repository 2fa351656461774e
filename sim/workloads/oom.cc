// Histories of operations on element trees, the registry and the text services, with failing
// allocations and abandoned steps inside of them.
#include <algorithm>
#include <memory>

#include "../engine/seams.h"
#include "ops.h"

using sim::count;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_abandoned = sim::counter("history.attempts-abandoned");
    const int c_given_up = sim::counter("history.operations-given-up");
    const int c_survived = sim::counter("history.attempts-that-succeeded-despite-a-failure");
    const int c_modelled = sim::counter("history.operations-checked-against-the-model");
    const int c_ops = sim::counter("history.operations");
    const int c_skip = sim::counter("history.operations-without-target");

    struct PerOp {
        std::vector<int> done;
        PerOp()
        {
            for (const auto& o : ops())
                done.push_back(sim::counter((new std::string(std::string("op.") + o.name))->c_str()));
        }
    };
    const PerOp& per_op()
    {
        static const PerOp p;
        return p;
    }
    const PerOp& force = per_op();

    struct Fault {
        std::uint64_t nth, burst;
        bool sweep;
    };

    World* world_; //< one at a time

    struct Attempt {
        bool failed = false;
        std::string outcome;
        std::uint64_t fired = 0, seen = 0;
    };
    Attempt attempt(const Op& op, const Args& a, int id, std::uint64_t nth, std::uint64_t burst)
    {
        Attempt r;
        sim::SutScope sut(op.name, id);
        sim::alloc_arm(nth, burst);
        try {
            std::string o = perform(*world_, op, a);
            sim::HarnessScope h;
            sim::alloc_disarm();
            r.outcome = o;
        } catch (const std::bad_alloc&) {
            sim::alloc_disarm();
            r.failed = true;
        } catch (const std::exception& e) {
            sim::alloc_disarm();
            sim::HarnessScope h;
            sim::violate("wrong-exception",
                op.name,
                std::string("operation ") + op.name + " ended with an unexpected exception: " + e.what());
        } catch (...) {
            sim::alloc_disarm();
            sim::violate("wrong-exception", op.name, std::string("operation ") + op.name + " ended with an unexpected exception");
        }
        r.fired = sim::alloc_fired();
        r.seen = sim::alloc_seen();
        return r;
    }

    std::string whole(const World& w)
    {
        sim::HarnessScope h;
        return dump(w);
    }

    std::string diff(const std::string& a, const std::string& b)
    {
        // the first differing line of each
        std::size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        auto line = [i](const std::string& s) {
            if (s.empty())
                return std::string();
            auto from = s.rfind('\n', i ? i - 1 : 0);
            from = from == std::string::npos ? 0 : from + 1;
            return s.substr(from, s.find('\n', from) - from);
        };
        return "  " + line(a) + "\nand now\n  " + line(b);
    }

    void exec(const Plan& plan)
    {
        world_ = new World;
        {
            sim::SutScope s("set-up", -1);
            set_up(*world_, plan);
        }
        Model model = initial_model();
        std::string before = whole(*world_);
        bool apart = false; //< from the reference run, since an operation was given up
        for (const auto& l : plan.lines) {
            if (l.kind != "op")
                continue;
            const int id = static_cast<int>(l.num(0));
            const Op* op = find_op(l.str(2));
            if (!op)
                continue;
            const Args a = { &l, 3 };
            sim::event("op %d %s", id, op->name);
            count(c_ops);

            bool done = false, failed = false;
            std::uint64_t survived = 0; //< the allocation that failed in an attempt which succeeded
            std::string outcome;
            for (const auto& f : plan.lines) {
                if (f.kind != "alloc" || f.num(0) != id || done || sim::is_ref())
                    continue;
                const bool sweep = f.str(3) == "sweep";
                const auto burst = static_cast<std::uint64_t>(f.num(2));
                for (auto n = static_cast<std::uint64_t>(f.num(1)); !done; ++n) {
                    auto r = attempt(*op, a, id, n, burst ? burst : ~0ull >> 1);
                    sim::event("try %d n %llu fired %llu %s",
                        id,
                        static_cast<unsigned long long>(n),
                        static_cast<unsigned long long>(r.fired),
                        r.failed ? "failed" : "done");
                    if (r.failed) {
                        if (!r.fired)
                            sim::violate("wrong-answer", op->name, std::string("operation ") + op->name + " reported that memory ran out, which it did not");
                        count(c_abandoned);
                        failed = true;
                        if (!(op->flags & Basic)) {
                            const std::string after = whole(*world_);
                            if (after != before)
                                sim::violate("atomicity",
                                    op->name,
                                    std::string("operation ") + op->name + " failed at allocation " + std::to_string(n)
                                        + " and left its objects changed; before\n" + diff(before, after));
                        }
                    } else {
                        done = true;
                        outcome = r.outcome;
                        if (r.fired) {
                            count(c_survived);
                            survived = n;
                        }
                    }
                    if (!sweep)
                        break;
                }
            }
            if (failed && !done && !(op->flags & Basic)
                && std::any_of(plan.lines.begin(), plan.lines.end(), [id](const Line& g) { return g.kind == "giveup" && g.num(0) == id; })) {
                sim::event("given up %d", id);
                count(c_given_up);
                apart = true;
                continue;
            }
            if (!done) {
                auto r = attempt(*op, a, id, 0, 0);
                if (r.failed)
                    sim::violate("wrong-answer", op->name, std::string("operation ") + op->name + " reported that memory ran out, which it did not");
                outcome = r.outcome;
                if (sim::is_ref() && id >= 0 && id < sim::MaxResults)
                    sim::shared->results[id].allocs = static_cast<std::uint32_t>(r.seen);
            }
            const std::string after = whole(*world_);
            if (outcome == "skip")
                count(c_skip);
            else
                count(per_op().done[static_cast<std::size_t>(op - &ops()[0])]);

            if ((op->flags & Reads) && after != before)
                sim::violate("model",
                    op->name,
                    std::string("operation ") + op->name + ", which only reads, changed its objects; before\n" + diff(before, after));
            std::string want;
            if (op->model && op->model(model, a, want)) {
                {
                    const char* cls = survived ? "wrong-answer" : "model";
                    const std::string how = survived ? "allocation " + std::to_string(survived) + " failed, no error was reported; " : "";
                    if (want != "*" && want != outcome)
                        sim::violate(cls,
                            op->name,
                            how + "operation " + op->name + " gave\n  " + outcome.substr(0, 700) + "\nand not\n  "
                                + want.substr(0, 700));
                    const std::string right = dump(model);
                    if (after != right)
                        sim::violate(cls,
                            op->name,
                            how + "after operation " + op->name + " the model has\n" + diff(right, after));
                    count(c_modelled);
                }
            } else if (after != before) {
                // no model of this operation: go on from what is there
                for (int i = 0; i < Slots; ++i)
                    model.slot[i] = read(world_->slot[i].get());
            }
            // what undisturbed and disturbed runs must agree on: the outcome and everything that is there
            const std::string all = outcome + "\n" + after;
            if (survived && !apart && sim::expect->results[id].set && sim::expect->results[id].hash != sim::fnv(all))
                sim::violate("wrong-answer",
                    op->name,
                    std::string("operation ") + op->name + ": allocation " + std::to_string(survived)
                        + " failed, no error was reported, and it gave\n  " + outcome.substr(0, 500) + "\nand not\n  "
                        + sim::expect->results[id].text);
            if (apart)
                sim::event("res %d %s %016llx", id, op->name, static_cast<unsigned long long>(sim::fnv(all)));
            else
                sim::result(id, op->name, all);
            before = after;
        }
        {
            sim::SutScope s("tear-down", -1);
            delete world_;
            world_ = nullptr;
        }
        sim::leak_check("at the end");
    }

    // ------------------------------------------------------------ generation
    void add_op(Rng& r, Plan& p, const Op& o)
    {
        const auto id = static_cast<std::int64_t>(p.lines.size());
        Line l = { "op", { S(id), "0", o.name } };
        o.gen(r, l);
        p.lines.push_back(l);
    }
    void seed_trees(Rng& r, Plan& p, int n)
    {
        for (int i = 0; i < n; ++i)
            add_op(r, p, *find_op("build"));
    }
    void seed_registry(Rng& r, Plan& p, int n)
    {
        for (int i = 0; i < n; ++i)
            add_op(r, p, *find_op("regadd"));
    }
    // most histories are short, some are not
    std::uint64_t length(Rng& r, std::uint64_t usual)
    {
        return 1 + r.below(r.chance(1, 40) ? 300 : r.chance(1, 6) ? 50 : usual);
    }
    // One of those that are meant; in a focused history, mostly one of a few of them
    struct Choice {
        unsigned with, without;
        std::vector<const Op*> few;
        Choice(Rng& r, unsigned w, unsigned wo) : with(w), without(wo)
        {
            if (spread.focused)
                for (auto i = 2 + r.below(4); i; --i)
                    few.push_back(&pick_op(r, with, without));
        }
        const Op& pick(Rng& r) const
        {
            return !few.empty() && r.chance(4, 5) ? *few[r.below(few.size())] : pick_op(r, with, without);
        }
    };
    void gen_tree(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        seed_trees(r, p, 2 + static_cast<int>(r.below(3)));
        const auto n = length(r, spread.focused ? 24 : 12);
        const bool edits = r.chance(1, 2);
        const Choice c(r, edits ? Edits : Edits | Reads, RegOp | Text | Stderr | Basic);
        for (std::uint64_t i = 0; i < n; ++i)
            add_op(r, p, c.pick(r));
    }
    Node member(Rng& r, const std::string& key, const std::string& type, char t)
    {
        Node m, k, v;
        m.type = 'M';
        k.type = 'S';
        k.scalar = key;
        v.type = t;
        v.name = type;
        v.empty = t != 'S' || r.chance(1, 2);
        if (!v.empty)
            v.scalar = "v";
        m.kids = { k, v };
        return m;
    }
    // definitions that lead from one to the next, many times, and perhaps back
    void seed_chain(Rng& r, Plan& p)
    {
        const int n = 2 + static_cast<int>(r.below(r.chance(1, 3) ? 60 : 12));
        const int from = static_cast<int>(r.below(20));
        const int back = r.chance(1, 2) ? static_cast<int>(r.below(static_cast<std::uint64_t>(n))) : n;
        const auto style = r.below(5); // of the links; 4: all kinds
        std::vector<int> order;
        for (int i = 0; i < n; ++i)
            order.insert(order.begin() + static_cast<std::ptrdiff_t>(r.below(order.size() + 1)), i);
        for (const int i : order) {
            const std::string self = extra_name(from + i), next = extra_name(from + (i + 1 < n ? i + 1 : back));
            Node d, id, k;
            d.type = 'O';
            id.type = 'S';
            id.scalar = self;
            d.meta.emplace_back("id", id);
            switch (style == 4 ? r.below(4) : style) {
                case 0:
                    d.name = next;
                    d.empty = r.chance(1, 3);
                    if (!d.empty)
                        d.kids.push_back(member(r, "k" + std::to_string(i % 7), "", 'S'));
                    break;
                case 1:
                    d.kids.push_back(member(r, "k", next, 'O'));
                    break;
                case 2:
                    k.type = 'R';
                    k.scalar = next;
                    d.kids.push_back(k);
                    break;
                default:
                    d.type = 'A';
                    k.type = r.chance(1, 2) ? 'A' : 'O';
                    k.name = next;
                    k.empty = true;
                    d.kids.push_back(k);
            }
            const auto at = static_cast<std::int64_t>(p.lines.size());
            p.lines.push_back({ "op", { S(at), "0", "regadd", sim::quote(d.text()) } });
        }
        for (auto i = 1 + r.below(3); i; --i) {
            const std::string name = extra_name(from + static_cast<int>(r.below(static_cast<std::uint64_t>(n))));
            const auto at = static_cast<std::int64_t>(p.lines.size());
            if (r.chance(1, 2)) {
                p.lines.push_back({ "op", { S(at), "0", "root", sim::quote(name) } });
                continue;
            }
            Node e;
            e.type = 'O';
            e.name = name;
            e.empty = r.chance(1, 2);
            const auto slot = S(r.below(Slots));
            p.lines.push_back({ "op", { S(at), "0", "build", slot, sim::quote(e.text()) } });
            p.lines.push_back({ "op", { S(at + 1), "0", r.chance(1, 2) ? "expand" : "expandto", slot, "0", S(r.below(Slots)) } });
        }
    }
    void gen_registry(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        seed_trees(r, p, 1 + static_cast<int>(r.below(2)));
        if (r.chance(1, 6))
            seed_chain(r, p);
        seed_registry(r, p, 1 + static_cast<int>(spread.names ? r.below(60) : r.below(6)));
        const auto n = length(r, 10);
        const Choice c(r, RegOp, 0);
        for (std::uint64_t i = 0; i < n; ++i)
            add_op(r, p, c.pick(r));
    }
    void gen_text(Rng& r, Plan& p)
    {
        const auto n = length(r, 8);
        for (std::uint64_t i = 0; i < n; ++i)
            add_op(r, p, pick_op(r, Text, Stderr));
    }
    void gen_any(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        seed_trees(r, p, 2 + static_cast<int>(r.below(2)));
        seed_registry(r, p, static_cast<int>(r.below(4)));
        const auto n = length(r, 10);
        const Choice c(r, ~0u, Stderr);
        for (std::uint64_t i = 0; i < n; ++i)
            add_op(r, p, c.pick(r));
    }
    void gen_cancel(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        seed_trees(r, p, 2 + static_cast<int>(r.below(2)));
        const auto n = 1 + length(r, 8);
        for (std::uint64_t i = 0; i < n; ++i)
            if (r.chance(2, 3))
                add_op(r, p, pick_op(r, Cancels));
            else
                add_op(r, p, pick_op(r, Edits | Reads, RegOp | Text | Stderr | Basic));
    }
    void gen_sink(Rng& r, Plan& p)
    {
        const SpreadScope sp(r);
        seed_trees(r, p, 1 + static_cast<int>(r.below(2)));
        const auto n = length(r, 5);
        for (std::uint64_t i = 0; i < n; ++i)
            if (r.chance(3, 4))
                add_op(r, p, *find_op(r.chance(1, 2) ? "sinkprint" : "sinkmedia"));
            else
                add_op(r, p, pick_op(r, Edits, RegOp | Text | Stderr | Basic));
    }

    void gen_markdown(Rng& r, Plan& p)
    {
        static const char* const names[] = { "md", "mdcopy", "mdassign", "mdassign", "mdpush", "mdpush", "mderase", "mdset", "mdset", "mdparent", "ranges", "ranges" };
        for (int i = 0; i < 2; ++i)
            add_op(r, p, *find_op("md"));
        const auto n = 1 + r.below(r.chance(1, 4) ? 40 : 12);
        for (std::uint64_t i = 0; i < n; ++i)
            add_op(r, p, *find_op(names[r.below(12)]));
    }

    // the same few patterns and texts again and again, as matching and as taking apart
    void gen_patterns(Rng& r, Plan& p)
    {
        static const char* const names[] = { "regex", "capture", "capture", "capture1" };
        const auto n = 2 + r.below(r.chance(1, 4) ? 30 : 8);
        for (std::uint64_t i = 0; i < n; ++i) {
            const auto* o = find_op(names[r.below(4)]);
            if (!p.lines.empty() && r.chance(1, 2)) {
                Line l = p.lines[r.below(p.lines.size())];
                const auto pattern = l.args[3], text = l.args[4];
                add_op(r, p, *o);
                p.lines.back().args[3] = pattern;
                if (r.chance(1, 2))
                    p.lines.back().args[4] = text;
            } else
                add_op(r, p, *o);
        }
    }

    // where allocations fail, now that it is known how many each operation makes
    void place(Rng& r, Plan& p, const Shared& ref, unsigned num, unsigned den)
    {
        const auto ops_there = p.lines;
        const bool all = r.chance(1, 8);
        const bool resigned = r.chance(1, 4); // some of what fails is not tried again
        for (const auto& l : ops_there) {
            if (l.kind != "op")
                continue;
            const auto id = l.num(0);
            if (id >= sim::MaxResults || !ref.results[id].set)
                continue;
            const std::uint64_t n = ref.results[id].allocs;
            if (!n || !(all || r.chance(num, den)))
                continue;
            if (resigned && r.chance(1, 2))
                p.add("giveup", { S(id) });
            switch (r.below(6)) {
                case 0: // each in turn
                    if (n <= 60) {
                        p.add("alloc", { S(id), "1", "1", "sweep" });
                        break;
                    }
                    // fall through
                case 1: // memory is gone from there on
                    p.add("alloc", { S(id), S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, id))), "0" });
                    break;
                case 2: // and comes back
                    p.add("alloc",
                        { S(id), S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, id))), S(1 + static_cast<std::int64_t>(r.below(4))) });
                    break;
                case 3: // several attempts
                    for (std::uint64_t k = 1 + r.below(4); k; --k)
                        p.add("alloc", { S(id), S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, id))), "1" });
                    break;
                default:
                    p.add("alloc", { S(id), S(static_cast<std::int64_t>(sim::pick_alloc(r, ref, id))), "1" });
            }
        }
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        place(r, p, ref, 1, 2);
    }
    void faults_few(Rng& r, Plan& p, const Shared& ref)
    {
        if (r.chance(1, 3))
            place(r, p, ref, 1, 4);
    }

    const sim::Register a({ "oom-tree", gen_tree, faults, exec, "element trees, allocations fail" });
    const sim::Register b({ "oom-registry", gen_registry, faults, exec, "registry and expansion, allocations fail" });
    const sim::Register c({ "oom-text", gen_text, faults, exec, "text services, allocations fail" });
    const sim::Register d({ "oom-any", gen_any, faults, exec, "everything, allocations fail" });
    const sim::Register e({ "history-tree", gen_tree, faults_few, exec, "element trees, few failures" });
    const sim::Register f({ "history-registry", gen_registry, faults_few, exec, "registry, few failures" });
    const sim::Register m({ "oom-markdown", gen_markdown, faults, exec, "Markdown trees and ranges, allocations fail" });
    const sim::Register n({ "history-markdown", gen_markdown, faults_few, exec, "Markdown trees and ranges, few failures" });
    const sim::Register i({ "oom-patterns", gen_patterns, faults, exec, "patterns, memory runs out" });
    const sim::Register j({ "history-patterns", gen_patterns, faults_few, exec, "patterns, few failures" });
    const sim::Register g({ "cancel", gen_cancel, faults_few, exec, "visits ended by their callbacks" });
    const sim::Register h({ "sink", gen_sink, faults_few, exec, "output sinks that break" });
}
