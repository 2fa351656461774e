// Several threads that call the C interface at once: each on documents and results of its own, or all
// reading the same ones.
#include <cstdlib>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>

#include "drafter.h"

#include "../engine/sched.h"
#include "../engine/seams.h"
#include "../pipeline/doc.h"
#include "../workloads/tree.h"

using sim::count;
using sim::HarnessScope;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::S;
using sim::Shared;

namespace
{
    const int c_ops = sim::counter("pthreads.calls");
    const int c_retry = sim::counter("pthreads.calls-tried-again-without-memory");
    const int c_shared = sim::counter("pthreads.calls-on-shared-results");

    constexpr int Docs = 3, Results = 2;

    struct Loud { // what follows is the code under test's
        Loud()
        {
            sim::quiet(-1);
        }
        ~Loud()
        {
            sim::quiet(1);
        }
    };

    std::string doc_[Docs];
    drafter_result* shared_[Docs];
    drafter_result* own_[sim::MaxThreads][Results];
    int code_[sim::MaxThreads][Results];

    bool says_so(const Node& root)
    {
        for (const auto& k : root.kids)
            if (k.name == "annotation" && k.scalar.find("bad_alloc") != std::string::npos)
                return true;
        return false;
    }

    // one call; failed: it says that memory ran out
    std::string call(int thread, const Line& l, bool starving, bool& failed)
    {
        const std::string& name = l.str(2);
        const auto a = l.num(3), b = l.num(4), flags = l.num(5);
        failed = false;
        std::string outcome;
        drafter_parse_options* po = nullptr;
        drafter_serialize_options* so = nullptr;
        auto options = [&] {
            Loud loud;
            if (flags & 1) {
                po = drafter_init_parse_options();
                if (po && flags & 2)
                    drafter_set_name_required(po);
                if (po && flags & 4)
                    drafter_set_skip_gen_bodies(po);
            }
            if (flags & 8) {
                so = drafter_init_serialize_options();
                if (so && flags & 16)
                    drafter_set_sourcemaps_included(so);
                if (so)
                    drafter_set_format(so, flags & 32 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
            }
        };
        auto release = [&] {
            Loud loud;
            if (po)
                drafter_free_parse_options(po);
            if (so)
                drafter_free_serialize_options(so);
        };
        options();
        if (((flags & 1) && !po) || ((flags & 8) && !so)) {
            failed = true;
            release();
            return "";
        }
        const char* const text = doc_[a % Docs].c_str();
        if (name == "parse") {
            drafter_result*& slot = own_[thread][b % Results];
            int code = 0;
            {
                Loud loud;
                drafter_free_result(slot);
                slot = nullptr;
                code = drafter_parse_blueprint(text, &slot, po);
            }
            if (slot) {
                Node n = read(slot);
                failed = says_so(n);
                outcome = std::to_string(code) + " " + n.text();
            } else
                failed = true;
        } else if (name == "parseto" || name == "check") {
            char* got = nullptr;
            drafter_result* res = nullptr;
            int code = 0;
            {
                Loud loud;
                code = name == "check" ? drafter_check_blueprint(text, &res, po) : drafter_parse_blueprint_to(text, &got, po, so);
            }
            if (res) {
                Node n = read(res);
                failed = says_so(n);
                outcome = std::to_string(code) + " " + n.text();
            } else if (got) {
                outcome = std::to_string(code) + " " + got;
                failed = outcome.find("bad_alloc") != std::string::npos;
            } else {
                outcome = std::to_string(code) + " nothing";
                failed = name == "parseto" || code != 0;
            }
            Loud loud;
            drafter_free_result(res);
            std::free(got);
        } else if (name == "serialize" || name == "serialize-shared") {
            drafter_result* const r = name == "serialize" ? own_[thread][b % Results] : shared_[a % Docs];
            if (name != "serialize")
                count(c_shared);
            if (r) {
                char* got = nullptr;
                {
                    Loud loud;
                    got = drafter_serialize(r, so);
                }
                if (got)
                    outcome = got;
                else
                    failed = true;
                Loud loud;
                std::free(got);
            } else
                outcome = "nothing there";
        }
        release();
        (void)starving;
        return outcome;
    }

    void one(int thread, const Line& l, const Plan& plan)
    {
        const int id = static_cast<int>(l.num(0));
        const std::string name = l.str(2);
        std::uint64_t nth = 0, burst = 0;
        sim::event("op %d %s", id, name.c_str());
        count(c_ops);
        if (!sim::is_ref())
            for (const auto& f : plan.lines)
                if (f.kind == "alloc" && f.num(0) == id) {
                    nth = static_cast<std::uint64_t>(f.num(1));
                    burst = f.num(2) ? static_cast<std::uint64_t>(f.num(2)) : ~0ull >> 1;
                }
        for (int tries = 0;; ++tries) {
            bool failed = false;
            std::string outcome;
            {
                sim::SutScope sut(name.c_str(), id);
                sim::alloc_arm(tries ? 0 : nth, burst);
                try {
                    outcome = call(thread, l, nth != 0, failed);
                } catch (const std::exception& e) {
                    sim::violate("exception", name, "the C function of " + name + " let an exception out: " + e.what());
                }
                sim::alloc_disarm();
            }
            if (failed) {
                if (tries || !sim::alloc_fired())
                    sim::violate("wrong-answer", name, name + " failed without a reason");
                count(c_retry);
                continue;
            }
            if (sim::is_ref() && id >= 0 && id < sim::MaxResults)
                sim::shared->results[id].allocs = static_cast<std::uint32_t>(sim::alloc_seen());
            sim::result(id, name, outcome);
            return;
        }
    }

    int threads_of(const Plan& p)
    {
        int n = 0;
        for (const auto& l : p.lines)
            if (l.kind == "op" && l.num(1) + 1 > n)
                n = static_cast<int>(l.num(1)) + 1;
        return n < sim::MaxThreads ? n : sim::MaxThreads;
    }

    void exec(const Plan& plan)
    {
        const int n = threads_of(plan);
        for (const auto& l : plan.lines)
            if (l.kind == "src")
                doc_[l.num(0) % Docs] += sim::unquote(l.str(1)) + "\n";
        for (const auto& l : plan.lines)
            if (l.kind == "damage") {
                auto& d = doc_[l.num(0) % Docs];
                d = damaged(d, l.str(1), static_cast<std::uint64_t>(l.num(2)), static_cast<std::uint64_t>(l.num(3)));
            }
        sim::arena_start();
        // what all read is made before the threads begin
        std::string before[Docs];
        for (const auto& l : plan.lines)
            if (l.kind == "share") {
                const auto d = l.num(0) % Docs;
                if (!shared_[d]) {
                    drafter_parse_blueprint(doc_[d].c_str(), &shared_[d], nullptr);
                    before[d] = read(shared_[d]).text();
                }
            }
        std::vector<std::function<void()> > bodies;
        for (int i = 0; i < n; ++i)
            bodies.push_back([i, &plan] {
                HarnessScope h;
                for (const auto& l : plan.lines)
                    if (l.kind == "op" && l.num(1) == i)
                        one(i, l, plan);
            });
        sim::run_threads(bodies, plan);
        for (int d = 0; d < Docs; ++d)
            if (shared_[d]) {
                if (read(shared_[d]).text() != before[d])
                    sim::violate("model", "shared", "a result that the threads only read is no longer what it was");
                drafter_free_result(shared_[d]);
            }
        for (auto& t : own_)
            for (auto& r : t)
                drafter_free_result(r);
    }

    void gen(Rng& r, Plan& p)
    {
        const int n = 2 + (r.chance(1, 3) ? 1 : 0);
        const int docs = 1 + static_cast<int>(r.below(r.chance(1, 2) ? 1 : Docs));
        for (int d = 0; d < docs; ++d) {
            DocStyle st;
            st.budget = 2 + static_cast<int>(r.below(9));
            st.errors = r.chance(3, 4);
            st.unicode = r.chance(2, 3);
            st.mson = r.chance(5, 6);
            for (const auto& l : random_document(r, st))
                p.add("src", { S(d), sim::quote(l) });
            if (r.chance(1, 6))
                p.add("damage", { S(d), damages[r.below(static_cast<std::uint64_t>(damages_count))], S(static_cast<std::int64_t>(r.below(4000))), S(static_cast<std::int64_t>(r.below(4000))) });
        }
        const int share = r.chance(1, 3) ? static_cast<int>(r.below(static_cast<std::uint64_t>(docs))) : -1;
        if (share >= 0)
            p.add("share", { S(share) });
        std::int64_t id = 0;
        for (auto k = 1 + r.below(2); k; --k) {
            const char* const ops[] = { "parse", "parseto", "check", "parseto" };
            const char* name = ops[r.below(4)];
            if (share >= 0 && r.chance(3, 4))
                name = "serialize-shared";
            const bool same = r.chance(2, 3), equal = r.chance(1, 2);
            auto d = r.below(static_cast<std::uint64_t>(docs)), flags = r.below(64);
            for (int t = 0; t < n; ++t) {
                if (!equal) {
                    d = r.below(static_cast<std::uint64_t>(docs));
                    flags = r.below(64);
                }
                const char* mine = same ? name : ops[r.below(4)];
                const auto slot = S(static_cast<std::int64_t>(r.below(Results)));
                p.add("op", { S(id++), S(t), mine, S(share >= 0 && mine == std::string("serialize-shared") ? share : static_cast<std::int64_t>(d)), slot, S(static_cast<std::int64_t>(flags)) });
                if (mine == std::string("parse") && r.chance(2, 3))
                    p.add("op", { S(id++), S(t), "serialize", "0", slot, S(static_cast<std::int64_t>(flags)) });
            }
        }
    }
    void faults(Rng& r, Plan& p, const Shared& ref)
    {
        if (r.chance(1, 4)) {
            const auto there = p.lines;
            for (const auto& l : there)
                if (l.kind == "op" && r.chance(1, 3)) {
                    const auto id = l.num(0);
                    if (id < sim::MaxResults && ref.results[id].allocs)
                        p.add("alloc", { S(id), S(1 + static_cast<std::int64_t>(r.below(ref.results[id].allocs))), S(r.chance(1, 3) ? 0 : 1) });
                }
        }
        sim::add_schedule(r, p, ref, threads_of(p));
    }
    const sim::Register a({ "threads-pipe", gen, faults, exec, "threads that call the C interface" });
}
