// Scheduler of the schedule-exploring build: real threads, of which exactly one runs at a time; which
// one, and where it is replaced, the plan says ("sw" lines).
#ifndef SIM_SCHED_H
#define SIM_SCHED_H

#include <functional>
#include <string>
#include <vector>

#include "core.h"

namespace sim
{
    // From here on, what the code under test allocates comes from an arena that is never reused.
    void arena_start();

    // Runs the bodies to their ends under the schedule of the plan; in the reference run one after the
    // other. Violations: data races, uses of released memory, deadlocks.
    void run_threads(const std::vector<std::function<void()> >& bodies, const Plan& plan);

    // Adds a seeded schedule to a plan whose reference run is known.
    void add_schedule(Rng&, Plan&, const Shared& ref, int threads);

    void quiet(int by); //< of the running simulated thread: more or less

    int thread_id(); //< of the running simulated thread; -1 outside
    unsigned long long thread_handle(int); //< what the code under test may print of it

    // a simulated file, as the code under test left it
    std::string file_content(const std::string& name);
}

#endif
