// Deterministic simulator core: seeded PRNG, plans (the replay format), the page shared between the
// explorer and the forked simulated process, event log hashing and violation reporting.
#ifndef SIM_CORE_H
#define SIM_CORE_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim
{
    // ---------------------------------------------------------------- PRNG
    struct Rng {
        std::uint64_t s;
        explicit Rng(std::uint64_t seed) : s(seed) {}
        std::uint64_t next()
        {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n)
        {
            return n ? next() % n : 0;
        }
        // inclusive
        std::int64_t range(std::int64_t a, std::int64_t b)
        {
            return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1)));
        }
        bool chance(unsigned num, unsigned den)
        {
            return below(den) < num;
        }
        template <typename T>
        const T& pick(const std::vector<T>& v)
        {
            return v[below(v.size())];
        }
    };

    std::uint64_t mix(std::uint64_t a, std::uint64_t b);

    // ---------------------------------------------------------------- plan
    struct Line {
        std::string kind; //< op, alloc, io, sw, ...
        std::vector<std::string> args;

        const std::string& str(std::size_t i) const;
        std::int64_t num(std::size_t i) const;
    };

    struct Plan {
        std::string scenario;
        std::uint64_t seed = 0;
        std::vector<Line> lines;

        Line& add(const std::string& kind);
        Line& add(const std::string& kind, std::initializer_list<std::string> args);
        std::string text() const;
        bool parse(const std::string& text, std::string& err);
    };

    inline std::string S(std::int64_t v)
    {
        return std::to_string(v);
    }
    std::string quote(const std::string& raw);   //< printable token without blanks
    std::string unquote(const std::string& tok); //< and back

    // ---------------------------------------------------------------- shared page
    constexpr int MaxResults = 512;
    constexpr int MaxThreads = 6;
    constexpr int MaxInteresting = 2048;
    constexpr int MaxCounters = 320;
    constexpr int MaxSites = 8192;

    struct Result {
        std::uint64_t hash;
        std::uint32_t set;
        std::uint32_t allocs; //< allocations of the op without faults
        char text[112];
    };

    // An allocation of the undisturbed run whose chain of callers was not seen before in that operation
    struct Site {
        std::uint16_t op;
        std::uint16_t near; //< the last few callers are new
        std::uint32_t index;
    };

    struct Shared {
        volatile int status; // 0: running, 1: finished, 2: violation
        char cls[48];
        char key[200];
        char msg[3000];
        std::uint64_t hash;
        std::uint64_t events;
        std::uint64_t steps; //< simulated time: scheduler steps, allocation or I/O events
        std::uint64_t counters[MaxCounters];
        std::uint32_t tsteps[MaxThreads];
        std::uint32_t ninteresting[MaxThreads];
        std::uint32_t interesting[MaxThreads][MaxInteresting];
        Result results[MaxResults];
        volatile int in_libc; //< the C library itself works on a pattern of the workload's making
        std::uint32_t nsites;
        Site sites[MaxSites];
    };

    extern Shared* shared;        //< written by the running simulated process
    extern const Shared* expect;  //< results of the fault-free reference run; null in that run
    extern bool trace;            //< print the event log on stderr
    extern bool quiet_sut_stderr; //< stderr of the simulated process goes to a buffer

    inline bool is_ref()
    {
        return expect == nullptr;
    }

    // ---------------------------------------------------------------- counters
    int counter(const char* name); //< registers, call at static initialisation only
    const char* counter_name(int i);
    int counter_count();
    inline void count(int id, std::uint64_t n = 1)
    {
        shared->counters[id] += n;
    }

    // While it lives, patterns are the workload's own, not those of the code under test: that the C library takes
    // long for them is not held against it
    extern int own_patterns;
    struct OwnPattern {
        OwnPattern();
        ~OwnPattern();
    };

    // ---------------------------------------------------------------- event log
    std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
    inline std::uint64_t fnv(const std::string& s)
    {
        return fnv(s.data(), s.size());
    }
    void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

    // ---------------------------------------------------------------- verdicts
    [[noreturn]] void violate(const char* cls, const std::string& key, const std::string& msg);

    // Record the observable outcome of operation `id` (reference run), or compare it with the
    // reference run's. `cls` is the violation class on mismatch.
    void result(int id, const std::string& what, const std::string& outcome, const char* cls = "wrong-result");

    // ---------------------------------------------------------------- scenarios
    struct Scenario {
        const char* name;
        void (*gen)(Rng&, Plan&);                     //< operations
        void (*faults)(Rng&, Plan&, const Shared&);   //< faults and schedule, knowing the reference run
        void (*exec)(const Plan&);                    //< run, in a forked process
        const char* what;
    };

    struct Register {
        explicit Register(const Scenario& s);
    };
    const std::vector<Scenario>& scenarios();
    const Scenario* find_scenario(const std::string& name);

    int main(int argc, char** argv);
} // namespace sim

#endif
