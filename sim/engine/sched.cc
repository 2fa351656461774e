// The schedule-exploring build. The code under test is compiled with -fsanitize=thread, but the
// functions that instrumentation calls are ours: every access to memory, every atomic operation and
// every call of the pthread functions is a step of a simulated thread, at which the plan may let
// another thread go on. Accesses are checked with vector clocks: two accesses to the same bytes, at
// least one a write, neither before the other, are a data race in this and in every other schedule
// with the same order of synchronisation.
#include "sched.h"
#include "seams.h"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdio>
#include <ctime>
#include <cwchar>
#include <dlfcn.h>
#include <exception>
#include <iostream>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <regex.h>
#include <sched.h>
#include <cstdarg>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
extern char __data_start, _end;
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
char* __real_strdup(const char*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_strcasecmp(const char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
int __real_vsnprintf(char*, size_t, const char*, va_list);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcat(char*, const char*);
char* __real_strchr(const char*, int);
char* __real_strrchr(const char*, int);
char* __real_strstr(const char*, const char*);
char* __real_getenv(const char*);
char* __real_strtok(char*, const char*);
char* __real_setlocale(int, const char*);
struct tm* __real_localtime(const time_t*);
struct tm* __real_gmtime(const time_t*);
char* __real_asctime(const struct tm*);
char* __real_ctime(const time_t*);
int __real_rand(void);
char* __real_strerror(int);
int __real_setenv(const char*, const char*, int);
int __real_putenv(char*);
int __real_regcomp(regex_t*, const char*, int);
void __real_regfree(regex_t*);
int __real_regexec(const regex_t*, const char*, size_t, regmatch_t[], int);
}

namespace sim
{
    void raw_write(int fd, const void* p, std::size_t n)
    {
        ::syscall(SYS_write, fd, p, n);
    }

    namespace
    {
        const int c_switch = counter("sched.switches");
        const int c_block = counter("sched.blocked-on-a-lock");
        const int c_lock = counter("sched.locks");
        const int c_atomic = counter("sched.atomic-operations");
        const int c_access = counter("sched-seam.accesses-checked");
        const int c_guard = counter("sched.initialisations-of-statics");
        const int c_forced = counter("sched.forced-switches");
        const int c_alloc = counter("fault.alloc-failure");

        // ------------------------------------------------------ threads
        enum State { Ready, Blocked, Finished };
        struct Thread {
            std::uint32_t vc[MaxThreads];
            std::uint64_t steps, since; //< since it was last given the token
            State state;
            const void* on; //< blocked on
            int quiet;      //< > 0: the harness's own work
            std::uintptr_t lo, hi;
            std::uint32_t futex;
            pthread_t handle;
            std::function<void()> const* body;
            void* stack[64];
            int depth;
            const char* what;
            int op;
            // the switches of the plan, in order
            const std::pair<std::uint64_t, int>* sw;
            std::size_t nsw, at;
            std::uint64_t interesting_seen;
        };
        Thread threads_[MaxThreads];
        int nthreads_ = 0;
        volatile int current_ = -1;
        bool active_ = false;
        bool off_ = false;
        thread_local int self_ = -1;
        std::uint32_t main_futex_ = 0;
        std::vector<std::pair<std::uint64_t, int> >* switches_[MaxThreads];

        constexpr std::uint64_t Patience = 400000; //< steps of one thread while others wait, at most

        void futex_wait(std::uint32_t* f)
        {
            while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
                ::syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0);
            __atomic_store_n(f, 0, __ATOMIC_RELEASE);
        }
        void futex_wake(std::uint32_t* f)
        {
            __atomic_store_n(f, 1, __ATOMIC_RELEASE);
            ::syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0);
        }

        inline Thread* me()
        {
            if (!active_ || self_ < 0)
                return nullptr;
            Thread* t = &threads_[self_];
            return t->quiet > 0 ? nullptr : t;
        }

        void hand_over(int to)
        {
            const int from = self_;
            if (to == from)
                return;
            event("switch %d -> %d", from, to);
            threads_[to].since = 0;
            current_ = to;
            futex_wake(&threads_[to].futex);
            if (threads_[from].state != Finished)
                futex_wait(&threads_[from].futex);
        }
        int next_ready(int after)
        {
            for (int k = 1; k <= nthreads_; ++k) {
                const int t = (after + k) % nthreads_;
                if (threads_[t].state == Ready)
                    return t;
            }
            return -1;
        }
        // the simulator's own words: no steps
        struct Hush {
            explicit Hush(Thread* t)
            {
                if (t)
                    t->quiet += 1000;
            }
        };
        std::string name_of(const void* pc)
        {
            Dl_info i;
            if (pc && ::dladdr(pc, &i) && i.dli_sname) {
                std::string n = i.dli_sname;
                return n;
            }
            char b[32];
            std::snprintf(b, sizeof b, "%p", pc);
            return b;
        }
        std::string where(const Thread& t)
        {
            std::string o;
            for (int i = std::min(t.depth, 64), k = 0; i > 0 && k < 6; --i, ++k)
                o += "    called from " + name_of(t.stack[i - 1]) + "\n";
            return o;
        }
        std::string whose(int id)
        {
            return "thread " + std::to_string(id) + " in operation " + (threads_[id].what ? threads_[id].what : "?");
        }

        // one step of the running thread: here the plan may put another one in its place
        void step(Thread* t)
        {
            shared->steps++;
            t->steps++;
            t->since++;
            if (t->at < t->nsw && t->steps >= t->sw[t->at].first) {
                int to = t->sw[t->at].second;
                ++t->at;
                if (to < 0 || to >= nthreads_ || threads_[to].state != Ready)
                    to = next_ready(self_);
                if (to >= 0 && to != self_) {
                    count(c_switch);
                    hand_over(to);
                }
            } else if (t->since > Patience) {
                const int to = next_ready(self_);
                t->since = 0;
                if (to >= 0 && to != self_) {
                    count(c_forced);
                    hand_over(to);
                }
            }
        }
        void interesting(Thread* t)
        {
            if (!is_ref())
                return;
            auto& n = shared->ninteresting[self_];
            const auto k = t->interesting_seen++;
            if (n < MaxInteresting)
                shared->interesting[self_][n++] = static_cast<std::uint32_t>(t->steps + 1);
            else {
                const std::uint64_t r = mix(k, 77) % (k + 1);
                if (r < MaxInteresting)
                    shared->interesting[self_][r] = static_cast<std::uint32_t>(t->steps + 1);
            }
        }
        void block(Thread* t, const void* on)
        {
            t->state = Blocked;
            t->on = on;
            count(c_block);
            const int to = next_ready(self_);
            if (to < 0) {
                Hush hush(t);
                std::string who;
                for (int i = 0; i < nthreads_; ++i)
                    if (threads_[i].state == Blocked)
                        who += "  " + whose(i) + "\n" + where(threads_[i]);
                violate("deadlock", t->what ? t->what : "?", "no thread can go on; waiting:\n" + who);
            }
            event("block %d", self_);
            hand_over(to);
        }
        [[noreturn]] void deadlock(Thread* t, const char* how)
        {
            Hush hush(t);
            violate("deadlock", t->what ? t->what : "?", whose(self_) + how + "\n" + where(*t));
        }
        void wake(const void* on, bool all)
        {
            for (int i = 0; i < nthreads_; ++i)
                if (threads_[i].state == Blocked && threads_[i].on == on) {
                    threads_[i].state = Ready;
                    threads_[i].on = nullptr;
                    if (!all)
                        return;
                }
        }

        // ------------------------------------------------------ synchronisation objects
        struct Sync {
            const void* p;
            std::uint32_t vc[MaxThreads];
            int owner;   //< of a lock; -1: nobody
            int readers;
            int count;
            std::uint32_t waiters;
        };
        constexpr std::size_t MaxSyncs = 1 << 15;
        Sync* syncs_ = nullptr;
        std::size_t nsyncs_ = 0;

        Sync& sync_of(const void* p)
        {
            std::size_t i = ((reinterpret_cast<std::uintptr_t>(p) >> 2) * 0x9E3779B97F4A7C15ull) >> 49;
            for (;; i = (i + 1) & (MaxSyncs - 1)) {
                if (syncs_[i].p == p)
                    return syncs_[i];
                if (!syncs_[i].p) {
                    if (++nsyncs_ > MaxSyncs / 4 * 3)
                        ::_exit(6);
                    syncs_[i].p = p;
                    syncs_[i].owner = -1;
                    return syncs_[i];
                }
            }
        }
        void acquire(Thread* t, Sync& s)
        {
            for (int i = 0; i < MaxThreads; ++i)
                t->vc[i] = std::max(t->vc[i], s.vc[i]);
        }
        void release(Thread* t, Sync& s)
        {
            for (int i = 0; i < MaxThreads; ++i)
                s.vc[i] = std::max(s.vc[i], t->vc[i]);
            t->vc[t - threads_]++;
        }

        // ------------------------------------------------------ shadow of the memory
        struct Access {
            std::uint8_t tid, mask, write, used;
            std::uint32_t clk;
            const void* pc;
        };
        constexpr int PerCell = 10;
        struct Cell {
            std::uintptr_t g;
            Access a[PerCell];
        };
#ifndef SIM_CELL_BITS
#define SIM_CELL_BITS 20
#endif
        constexpr std::size_t CellBits = SIM_CELL_BITS, Cells = std::size_t(1) << CellBits;
        Cell* cells_ = nullptr;           //< compact, in the order of their first use
        std::uint32_t* buckets_ = nullptr; //< where in cells_, plus one
        std::size_t ncells_ = 0;

        Cell* cell_of(std::uintptr_t g)
        {
            std::size_t i = (g * 0x9E3779B97F4A7C15ull) >> (64 - CellBits);
            for (;; i = (i + 1) & (Cells - 1)) {
                if (!buckets_[i]) {
                    if (ncells_ >= Cells / 4 * 3)
                        return nullptr; // no longer watched
                    cells_[ncells_].g = g;
                    buckets_[i] = static_cast<std::uint32_t>(++ncells_);
                }
                Cell* c = &cells_[buckets_[i] - 1];
                if (c->g == g)
                    return c;
            }
        }

        // ------------------------------------------------------ arena
        constexpr std::uintptr_t ArenaBase = 0x210000000000ull;
        constexpr std::size_t ArenaSize = std::size_t(1) << 30;
        struct Block {
            std::uint64_t size;
            std::uint8_t live, owner, kind, sut;
            std::uint32_t magic;
        };
        static_assert(sizeof(Block) == 16, "");
        char* arena_ = nullptr;
        std::size_t top_ = 0;
        bool in_arena(const void* p)
        {
            const auto a = reinterpret_cast<std::uintptr_t>(p);
            return arena_ && a >= ArenaBase && a < ArenaBase + ArenaSize;
        }
        std::uint64_t armed_[MaxThreads + 1], burst_[MaxThreads + 1], seen_[MaxThreads + 1], fired_[MaxThreads + 1];
        int sutdepth_[MaxThreads + 1];

        bool watched(std::uintptr_t a)
        {
            if (a >= ArenaBase && a < ArenaBase + ArenaSize)
                return true;
            const auto lo = reinterpret_cast<std::uintptr_t>(&__data_start), hi = reinterpret_cast<std::uintptr_t>(&_end);
            if (a >= lo && a < hi) {
                auto in = [a](const void* p, std::size_t n) {
                    return a >= reinterpret_cast<std::uintptr_t>(p) && a < reinterpret_cast<std::uintptr_t>(p) + n;
                };
                return !in(&std::cin, sizeof std::cin) && !in(&std::cout, sizeof std::cout) && !in(&std::cerr, sizeof std::cerr)
                    && !in(&std::clog, sizeof std::clog) && !in(threads_, sizeof threads_);
            }
            for (int i = 0; i < nthreads_; ++i)
                if (i != self_ && a >= threads_[i].lo && a < threads_[i].hi)
                    return true;
            return false;
        }

        [[noreturn]] void race(const Access& old, int by, bool write, const void* pc, std::uintptr_t at)
        {
            Thread& t = threads_[by];
            const std::string f = name_of(old.pc), g = name_of(pc);
            violate("race",
                f < g ? f + "<>" + g : g + "<>" + f,
                std::string("two accesses to the same memory (") + std::to_string(at & 7) + "), neither before the other:\n  "
                    + (write ? "write" : "read") + " by " + whose(by) + "\n    in " + g + "\n" + where(t) + "  "
                    + (old.write ? "write" : "read") + " by thread " + std::to_string(old.tid) + " (now in operation "
                    + (threads_[old.tid].what ? threads_[old.tid].what : "?") + ")\n    in " + f);
        }
        void touch(Thread* t, std::uintptr_t a, std::size_t n, bool write, const void* pc)
        {
            const int id = static_cast<int>(t - threads_);
            while (n) {
                const std::uintptr_t g = a >> 3;
                const unsigned off = a & 7;
                const std::size_t k = std::min<std::size_t>(8 - off, n);
                const auto mask = static_cast<std::uint8_t>(((1u << k) - 1) << off);
                Cell* c = cell_of(g);
                if (!c)
                    return;
                count(c_access);
                Access* slot = nullptr;
                Access* idle = nullptr;
                for (auto& x : c->a) {
                    if (!x.used) {
                        if (!slot)
                            slot = &x;
                        continue;
                    }
                    if (x.tid != id) {
                        if ((x.mask & mask) && (x.write || write) && x.clk > t->vc[x.tid])
                            race(x, id, write, pc, a);
                        if (x.clk <= t->vc[x.tid] && !idle)
                            idle = &x;
                    } else if (x.write == write && !(x.mask & ~mask))
                        slot = &x; // the new one stands for it
                }
                if (!slot)
                    slot = idle ? idle : &c->a[mix(g, t->steps) % PerCell];
                slot->used = 1;
                slot->tid = static_cast<std::uint8_t>(id);
                slot->mask = mask;
                slot->write = write;
                slot->clk = t->vc[id];
                slot->pc = pc;
                a += k;
                n -= k;
            }
        }

        // is the block of the arena that `a` lies in released?
        Block* block_at(std::uintptr_t a);

        void access(std::uintptr_t a, std::size_t n, bool write, const void* pc)
        {
            Thread* t = me();
            if (!t || !n)
                return;
            if (a >= t->lo && a < t->hi)
                return;
            if (!watched(a))
                return;
            ++t->quiet;
            if (a >= ArenaBase && a < ArenaBase + ArenaSize) {
                // the first granule of each block knows whether it is there
                Block* b = block_at(a);
                if (b && !b->live) {
                    violate("memory-error",
                        std::string("use-after-release:") + name_of(pc),
                        whose(self_) + " uses memory that was released\n    in " + name_of(pc) + "\n" + where(*t));
                }
                if (b && b->owner != self_ + 1)
                    interesting(t);
            } else
                interesting(t);
            --t->quiet;
            step(t);
            ++t->quiet;
            touch(t, a, n, write, pc);
            --t->quiet;
        }

        // an index of the arena: for every 16 bytes, where its block begins
        std::uint32_t* index_ = nullptr;
        Block* block_at(std::uintptr_t a)
        {
            const std::size_t k = (a - ArenaBase) >> 4;
            if (k >= (top_ >> 4) || !index_[k])
                return nullptr;
            return reinterpret_cast<Block*>(arena_ + (static_cast<std::size_t>(index_[k] - 1) << 4));
        }

        bool must_fail()
        {
            const int k = self_ + 1;
            if (off_ || sutdepth_[k] <= 0 || (self_ >= 0 && threads_[self_].quiet > 0))
                return false;
            ++seen_[k];
            if (armed_[k] && seen_[k] >= armed_[k] && seen_[k] < armed_[k] + burst_[k]) {
                ++fired_[k];
                count(c_alloc);
                return true;
            }
            return false;
        }
        void* allocate(std::size_t n, int kind)
        {
            if (!arena_)
                return __real_malloc(n ? n : 1);
            if (must_fail())
                return nullptr;
            const std::size_t need = (n + sizeof(Block) + 31) & ~std::size_t(15);
            if (top_ + need > ArenaSize)
                ::_exit(7);
            auto b = reinterpret_cast<Block*>(arena_ + top_);
            const std::size_t first = top_ >> 4;
            for (std::size_t k = first; k < (top_ + need) >> 4; ++k)
                index_[k] = static_cast<std::uint32_t>(first + 1);
            top_ += need;
            b->size = n;
            b->live = 1;
            b->owner = static_cast<std::uint8_t>(self_ + 1);
            b->kind = static_cast<std::uint8_t>(kind);
            b->sut = 0;
            b->magic = 0xB10Cu;
            void* p = b + 1;
            if (n)
                __real_memset(p, 0xCD, n);
            return p;
        }
        void release_block(void* p, const void* pc)
        {
            if (!p)
                return;
            if (!in_arena(p)) {
                __real_free(p);
                return;
            }
            auto b = static_cast<Block*>(p) - 1;
            if (off_)
                return;
            Thread* t = me();
            if (t)
                step(t);
            if (b->magic != 0xB10Cu || !b->live) {
                Hush hush(t);
                violate("memory-error",
                    std::string("double-release:") + name_of(pc),
                    "memory is released twice, in " + name_of(pc));
            }
            if (t) {
                ++t->quiet;
                // a release is a write to all of it
                touch(t, reinterpret_cast<std::uintptr_t>(p), b->size, true, pc);
                --t->quiet;
            }
            b->live = 0;
        }

        struct InstallTerminate {
            InstallTerminate()
            {
                std::set_terminate([] {
                    const char* w = self_ >= 0 && threads_[self_].what ? threads_[self_].what : "";
                    std::string why = "no active exception";
                    seams_off();
                    if (auto e = std::current_exception()) {
                        try {
                            std::rethrow_exception(e);
                        } catch (const std::exception& x) {
                            why = x.what();
                        } catch (...) {
                            why = "another exception";
                        }
                    }
                    violate("terminate", w, std::string("std::terminate was called in operation ") + w + " (" + why + ")");
                });
                // what the C++ library fills lazily, behind locks that are its own
                std::ostringstream o;
                o << 1 << ' ' << 1.5 << ' ' << true << ' ' << std::hex << 77ul << static_cast<const void*>(&o);
                std::istringstream i("1 2.5 3");
                int a = 0;
                double b = 0;
                i >> a >> b;
            }
        } install_terminate;
    }

    void seams_off()
    {
        off_ = true;
        active_ = false;
    }

    void quiet(int by)
    {
        if (self_ >= 0)
            threads_[self_].quiet += by;
    }
    int thread_id()
    {
        return self_;
    }
    unsigned long long thread_handle(int i)
    {
        return static_cast<unsigned long long>(threads_[i].handle);
    }

    SutScope::SutScope(const char* what, int id) : saved_what(nullptr), saved_id(-1), saved_depth(0)
    {
        const int k = self_ + 1;
        saved_depth = sutdepth_[k];
        sutdepth_[k] = 1;
        if (self_ >= 0) {
            auto& t = threads_[self_];
            saved_what = t.what;
            saved_id = t.op;
            t.what = what;
            t.op = id;
        }
        std::snprintf(shared->key, sizeof shared->key, "%s", what);
    }
    SutScope::~SutScope()
    {
        const int k = self_ + 1;
        sutdepth_[k] = saved_depth;
        if (self_ >= 0) {
            threads_[self_].what = saved_what;
            threads_[self_].op = saved_id;
        }
    }
    HarnessScope::HarnessScope() : saved(0)
    {
        if (self_ >= 0)
            ++threads_[self_].quiet;
        else
            saved = sutdepth_[0], sutdepth_[0] = 0;
    }
    HarnessScope::~HarnessScope()
    {
        if (self_ >= 0)
            --threads_[self_].quiet;
        else
            sutdepth_[0] = saved;
    }
    void alloc_arm(std::uint64_t nth, std::uint64_t burst)
    {
        const int k = self_ + 1;
        armed_[k] = nth;
        burst_[k] = burst;
        seen_[k] = fired_[k] = 0;
    }
    void alloc_disarm()
    {
        armed_[self_ + 1] = 0;
    }
    std::uint64_t alloc_fired()
    {
        return fired_[self_ + 1];
    }
    std::uint64_t alloc_seen()
    {
        return seen_[self_ + 1];
    }
    std::size_t sut_live()
    {
        return 0;
    }
    void leak_check(const std::string&) {}
    LibcRegex regex_stats()
    {
        return { 0, 0 };
    }

    void arena_start()
    {
        auto map = [](std::uintptr_t at, std::size_t n) {
            void* p = ::mmap(reinterpret_cast<void*>(at),
                n,
                PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0),
                -1,
                0);
            if (p == MAP_FAILED || (at && p != reinterpret_cast<void*>(at)))
                ::_exit(5);
            return p;
        };
        syncs_ = static_cast<Sync*>(map(0, MaxSyncs * sizeof(Sync)));
        cells_ = static_cast<Cell*>(map(0, Cells * sizeof(Cell)));
        buckets_ = static_cast<std::uint32_t*>(map(0, Cells * sizeof(std::uint32_t)));
        index_ = static_cast<std::uint32_t*>(map(0, (ArenaSize >> 4) * sizeof(std::uint32_t)));
        arena_ = static_cast<char*>(map(ArenaBase, ArenaSize));
        top_ = 16;
    }

    namespace
    {
        constexpr std::uintptr_t StackBase = 0x220000000000ull;
        constexpr std::size_t StackSize = 1 << 20;

        void* thread_main(void* arg)
        {
            self_ = static_cast<int>(reinterpret_cast<std::intptr_t>(arg));
            Thread& t = threads_[self_];
            t.quiet = 1;
            futex_wait(&t.futex);
            t.quiet = 0;
            (*t.body)();
            t.quiet = 1000;
            t.state = Finished;
            shared->tsteps[self_] = static_cast<std::uint32_t>(t.steps);
            event("end %d", self_);
            const int to = next_ready(self_);
            if (to < 0)
                for (int i = 0; i < nthreads_; ++i)
                    if (threads_[i].state == Blocked) {
                        violate("deadlock",
                            threads_[i].what ? threads_[i].what : "?",
                            "no thread can go on; waiting: " + whose(i) + "\n" + where(threads_[i]));
                    }
            self_ = -1;
            if (to >= 0) {
                threads_[to].since = 0;
                current_ = to;
                futex_wake(&threads_[to].futex);
            } else
                futex_wake(&main_futex_);
            return nullptr;
        }
    }

    void run_threads(const std::vector<std::function<void()> >& bodies, const Plan& plan)
    {
        nthreads_ = std::min<int>(static_cast<int>(bodies.size()), MaxThreads);
        int first = 0;
        for (int i = 0; i < nthreads_; ++i) {
            Thread& t = threads_[i];
            t = Thread();
            t.state = Ready;
            t.body = &bodies[static_cast<std::size_t>(i)];
            for (int k = 0; k < MaxThreads; ++k)
                t.vc[k] = 0;
            t.vc[i] = 1;
            switches_[i] = new std::vector<std::pair<std::uint64_t, int> >;
        }
        if (!is_ref())
            for (const auto& l : plan.lines) {
                if (l.kind == "first")
                    first = static_cast<int>(l.num(0)) % nthreads_;
                if (l.kind != "sw" || l.num(0) < 0 || l.num(0) >= nthreads_)
                    continue;
                switches_[l.num(0)]->emplace_back(static_cast<std::uint64_t>(l.num(1)), static_cast<int>(l.num(2)));
            }
        if (first < 0)
            first = 0;
        for (int i = 0; i < nthreads_; ++i) {
            std::stable_sort(switches_[i]->begin(), switches_[i]->end(), [](const std::pair<std::uint64_t, int>& a, const std::pair<std::uint64_t, int>& b) {
                return a.first < b.first;
            });
            threads_[i].sw = switches_[i]->data();
            threads_[i].nsw = switches_[i]->size();
            void* st = ::mmap(reinterpret_cast<void*>(StackBase + static_cast<std::uintptr_t>(i) * 2 * StackSize),
                StackSize,
                PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                -1,
                0);
            if (st == MAP_FAILED)
                ::_exit(5);
            threads_[i].lo = reinterpret_cast<std::uintptr_t>(st);
            threads_[i].hi = threads_[i].lo + StackSize;
            pthread_attr_t a;
            pthread_attr_init(&a);
            pthread_attr_setstack(&a, st, StackSize);
            if (pthread_create(&threads_[i].handle, &a, thread_main, reinterpret_cast<void*>(static_cast<std::intptr_t>(i))))
                ::_exit(5);
        }
        active_ = true;
        current_ = first;
        event("start %d", first);
        futex_wake(&threads_[first].futex);
        futex_wait(&main_futex_);
        active_ = false;
        for (int i = 0; i < nthreads_; ++i)
            ::pthread_join(threads_[i].handle, nullptr);
    }

    void add_schedule(Rng& r, Plan& p, const Shared& ref, int n)
    {
        if (n < 2)
            return;
        p.add("first", { S(static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(n)))) });
        auto other = [&](int t) {
            const int k = static_cast<int>(r.below(static_cast<std::uint64_t>(n - 1)));
            return k >= t ? k + 1 : k;
        };
        auto one = [&](int t, std::uint64_t at) { p.add("sw", { S(t), S(static_cast<std::int64_t>(at)), S(other(t)) }); };
        const auto style = r.below(10);
        for (int t = 0; t < n; ++t) {
            const std::uint64_t steps = std::max<std::uint64_t>(1, ref.tsteps[t]);
            if (style < 3) { // few, anywhere
                for (auto k = r.below(4); k; --k)
                    one(t, 1 + r.below(steps));
            } else if (style < 8 && ref.ninteresting[t]) { // where memory that others may know is touched
                std::uint64_t k = style < 5 ? 1 + r.below(3) : 1 + r.below(16);
                // now and then close together: one site after the other
                if (r.chance(1, 3)) {
                    auto i = r.below(ref.ninteresting[t]);
                    for (; k && i < ref.ninteresting[t]; --k, ++i)
                        one(t, ref.interesting[t][i] + (r.chance(1, 4) ? 1 : 0));
                } else
                    for (; k; --k)
                        one(t, ref.interesting[t][r.below(ref.ninteresting[t])] + (r.chance(1, 4) ? 1 : 0));
            } else { // all the time, for a while
                std::uint64_t at = 1 + r.below(steps);
                for (std::uint64_t k = 4 + r.below(28); k; --k) {
                    one(t, at);
                    at += 1 + r.below(style == 8 ? 6 : 1 + steps / 20);
                }
            }
        }
    }

    // ------------------------------------------------------ files
    namespace
    {
        struct File {
            char name[64];
            int fd;
        };
        File files_[8];
        int nfiles_ = 0;
    }
    std::string file_content(const std::string& name)
    {
        std::string o;
        for (int i = 0; i < nfiles_; ++i)
            if (name == files_[i].name) {
                char b[4096];
                off_t at = 0;
                for (ssize_t n; (n = ::pread(files_[i].fd, b, sizeof b, at)) > 0; at += n)
                    o.append(b, static_cast<std::size_t>(n));
            }
        return o;
    }
}

using namespace sim;

// ---------------------------------------------------------------------------------------- new, delete
#define PC __builtin_return_address(0)
void* operator new(std::size_t n)
{
    if (void* p = allocate(n, 1))
        return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n)
{
    if (void* p = allocate(n, 2))
        return p;
    throw std::bad_alloc();
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return allocate(n, 1);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return allocate(n, 2);
}
void operator delete(void* p) noexcept
{
    release_block(p, PC);
}
void operator delete[](void* p) noexcept
{
    release_block(p, PC);
}
void operator delete(void* p, std::size_t) noexcept
{
    release_block(p, PC);
}
void operator delete[](void* p, std::size_t) noexcept
{
    release_block(p, PC);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    release_block(p, PC);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    release_block(p, PC);
}

namespace
{
    struct InLibc {
        const bool own = sim::own_patterns != 0 && sim::shared;
        InLibc()
        {
            if (own)
                sim::shared->in_libc = 1;
        }
        ~InLibc()
        {
            if (own)
                sim::shared->in_libc = 0;
        }
    };
}
extern "C" {
// ---------------------------------------------------------------------------------------- accesses
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (self_ < 0)
        return;
    Thread& t = threads_[self_];
    if (t.depth < 64 && t.depth >= 0)
        t.stack[t.depth] = pc;
    ++t.depth;
}
void __tsan_func_exit()
{
    if (self_ >= 0)
        --threads_[self_].depth;
}
#define A(name, n, w)                                                                                                  \
    void name(void* p)                                                                                                 \
    {                                                                                                                  \
        access(reinterpret_cast<std::uintptr_t>(p), n, w, PC);                                                         \
    }
A(__tsan_read1, 1, false)
A(__tsan_read2, 2, false)
A(__tsan_read4, 4, false)
A(__tsan_read8, 8, false)
A(__tsan_read16, 16, false)
A(__tsan_write1, 1, true)
A(__tsan_write2, 2, true)
A(__tsan_write4, 4, true)
A(__tsan_write8, 8, true)
A(__tsan_write16, 16, true)
A(__tsan_unaligned_read2, 2, false)
A(__tsan_unaligned_read4, 4, false)
A(__tsan_unaligned_read8, 8, false)
A(__tsan_unaligned_read16, 16, false)
A(__tsan_unaligned_write2, 2, true)
A(__tsan_unaligned_write4, 4, true)
A(__tsan_unaligned_write8, 8, true)
A(__tsan_unaligned_write16, 16, true)
A(__tsan_volatile_read1, 1, false)
A(__tsan_volatile_read2, 2, false)
A(__tsan_volatile_read4, 4, false)
A(__tsan_volatile_read8, 8, false)
A(__tsan_volatile_read16, 16, false)
A(__tsan_volatile_write1, 1, true)
A(__tsan_volatile_write2, 2, true)
A(__tsan_volatile_write4, 4, true)
A(__tsan_volatile_write8, 8, true)
A(__tsan_volatile_write16, 16, true)
void __tsan_read_range(void* p, unsigned long n)
{
    access(reinterpret_cast<std::uintptr_t>(p), n, false, PC);
}
void __tsan_write_range(void* p, unsigned long n)
{
    access(reinterpret_cast<std::uintptr_t>(p), n, true, PC);
}
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v)
        access(reinterpret_cast<std::uintptr_t>(p), 8, true, PC);
}
void __tsan_vptr_read(void** p)
{
    access(reinterpret_cast<std::uintptr_t>(p), 8, false, PC);
}

// ---------------------------------------------------------------------------------------- atomics
static void atomic_step(const volatile void* p, int order, bool reads, bool writes)
{
    Thread* t = me();
    if (!t)
        return;
    count(c_atomic);
    interesting(t);
    step(t);
    Sync& s = sync_of(const_cast<const void*>(p));
    const bool relaxed = order == __ATOMIC_RELAXED;
    if (reads && !relaxed && order != __ATOMIC_RELEASE)
        acquire(t, s);
    if (writes && !relaxed && order != __ATOMIC_ACQUIRE && order != __ATOMIC_CONSUME)
        release(t, s);
}
#define ATOMICS(T, B)                                                                                                  \
    T __tsan_atomic##B##_load(const volatile T* p, int o)                                                              \
    {                                                                                                                  \
        atomic_step(p, o, true, false);                                                                                \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##B##_store(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic_step(p, o, false, true);                                                                                \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o)                                                           \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o)                                                          \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int o)                                                         \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int)                               \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int)                                 \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int o, int)                                     \
    {                                                                                                                  \
        atomic_step(p, o, true, true);                                                                                 \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return e;                                                                                                      \
    }
ATOMICS(unsigned char, 8)
ATOMICS(unsigned short, 16)
ATOMICS(unsigned int, 32)
ATOMICS(unsigned long, 64)
void __tsan_atomic_thread_fence(int)
{
    // all fences meet in one place
    static int fence;
    atomic_step(&fence, __ATOMIC_SEQ_CST, true, true);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------- statics
int __cxa_guard_acquire(unsigned long* g)
{
    auto b = reinterpret_cast<unsigned char*>(g);
    Thread* t = active_ && self_ >= 0 ? &threads_[self_] : nullptr;
    if (!t)
        return b[0] == 0 ? (b[1] = 1) : 0;
    if (!t->quiet)
        step(t);
    for (;;) {
        Sync& s = sync_of(g);
        if (b[0]) {
            acquire(t, s);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            s.owner = self_;
            acquire(t, s);
            count(c_guard);
            if (!t->quiet)
                interesting(t);
            return 1;
        }
        if (s.owner == self_)
            deadlock(t, " initialises a static within its own initialisation");
        block(t, g);
    }
}
void __cxa_guard_release(unsigned long* g)
{
    auto b = reinterpret_cast<unsigned char*>(g);
    if (active_ && self_ >= 0) {
        release(&threads_[self_], sync_of(g));
        sync_of(g).owner = -1;
        wake(g, true);
    }
    b[1] = 0;
    b[0] = 1;
}
void __cxa_guard_abort(unsigned long* g)
{
    auto b = reinterpret_cast<unsigned char*>(g);
    b[1] = 0;
    if (active_ && self_ >= 0) {
        sync_of(g).owner = -1;
        wake(g, true);
    }
}

// ---------------------------------------------------------------------------------------- locks
#define REAL(f) reinterpret_cast<decltype(&f)>(::dlsym(RTLD_NEXT, #f))
static Thread* locker()
{
    return active_ && self_ >= 0 ? &threads_[self_] : nullptr;
}
static void lock_step(Thread* t)
{
    count(c_lock);
    if (!t->quiet) {
        interesting(t);
        step(t);
    }
}
static int lock(Thread* t, const void* m, bool recursive, bool wait)
{
    lock_step(t);
    for (;;) {
        Sync& s = sync_of(m);
        if (s.owner < 0 && !s.readers) {
            s.owner = self_;
            s.count = 1;
            acquire(t, s);
            event("lock %d", self_);
            return 0;
        }
        if (s.owner == self_) {
            if (recursive) {
                ++s.count;
                return 0;
            }
            if (!wait)
                return EBUSY;
            deadlock(t, " waits for a lock that it holds");
        }
        if (!wait)
            return EBUSY;
        block(t, m);
    }
}
static int unlock(Thread* t, const void* m)
{
    Sync& s = sync_of(m);
    if (s.readers > 0 && s.owner < 0) {
        release(t, s);
        if (!--s.readers)
            wake(m, true);
        return 0;
    }
    if (s.owner != self_)
        deadlock(t, " releases a lock that it does not hold");
    if (--s.count)
        return 0;
    release(t, s);
    s.owner = -1;
    event("unlock %d", self_);
    wake(m, true);
    if (!t->quiet)
        step(t);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (auto t = locker())
        return lock(t, m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, true);
    static auto r = REAL(pthread_mutex_lock);
    return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (auto t = locker())
        return lock(t, m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, false);
    static auto r = REAL(pthread_mutex_trylock);
    return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (auto t = locker())
        return lock(t, m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, true);
    static auto r = REAL(pthread_mutex_timedlock);
    return r(m, ts);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (auto t = locker())
        return unlock(t, m);
    static auto r = REAL(pthread_mutex_unlock);
    return r(m);
}
static int rdlock(Thread* t, const void* m, bool wait)
{
    lock_step(t);
    for (;;) {
        Sync& s = sync_of(m);
        if (s.owner < 0) {
            ++s.readers;
            acquire(t, s);
            return 0;
        }
        if (!wait)
            return EBUSY;
        block(t, m);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (auto t = locker())
        return rdlock(t, m, true);
    static auto r = REAL(pthread_rwlock_rdlock);
    return r(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (auto t = locker())
        return rdlock(t, m, false);
    static auto r = REAL(pthread_rwlock_tryrdlock);
    return r(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (auto t = locker())
        return lock(t, m, false, true);
    static auto r = REAL(pthread_rwlock_wrlock);
    return r(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (auto t = locker())
        return lock(t, m, false, false);
    static auto r = REAL(pthread_rwlock_trywrlock);
    return r(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (auto t = locker())
        return unlock(t, m);
    static auto r = REAL(pthread_rwlock_unlock);
    return r(m);
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (auto t = locker()) {
        lock_step(t);
        for (;;) {
            Sync& s = sync_of(o);
            if (*o == 2) {
                acquire(t, s);
                return 0;
            }
            if (!*o)
                break;
            block(t, o);
        }
        *o = 1;
        try {
            f();
        } catch (...) {
            *o = 0;
            wake(o, true);
            throw;
        }
        release(t, sync_of(o));
        *o = 2;
        wake(o, true);
        return 0;
    }
    if (*o == 2)
        return 0;
    f();
    *o = 2;
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (auto t = locker()) {
        unlock(t, m);
        block(t, c);
        acquire(t, sync_of(c));
        return lock(t, m, false, true);
    }
    static auto r = REAL(pthread_cond_wait);
    return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (auto t = locker()) {
        unlock(t, m);
        if (next_ready(self_) >= 0 && next_ready(self_) != self_)
            block(t, c);
        acquire(t, sync_of(c));
        lock(t, m, false, true);
        return ETIMEDOUT;
    }
    static auto r = REAL(pthread_cond_timedwait);
    return r(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (auto t = locker()) {
        release(t, sync_of(c));
        wake(c, false);
        return 0;
    }
    static auto r = REAL(pthread_cond_signal);
    return r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (auto t = locker()) {
        release(t, sync_of(c));
        wake(c, true);
        return 0;
    }
    static auto r = REAL(pthread_cond_broadcast);
    return r(c);
}
static bool give_way()
{
    auto t = locker();
    if (!t)
        return false;
    t->steps++;
    const int to = next_ready(self_);
    if (to >= 0 && to != self_)
        hand_over(to);
    return true;
}
int sched_yield(void) noexcept
{
    if (give_way())
        return 0;
    return static_cast<int>(::syscall(SYS_sched_yield));
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (give_way())
        return 0;
    return static_cast<int>(::syscall(SYS_nanosleep, a, b));
}
int usleep(useconds_t)
{
    give_way();
    return 0;
}

// ---------------------------------------------------------------------------------------- the C library
#define RD(p, n) access(reinterpret_cast<std::uintptr_t>(p), n, false, PC)
#define WR(p, n) access(reinterpret_cast<std::uintptr_t>(p), n, true, PC)
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n && me()) {
        RD(s, n);
        WR(d, n);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n && me()) {
        RD(s, n);
        WR(d, n);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (n && me())
        WR(d, n);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (n && me()) {
        RD(a, n);
        RD(b, n);
    }
    return __real_memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n)
{
    if (n && me())
        RD(a, n);
    return __real_memchr(a, c, n);
}
size_t __wrap_strlen(const char* a)
{
    const size_t n = __real_strlen(a);
    if (me())
        RD(a, n + 1);
    return n;
}
int __wrap_strcmp(const char* a, const char* b)
{
    if (me()) {
        RD(a, __real_strlen(a) + 1);
        RD(b, __real_strlen(b) + 1);
    }
    return __real_strcmp(a, b);
}
int __wrap_strcasecmp(const char* a, const char* b)
{
    if (me()) {
        RD(a, __real_strlen(a) + 1);
        RD(b, __real_strlen(b) + 1);
    }
    return __real_strcasecmp(a, b);
}
int __wrap_strncmp(const char* a, const char* b, size_t n)
{
    if (me() && n) {
        size_t k = 0;
        while (k + 1 < n && a[k] && a[k] == b[k])
            ++k;
        RD(a, k + 1);
        RD(b, k + 1);
    }
    return __real_strncmp(a, b, n);
}
// text put together by the C library: what it writes, not what it reads
static int print_into(char* to, size_t n, const char* f, va_list v, void* pc)
{
    const int k = __real_vsnprintf(to, n, f, v);
    if (k >= 0 && n && me())
        access(reinterpret_cast<std::uintptr_t>(to), std::min(static_cast<size_t>(k) + 1, n), true, pc);
    return k;
}
int __wrap_vsnprintf(char* to, size_t n, const char* f, va_list v)
{
    return print_into(to, n, f, v, PC);
}
int __wrap_snprintf(char* to, size_t n, const char* f, ...)
{
    va_list v;
    va_start(v, f);
    const int k = print_into(to, n, f, v, PC);
    va_end(v);
    return k;
}
int __wrap_sprintf(char* to, const char* f, ...)
{
    va_list v;
    va_start(v, f);
    const int k = print_into(to, ~size_t(0) >> 2, f, v, PC);
    va_end(v);
    return k;
}
char* __wrap_strcpy(char* d, const char* s)
{
    const size_t n = __real_strlen(s) + 1;
    if (me()) {
        RD(s, n);
        WR(d, n);
    }
    return __real_strcpy(d, s);
}
char* __wrap_strncpy(char* d, const char* s, size_t n)
{
    if (me() && n) {
        size_t k = 0;
        while (k + 1 < n && s[k])
            ++k;
        RD(s, k + 1);
        WR(d, n);
    }
    return __real_strncpy(d, s, n);
}
char* __wrap_strcat(char* d, const char* s)
{
    const size_t m = __real_strlen(d), n = __real_strlen(s) + 1;
    if (me()) {
        RD(d, m + 1);
        RD(s, n);
        WR(d + m, n);
    }
    return __real_strcat(d, s);
}
char* __wrap_strchr(const char* s, int c)
{
    if (me())
        RD(s, __real_strlen(s) + 1);
    return __real_strchr(s, c);
}
char* __wrap_strrchr(const char* s, int c)
{
    if (me())
        RD(s, __real_strlen(s) + 1);
    return __real_strrchr(s, c);
}
char* __wrap_strstr(const char* a, const char* b)
{
    if (me()) {
        RD(a, __real_strlen(a) + 1);
        RD(b, __real_strlen(b) + 1);
    }
    return __real_strstr(a, b);
}
// functions with state of their own: not to be called by two threads at once
#define STATEFUL(state)                                                                                                \
    static long state;                                                                                                 \
    WR(&state, 8)
char* __wrap_strtok(char* a, const char* b)
{
    STATEFUL(of_strtok);
    return __real_strtok(a, b);
}
static long locale_state;
char* __wrap_setlocale(int c, const char* n)
{
    WR(&locale_state, 8);
    return __real_setlocale(c, n);
}
static long time_state;
struct tm* __wrap_localtime(const time_t* t)
{
    WR(&time_state, 8);
    return __real_localtime(t);
}
struct tm* __wrap_gmtime(const time_t* t)
{
    WR(&time_state, 8);
    return __real_gmtime(t);
}
char* __wrap_asctime(const struct tm* t)
{
    WR(&time_state, 8);
    return __real_asctime(t);
}
char* __wrap_ctime(const time_t* t)
{
    WR(&time_state, 8);
    return __real_ctime(t);
}
int __wrap_rand(void)
{
    STATEFUL(of_rand);
    return __real_rand();
}
char* __wrap_strerror(int e)
{
    STATEFUL(of_strerror);
    return __real_strerror(e);
}
static long env_state;
char* __wrap_getenv(const char* n)
{
    RD(&env_state, 8);
    return __real_getenv(n);
}
int __wrap_setenv(const char* n, const char* v, int o)
{
    WR(&env_state, 8);
    return __real_setenv(n, v, o);
}
int __wrap_putenv(char* s)
{
    WR(&env_state, 8);
    return __real_putenv(s);
}
int __wrap_regcomp(regex_t* r, const char* e, int f)
{
    if (me()) {
        WR(r, sizeof *r);
        RD(e, __real_strlen(e) + 1);
    }
    if (must_fail())
        return REG_ESPACE;
    InLibc in;
    return __real_regcomp(r, e, f);
}
void __wrap_regfree(regex_t* r)
{
    if (me())
        WR(r, sizeof *r);
    __real_regfree(r);
}
int __wrap_regexec(const regex_t* r, const char* s, size_t n, regmatch_t m[], int f)
{
    if (me()) {
        RD(r, sizeof *r);
        RD(s, __real_strlen(s) + 1);
    }
    InLibc in;
    const int rc = __real_regexec(r, s, n, m, f);
    if (!rc && n && m && me())
        WR(m, n * sizeof *m);
    return rc;
}
void* __wrap_malloc(size_t n)
{
    return allocate(n, 3);
}
void* __wrap_calloc(size_t a, size_t b)
{
    void* p = allocate(a * b, 3);
    if (p)
        __real_memset(p, 0, a * b);
    return p;
}
void __wrap_free(void* p)
{
    release_block(p, PC);
}
void* __wrap_realloc(void* old, size_t n)
{
    if (!old)
        return __wrap_malloc(n);
    if (!in_arena(old))
        return __real_realloc(old, n);
    void* p = allocate(n, 3);
    if (!p)
        return nullptr;
    const size_t m = (static_cast<Block*>(old) - 1)->size;
    __real_memcpy(p, old, n < m ? n : m);
    release_block(old, PC);
    return p;
}
char* __wrap_strdup(const char* s)
{
    const size_t n = __real_strlen(s) + 1;
    if (me())
        RD(s, n);
    auto p = static_cast<char*>(allocate(n, 3));
    if (p)
        __real_memcpy(p, s, n);
    return p;
}

// ---------------------------------------------------------------------------------------- files
static std::FILE* open_file(const char* name, const char* mode)
{
    for (int i = 0; i < nfiles_; ++i)
        if (!std::strcmp(files_[i].name, name))
            return ::fdopen(::dup(files_[i].fd), mode);
    if (nfiles_ == 8)
        ::_exit(8);
    const int fd = static_cast<int>(::syscall(SYS_memfd_create, "sim", 0));
    if (fd < 0)
        ::_exit(8);
    std::snprintf(files_[nfiles_].name, sizeof files_[0].name, "%s", name);
    files_[nfiles_++].fd = ::dup(fd);
    return ::fdopen(fd, mode);
}
std::FILE* fopen(const char* name, const char* mode)
{
    if (arena_ && !off_)
        return open_file(name, mode);
    static auto r = REAL(fopen);
    return r(name, mode);
}
std::FILE* fopen64(const char* name, const char* mode)
{
    if (arena_ && !off_)
        return open_file(name, mode);
    static auto r = REAL(fopen64);
    return r(name, mode);
}
}
