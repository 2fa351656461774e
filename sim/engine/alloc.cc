// Allocation seam of the fault-injecting build. Blocks live in the sanitizer's heap, so overflows
// and uses after free are seen; a side table outside of the heap records who owns what.
#include "seams.h"

#include <cstdio>
#include <exception>
#include <link.h>
#include <new>
#include <regex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
size_t __asan_get_alloc_stack(void* addr, void** trace, size_t size, int* thread_id);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out_buf, size_t out_buf_size);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
char* __real_strdup(const char*);
int __real_regcomp(regex_t*, const char*, int);
void __real_regfree(regex_t*);
int __real_regexec(const regex_t*, const char*, size_t, regmatch_t[], int);
}

namespace sim
{
    void raw_write(int fd, const void* p, std::size_t n)
    {
        ::syscall(SYS_write, fd, p, n);
    }

    namespace
    {
        constexpr std::uintptr_t Mask = 0x5A5A5A5A5A5A5A5Aull;
        enum Kind : std::uint8_t { New = 1, NewArray = 2, Malloc = 3 };
        struct Entry {
            std::uintptr_t p; //< masked, so that the table does not look like a reference
            std::uint32_t size;
            std::uint8_t kind;
            std::int16_t op;
            const char* what;
        };
        constexpr int TableBits = 17;
        constexpr std::size_t TableSize = std::size_t(1) << TableBits;
        Entry* table_ = nullptr;
        std::size_t live_ = 0;
        bool off_ = false;

        int depth_ = 0;
        const char* what_ = "";
        int op_ = -1;
        bool armed_ = false;
        std::uint64_t nth_ = 0, burst_ = 0, seen_ = 0, fired_ = 0;
        LibcRegex rx_ = { 0, 0 };

        const int c_alloc = counter("fault.alloc-failure");
        const int c_regcomp = counter("fault.regcomp-failure");
        const int c_allocs = counter("seam.allocations");

        void init()
        {
            void* p = ::mmap(nullptr,
                TableSize * sizeof(Entry),
                PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                -1,
                0);
            if (p == MAP_FAILED)
                ::_exit(5);
            table_ = static_cast<Entry*>(p);
        }
        std::size_t slot(std::uintptr_t p)
        {
            return ((p >> 4) * 0x9E3779B97F4A7C15ull) >> (64 - TableBits);
        }
        void record(void* ptr, std::size_t n, Kind k)
        {
            if (depth_ <= 0)
                return; // the harness's own
            if (!table_)
                init();
            const auto p = reinterpret_cast<std::uintptr_t>(ptr) ^ Mask;
            std::size_t i = slot(reinterpret_cast<std::uintptr_t>(ptr));
            while (table_[i].p)
                i = (i + 1) & (TableSize - 1);
            if (++live_ > TableSize / 4 * 3)
                ::_exit(6);
            table_[i] = Entry{ p, static_cast<std::uint32_t>(n), static_cast<std::uint8_t>(k), static_cast<std::int16_t>(op_), what_ };
        }
        Entry* lookup(void* ptr)
        {
            if (!table_)
                return nullptr;
            const auto p = reinterpret_cast<std::uintptr_t>(ptr) ^ Mask;
            for (std::size_t i = slot(reinterpret_cast<std::uintptr_t>(ptr)); table_[i].p; i = (i + 1) & (TableSize - 1))
                if (table_[i].p == p)
                    return &table_[i];
            return nullptr;
        }
        void forget(void* ptr, Kind k, std::size_t size, bool sized)
        {
            Entry* e = lookup(ptr);
            if (!e)
                return; // the sanitizer reports it if it is wrong
            if (!off_) {
                static const char* names[] = { "", "new", "new[]", "malloc" };
                static const char* dels[] = { "", "delete", "delete[]", "free" };
                if (e->kind != k)
                    violate("memory-error",
                        std::string("mismatched-release:") + e->what,
                        std::string("a block from ") + names[e->kind] + " in operation " + e->what
                            + " is released with " + dels[k]);
                if (sized && e->size != size)
                    violate("memory-error",
                        std::string("sized-release:") + e->what,
                        "a block of " + std::to_string(e->size) + " bytes is released as one of "
                            + std::to_string(size));
            }
            --live_;
            // close the gap
            std::size_t i = static_cast<std::size_t>(e - table_), j = i;
            for (;;) {
                j = (j + 1) & (TableSize - 1);
                if (!table_[j].p)
                    break;
                const std::size_t h = slot(table_[j].p ^ Mask);
                if (((j - h) & (TableSize - 1)) >= ((j - i) & (TableSize - 1))) {
                    table_[i] = table_[j];
                    i = j;
                }
            }
            table_[i].p = 0;
        }
        // Rare paths have few of the allocations of a run: their sites are known by the chain of callers.
        std::uint64_t* chains_ = nullptr;
        constexpr std::size_t Chains = std::size_t(1) << 16;
        std::size_t nchains_ = 0;
        bool new_chain(std::uint64_t h)
        {
            h |= 1;
            if (nchains_ > Chains / 4 * 3)
                return false;
            for (std::size_t i = h >> 48;; i = (i + 1) & (Chains - 1)) {
                if (chains_[i] == h)
                    return false;
                if (!chains_[i]) {
                    chains_[i] = h;
                    ++nchains_;
                    return true;
                }
            }
        }
        __attribute__((no_sanitize("address"), noinline)) void note_site()
        {
            if (!shared || expect || op_ < 0 || op_ > 0xffff || shared->nsites >= MaxSites)
                return;
            if (!chains_) {
                void* p = ::mmap(nullptr, Chains * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (p == MAP_FAILED)
                    ::_exit(5);
                chains_ = static_cast<std::uint64_t*>(p);
            }
            const auto top = reinterpret_cast<std::uintptr_t>(environ);
            auto fp = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0));
            std::uint64_t h = mix(static_cast<std::uint64_t>(op_), 77), near = 0;
            int n = 0;
            for (; n < 16; ++n) {
                const auto* f = reinterpret_cast<const std::uintptr_t*>(fp);
                h = mix(h, f[1]);
                if (n == 8)
                    near = h;
                const auto up = f[0];
                if (up <= fp || up + 16 > top || up & 7)
                    break;
                fp = up;
            }
            if (n <= 8)
                near = h;
            if (new_chain(h))
                shared->sites[shared->nsites++]
                    = Site{ static_cast<std::uint16_t>(op_), static_cast<std::uint16_t>(near == h || new_chain(~near)), static_cast<std::uint32_t>(seen_) };
        }
        bool must_fail()
        {
            if (depth_ <= 0 || off_)
                return false;
            if (shared) {
                shared->steps++;
                shared->counters[c_allocs]++;
            }
            ++seen_;
            note_site();
            if (armed_ && seen_ >= nth_ && seen_ < nth_ + burst_) {
                ++fired_;
                shared->counters[c_alloc]++;
                return true;
            }
            return false;
        }
        void* allocate(std::size_t n, Kind k)
        {
            if (must_fail())
                return nullptr;
            void* p = __real_malloc(n ? n : 1);
            if (!p)
                ::_exit(7);
            // what a fresh block holds is arbitrary
            if (depth_ > 0)
                __builtin_memset(p, 0xCD, n);
            record(p, n, k);
            return p;
        }
        void release(void* p, Kind k, std::size_t n, bool sized)
        {
            if (!p)
                return;
            forget(p, k, n, sized);
            __real_free(p);
        }

        [[noreturn]] void on_terminate()
        {
            const auto fired = fired_;
            seams_off(); // what follows allocates
            std::string why = "no active exception";
            if (auto e = std::current_exception()) {
                try {
                    std::rethrow_exception(e);
                } catch (const std::exception& x) {
                    why = x.what();
                } catch (...) {
                    why = "another exception";
                }
            }
            violate("terminate", what_, std::string("std::terminate was called in operation ") + what_ + " (" + why + ")"
                    + (fired ? " after an injected allocation failure" : ""));
        }
        struct InstallTerminate {
            InstallTerminate()
            {
                std::set_terminate(on_terminate);
            }
        } install_terminate;
    }

    void seams_off()
    {
        off_ = true;
        armed_ = false;
        depth_ = 0;
    }

    SutScope::SutScope(const char* what, int id) : saved_what(what_), saved_id(op_), saved_depth(depth_)
    {
        what_ = what;
        op_ = id;
        depth_ = 1;
        // what a crash or a hang is attributed to
        std::snprintf(shared->key, sizeof shared->key, "%s", what);
    }
    SutScope::~SutScope()
    {
        what_ = saved_what;
        op_ = saved_id;
        depth_ = saved_depth;
    }
    // A stand-in for a third-party library: its memory is its own, what it calls back is not.
    void standin(int delta)
    {
        static int saved[64], n = 0;
        if (delta > 0) {
            if (n < 64)
                saved[n] = depth_;
            ++n;
            depth_ = 0;
        } else {
            --n;
            depth_ = n < 64 ? saved[n] : 0;
        }
    }
    HarnessScope::HarnessScope() : saved(depth_)
    {
        depth_ = 0;
    }
    HarnessScope::~HarnessScope()
    {
        depth_ = saved;
    }

    void alloc_arm(std::uint64_t nth, std::uint64_t burst)
    {
        armed_ = nth != 0;
        nth_ = nth;
        burst_ = burst;
        seen_ = 0;
        fired_ = 0;
    }
    void alloc_disarm()
    {
        armed_ = false;
    }
    std::uint64_t alloc_fired()
    {
        return fired_;
    }
    std::uint64_t alloc_seen()
    {
        return seen_;
    }
    std::size_t sut_live()
    {
        return live_;
    }
    LibcRegex regex_stats()
    {
        return rx_;
    }

    namespace
    {
        struct Range {
            std::uintptr_t lo, hi;
        };
        std::vector<Range>* roots_;

        int collect(struct dl_phdr_info* info, size_t, void*)
        {
            const char* n = info->dlpi_name ? info->dlpi_name : "";
            if (__builtin_strstr(n, "libasan") || __builtin_strstr(n, "libubsan"))
                return 0;
            for (int i = 0; i < info->dlpi_phnum; ++i) {
                const auto& ph = info->dlpi_phdr[i];
                if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
                    roots_->push_back(Range{ info->dlpi_addr + ph.p_vaddr, info->dlpi_addr + ph.p_vaddr + ph.p_memsz });
                if (ph.p_type == PT_TLS && info->dlpi_tls_data)
                    roots_->push_back(Range{ reinterpret_cast<std::uintptr_t>(info->dlpi_tls_data),
                        reinterpret_cast<std::uintptr_t>(info->dlpi_tls_data) + ph.p_memsz });
            }
            return 0;
        }

        __attribute__((no_sanitize("address"))) void scan(
            std::uintptr_t lo, std::uintptr_t hi, std::vector<std::uintptr_t>& found)
        {
            lo = (lo + 7) & ~std::uintptr_t(7);
            for (; lo + 8 <= hi; lo += 8) {
                const auto v = *reinterpret_cast<volatile std::uintptr_t*>(lo);
                if (v > 4096)
                    found.push_back(v);
            }
        }
    }

    void leak_check(const std::string& when)
    {
        if (off_)
            return;
        if (rx_.compiled != rx_.freed)
            violate("leak",
                "regex:" + when,
                "a compiled regular expression was not released: " + std::to_string(rx_.compiled) + " compiled, "
                    + std::to_string(rx_.freed) + " released");
        if (!live_)
            return;
        std::vector<Entry*> cand;
        std::vector<Range> roots;
        for (std::size_t i = 0; i < TableSize; ++i)
            if (table_[i].p)
                cand.push_back(&table_[i]);
        roots_ = &roots;
        ::dl_iterate_phdr(collect, nullptr);
        std::vector<std::uintptr_t> words;
        for (const auto& r : roots)
            scan(r.lo, r.hi, words);
        // reachable through other candidates
        std::vector<char> reach(cand.size(), 0);
        for (bool more = true; more;) {
            more = false;
            std::vector<std::uintptr_t> next;
            for (auto w : words)
                for (std::size_t c = 0; c < cand.size(); ++c) {
                    if (reach[c])
                        continue;
                    const auto p = cand[c]->p ^ Mask;
                    if (w >= p && w < p + (cand[c]->size ? cand[c]->size : 1)) {
                        reach[c] = 1;
                        more = true;
                        scan(p, p + cand[c]->size, next);
                    }
                }
            words.swap(next);
        }
        for (std::size_t c = 0; c < cand.size(); ++c)
            if (!reach[c]) {
                std::string stack;
                void* pcs[16];
                int tid;
                const auto n = __asan_get_alloc_stack(reinterpret_cast<void*>(cand[c]->p ^ Mask), pcs, 16, &tid);
                for (std::size_t i = 0; i < n; ++i) {
                    char b[400];
                    __sanitizer_symbolize_pc(pcs[i], "    %f %s:%l", b, sizeof b);
                    stack += std::string(b) + "\n";
                }
                violate("leak",
                    std::string(cand[c]->what),
                    "a block of " + std::to_string(cand[c]->size) + " bytes allocated in operation " + cand[c]->what
                        + " is still allocated and unreachable (" + when + ")\n" + stack);
            }
    }
}

// ---------------------------------------------------------------------------------------- new, delete
void* operator new(std::size_t n)
{
    if (void* p = sim::allocate(n, sim::New))
        return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n)
{
    if (void* p = sim::allocate(n, sim::NewArray))
        return p;
    throw std::bad_alloc();
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::allocate(n, sim::New);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::allocate(n, sim::NewArray);
}
void operator delete(void* p) noexcept
{
    sim::release(p, sim::New, 0, false);
}
void operator delete[](void* p) noexcept
{
    sim::release(p, sim::NewArray, 0, false);
}
void operator delete(void* p, std::size_t n) noexcept
{
    sim::release(p, sim::New, n, true);
}
void operator delete[](void* p, std::size_t) noexcept
{
    sim::release(p, sim::NewArray, 0, false);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    sim::release(p, sim::New, 0, false);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    sim::release(p, sim::NewArray, 0, false);
}

// ---------------------------------------------------------------------------------------- C heap, regex
// Each pattern is compiled once in a run: compiling takes most of the time of a run otherwise. What the code
// under test holds is a ticket, so that use after release and double release still show.
namespace sim
{
    namespace
    {
        struct Pattern {
            char* text;
            int flags;
            regex_t re;
        };
        struct Ticket {
            int pattern;
            bool live;
        };
        constexpr int MaxPatterns = 1024, MaxTickets = 1 << 20;
        Pattern patterns_[MaxPatterns];
        Ticket tickets_[MaxTickets];
        int npatterns_ = 0, ntickets_ = 0;

        Ticket* ticket(const regex_t* r)
        {
            const auto p = reinterpret_cast<std::uintptr_t>(r->buffer), lo = reinterpret_cast<std::uintptr_t>(tickets_);
            if (p < lo || p >= lo + sizeof tickets_ || (p - lo) % sizeof(Ticket))
                return nullptr;
            return tickets_ + (p - lo) / sizeof(Ticket);
        }
        int compile(regex_t* r, const char* e, int f)
        {
            int i = 0;
            while (i < npatterns_ && !(patterns_[i].flags == f && !__builtin_strcmp(patterns_[i].text, e)))
                ++i;
            if (i == npatterns_ || ntickets_ == MaxTickets) {
                const int rc = __real_regcomp(r, e, f);
                if (rc || i == MaxPatterns || ntickets_ == MaxTickets)
                    return rc;
                const size_t n = __builtin_strlen(e) + 1;
                patterns_[i].text = static_cast<char*>(__real_malloc(n));
                __builtin_memcpy(patterns_[i].text, e, n);
                patterns_[i].flags = f;
                patterns_[i].re = *r;
                ++npatterns_;
            }
            *r = patterns_[i].re;
            tickets_[ntickets_] = Ticket{ i, true };
            r->buffer = reinterpret_cast<decltype(r->buffer)>(&tickets_[ntickets_++]);
            return 0;
        }
    }
}
namespace
{
    struct InLibc {
        const bool own = sim::own_patterns != 0 && sim::shared;
        InLibc()
        {
            if (own)
                sim::shared->in_libc = 1;
        }
        ~InLibc()
        {
            if (own)
                sim::shared->in_libc = 0;
        }
    };
}
extern "C" {
void* __wrap_malloc(size_t n)
{
    return sim::allocate(n, sim::Malloc);
}
void* __wrap_calloc(size_t a, size_t b)
{
    void* p = sim::allocate(a * b, sim::Malloc);
    if (p)
        __builtin_memset(p, 0, a * b);
    return p;
}
void* __wrap_realloc(void* old, size_t n)
{
    if (!old)
        return __wrap_malloc(n);
    auto e = sim::lookup(old);
    if (!e)
        return __real_realloc(old, n);
    void* p = sim::allocate(n, sim::Malloc);
    if (!p)
        return nullptr;
    __builtin_memcpy(p, old, n < e->size ? n : e->size);
    sim::release(old, sim::Malloc, 0, false);
    return p;
}
void __wrap_free(void* p)
{
    sim::release(p, sim::Malloc, 0, false);
}
char* __wrap_strdup(const char* s)
{
    const size_t n = __builtin_strlen(s) + 1;
    char* p = static_cast<char*>(__wrap_malloc(n));
    if (p)
        __builtin_memcpy(p, s, n);
    return p;
}
int __wrap_regcomp(regex_t* r, const char* e, int f)
{
    if (sim::must_fail()) {
        sim::count(sim::c_regcomp);
        return REG_ESPACE;
    }
    InLibc in;
    const int rc = sim::compile(r, e, f);
    if (!rc && sim::depth_ > 0)
        sim::rx_.compiled++;
    return rc;
}
void __wrap_regfree(regex_t* r)
{
    if (sim::depth_ > 0)
        sim::rx_.freed++;
    if (sim::Ticket* t = sim::ticket(r)) {
        if (!t->live)
            sim::violate("memory-error", "regfree", "a compiled regular expression is released a second time");
        t->live = false;
        r->buffer = nullptr;
    } else
        __real_regfree(r);
}
int __wrap_regexec(const regex_t* r, const char* s, size_t n, regmatch_t m[], int f)
{
    if (sim::must_fail()) {
        sim::count(sim::c_regcomp);
        return REG_ESPACE;
    }
    InLibc in;
    if (sim::Ticket* t = sim::ticket(r)) {
        if (!t->live)
            sim::violate("memory-error", "regexec", "a compiled regular expression is used after it was released");
        return __real_regexec(&sim::patterns_[t->pattern].re, s, n, m, f);
    }
    return __real_regexec(r, s, n, m, f);
}
}

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:quarantine_size_mb=8:malloc_context_size=1:detect_stack_use_after_return=0:handle_abort=0:"
           "allocator_may_return_null=1:check_initialization_order=0:print_legend=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}
