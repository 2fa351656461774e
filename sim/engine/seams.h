// Seams: what the simulator puts between the code under test and the world.
#ifndef SIM_SEAMS_H
#define SIM_SEAMS_H

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "core.h"

namespace sim
{
    void raw_write(int fd, const void* p, std::size_t n);
    void seams_off(); //< the run is over: everything passes through

    // ---------------------------------------------------------------- allocator
    // Code between construction and destruction is code under test: its allocations are counted,
    // may be made to fail, and must be released.
    struct SutScope {
        SutScope(const char* what, int id);
        ~SutScope();
        const char* saved_what;
        int saved_id, saved_depth;
    };
    // A callback from the code under test back into the harness: not counted, never made to fail.
    struct HarnessScope {
        HarnessScope();
        ~HarnessScope();
        int saved;
    };

    void standin(int delta); //< enters (1) or leaves (-1) a stand-in for a third-party library

    void alloc_arm(std::uint64_t nth, std::uint64_t burst); //< fail allocations nth .. nth+burst-1 (1-based)
    void alloc_disarm();
    std::uint64_t alloc_fired(); //< failures injected since alloc_arm
    std::uint64_t alloc_seen();  //< allocations since alloc_arm
    // One of the n allocations of an operation: any of them, or one at the end of any chain of callers
    std::uint64_t pick_alloc(Rng&, const Shared& ref, std::int64_t op);
    std::size_t sut_live();      //< allocations of the code under test that are still there

    // Violation if something allocated by the code under test was neither released nor is reachable
    // from static storage.
    void leak_check(const std::string& when);

    struct LibcRegex {
        std::uint64_t compiled, freed;
    };
    LibcRegex regex_stats();

    // ---------------------------------------------------------------- I/O
    enum IoErr {
        IO_OK = 0,
        IO_SHORT = 1,  //< fewer bytes than asked for
        IO_EINTR = 2,  //< interrupted by a signal
        IO_EIO = 3,    //< the device fails
        IO_ENOSPC = 4, //< the disk is full
        IO_EOF = 5,    //< the input ends early
        IO_EAGAIN = 6, //< a non-blocking descriptor
        IO_CRASH = 7,  //< the machine stops here
        IO_KINDS = 8,
    };
    struct IoFault {
        std::uint64_t call; //< n-th data call on that channel (1-based); 0: the call that closes it
        IoErr what;
        std::uint64_t arg;  //< bytes of a short transfer; otherwise 1: every further call fails as well
    };
    struct Channel {        //< a simulated file, stdin, stdout or stderr
        std::string name;
        std::string data;   //< durable content: what is read, or what was written
        std::string buffer; //< of the standard output: not yet written
        std::size_t buffer_size = 0;
        std::size_t pos = 0;
        bool exists = false;
        int open_errno = 0; //< opening fails
        int opens = 0, closes = 0;
        std::uint64_t calls = 0, bytes = 0;
        std::vector<IoFault> faults;
        IoErr sticky = IO_OK;
        std::uint64_t capacity = ~0ull; //< the disk is full beyond that many bytes
        std::uint64_t injected[IO_KINDS] = {};
        bool writing = false;
        bool error = false, eof = false; //< of the C library's stream
        std::size_t first_error = ~std::size_t(0); //< size of `data` when the first error was injected
    };
    Channel& channel(const std::string& name); //< creates it; "<stdin>", "<stdout>", "<stderr>" are special
    void io_start();
    void io_stop();                            //< what is buffered is written, as at the end of a process
    int io_open_handles();
    bool io_told(const Channel& c);            //< an error that must reach the caller was injected
    extern void (*on_crash)();                 //< the machine stopped: durable state is in the channels

    // what to do when the code under test calls exit()
    extern void (*on_exit_call)(int);
}
#endif
