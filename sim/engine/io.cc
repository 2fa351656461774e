// I/O seam of the fault-injecting build: files opened by name while it is active, and the three
// standard streams, are simulated. The calls of the C++ library arrive here, because the executable's
// definitions come first.
#include "seams.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
    void (*on_exit_call)(int) = nullptr;
    void (*on_crash)() = nullptr;

    namespace
    {
        bool active_ = false;
        int inside_ = 0; //< the seam itself
        std::map<std::string, Channel*>* chans_ = nullptr;
        struct Fd {
            Channel* c;
            bool append;
        };
        std::map<int, Fd>* fds_ = nullptr;

        const int c_kind[IO_KINDS] = { counter("seam.io-calls"), counter("fault.io-short"), counter("fault.io-eintr"),
            counter("fault.io-eio"), counter("fault.io-enospc"), counter("fault.io-early-eof"), counter("fault.io-eagain"),
            counter("fault.crash") };
        const int c_open = counter("fault.io-open-failure");
        const int c_close = counter("fault.io-close-failure");
        const int c_full = counter("fault.io-disk-full");

        struct In {
            In()
            {
                ++inside_;
                // what the seam allocates is the harness's
            }
            ~In()
            {
                --inside_;
            }
            HarnessScope h;
        };

        template <typename F>
        F real(const char* name)
        {
            return reinterpret_cast<F>(::dlsym(RTLD_NEXT, name));
        }

        int errno_of(IoErr e)
        {
            switch (e) {
                case IO_EINTR:
                    return EINTR;
                case IO_ENOSPC:
                    return ENOSPC;
                case IO_EAGAIN:
                    return EAGAIN;
                default:
                    return EIO;
            }
        }
        const char* name_of(IoErr e)
        {
            static const char* n[] = { "ok", "short", "EINTR", "EIO", "ENOSPC", "EOF", "EAGAIN", "crash" };
            return n[e];
        }

        [[noreturn]] void crash(Channel& c)
        {
            event("io %s crash", c.name.c_str());
            active_ = false;
            if (on_crash)
                on_crash();
            shared->status = 1;
            ::_exit(0);
        }

        // decides what becomes of a transfer of up to n bytes: 0 and a possibly smaller n, or the error
        IoErr decide(Channel& c, std::size_t& n, bool write)
        {
            ++c.calls;
            shared->steps++;
            count(c_kind[0]);
            IoErr e = c.sticky;
            std::uint64_t arg = 0;
            if (e == IO_OK)
                for (const auto& f : c.faults)
                    if (f.call == c.calls) {
                        e = f.what;
                        arg = f.arg;
                    }
            if (!write && e == IO_ENOSPC)
                e = IO_EIO;
            if (write && e == IO_EOF)
                e = IO_EIO;
            if (e == IO_SHORT) {
                const std::size_t k = arg < 1 ? 1 : static_cast<std::size_t>(arg);
                if (k >= n)
                    e = IO_OK;
                else
                    n = k;
            }
            if (e == IO_OK && write && c.pos + n > c.capacity) {
                if (c.pos >= c.capacity) {
                    e = IO_ENOSPC;
                    count(c_full);
                } else
                    n = static_cast<std::size_t>(c.capacity - c.pos);
            }
            if (e != IO_OK) {
                c.injected[e]++;
                count(c_kind[e]);
                if (e != IO_SHORT && (e != IO_EINTR || c.name[0] == '<') && c.first_error == ~std::size_t(0))
                    c.first_error = c.data.size();
                if (e != IO_SHORT && e != IO_EINTR && e != IO_CRASH && arg)
                    c.sticky = e;
                event("io %s call %llu %s", c.name.c_str(), static_cast<unsigned long long>(c.calls), name_of(e));
            }
            return e == IO_SHORT ? IO_OK : e;
        }

        // one write to a device
        ssize_t put(Channel& c, const char* p, std::size_t n)
        {
            const IoErr e = decide(c, n, true);
            if (e == IO_CRASH) {
                // a torn write: some of it arrived
                c.data.append(p, n / 2);
                crash(c);
            }
            if (e != IO_OK) {
                errno = errno_of(e);
                return -1;
            }
            c.data.append(p, n);
            c.pos += n;
            c.bytes += n;
            return static_cast<ssize_t>(n);
        }

        // the C library's: retries nothing, as glibc does
        bool flush(Channel& c)
        {
            std::size_t at = 0;
            bool ok = true;
            while (at < c.buffer.size()) {
                const ssize_t k = put(c, c.buffer.data() + at, c.buffer.size() - at);
                if (k < 0) {
                    ok = false;
                    c.error = true;
                    break;
                }
                at += static_cast<std::size_t>(k);
            }
            // as glibc: what could not be written stays, and is tried again
            c.buffer.erase(0, at);
            return ok;
        }

        Channel* standard(std::FILE* f)
        {
            if (!active_ || inside_)
                return nullptr;
            if (f == stdin)
                return &channel("<stdin>");
            if (f == stdout)
                return &channel("<stdout>");
            if (f == stderr)
                return &channel("<stderr>");
            return nullptr;
        }
        Fd* simulated(int fd)
        {
            if (!fds_ || inside_)
                return nullptr;
            auto it = fds_->find(fd);
            return it == fds_->end() ? nullptr : &it->second;
        }

        std::size_t put_standard(Channel& c, const char* p, std::size_t n)
        {
            if (!c.buffer_size) {
                std::size_t at = 0;
                while (at < n) {
                    const ssize_t k = put(c, p + at, n - at);
                    if (k < 0) {
                        c.error = true;
                        break;
                    }
                    at += static_cast<std::size_t>(k);
                }
                return at;
            }
            c.buffer.append(p, n);
            if (c.buffer.size() >= c.buffer_size && !flush(c))
                return 0;
            return n;
        }

        std::FILE* open(const char* name, const char* mode)
        {
            Channel& c = channel(name);
            const bool write = mode[0] == 'w' || mode[0] == 'a';
            ++c.opens;
            event("io open %s %s", name, mode);
            if (c.open_errno || (!write && !c.exists)) {
                count(c_open);
                errno = c.open_errno ? c.open_errno : ENOENT;
                return nullptr;
            }
            const int fd = static_cast<int>(::syscall(SYS_memfd_create, "sim", 0));
            if (fd < 0)
                ::_exit(8);
            c.exists = true;
            c.writing = write;
            if (mode[0] == 'w')
                c.data.clear();
            c.pos = mode[0] == 'a' ? c.data.size() : 0;
            (*fds_)[fd] = Fd{ &c, mode[0] == 'a' };
            return real<std::FILE* (*)(int, const char*)>("fdopen")(fd, mode);
        }
    }

    Channel& channel(const std::string& name)
    {
        HarnessScope h;
        if (!chans_) {
            chans_ = new std::map<std::string, Channel*>;
            fds_ = new std::map<int, Fd>;
        }
        auto& p = (*chans_)[name];
        if (!p) {
            p = new Channel;
            p->name = name;
        }
        return *p;
    }
    void io_start()
    {
        HarnessScope h;
        channel("<stdin>");
        channel("<stdout>").buffer_size = 1024;
        channel("<stdout>").writing = true;
        channel("<stderr>").writing = true;
        active_ = true;
    }
    void io_stop()
    {
        In in;
        if (active_)
            flush(channel("<stdout>"));
        active_ = false;
    }
    int io_open_handles()
    {
        return fds_ ? static_cast<int>(fds_->size()) : 0;
    }
    bool io_told(const Channel& c)
    {
        return c.injected[IO_EIO] || c.injected[IO_ENOSPC] || c.injected[IO_EAGAIN] || c.open_errno;
    }
}

using namespace sim;

extern "C" {
std::FILE* fopen(const char* name, const char* mode)
{
    if (active_ && !inside_) {
        In in;
        return sim::open(name, mode);
    }
    return real<std::FILE* (*)(const char*, const char*)>("fopen")(name, mode);
}
std::FILE* fopen64(const char* name, const char* mode)
{
    if (active_ && !inside_) {
        In in;
        return sim::open(name, mode);
    }
    return real<std::FILE* (*)(const char*, const char*)>("fopen64")(name, mode);
}
int fclose(std::FILE* f)
{
    static auto r = real<int (*)(std::FILE*)>("fclose");
    if (f) {
        const int fd = fileno(f);
        if (auto s = simulated(fd)) {
            In in;
            Channel& c = *s->c;
            fds_->erase(fd);
            ++c.closes;
            event("io close %s", c.name.c_str());
            r(f);
            for (const auto& x : c.faults)
                if (x.call == 0) {
                    if (x.what == IO_CRASH)
                        crash(c);
                    count(c_close);
                    c.injected[x.what]++;
                    errno = errno_of(x.what);
                    return EOF;
                }
            return 0;
        }
    }
    return r(f);
}
ssize_t read(int fd, void* p, size_t n)
{
    if (auto s = simulated(fd)) {
        In in;
        Channel& c = *s->c;
        const IoErr e = decide(c, n, false);
        if (e == IO_CRASH)
            crash(c);
        if (e == IO_EOF)
            return 0;
        if (e != IO_OK) {
            errno = errno_of(e);
            return -1;
        }
        const std::size_t left = c.data.size() - (c.pos < c.data.size() ? c.pos : c.data.size());
        const std::size_t k = n < left ? n : left;
        __builtin_memcpy(p, c.data.data() + c.pos, k);
        c.pos += k;
        c.bytes += k;
        return static_cast<ssize_t>(k);
    }
    return ::syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (auto s = simulated(fd)) {
        In in;
        return put(*s->c, static_cast<const char*>(p), n);
    }
    return ::syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (auto s = simulated(fd)) {
        In in;
        std::string all;
        for (int i = 0; i < n; ++i)
            all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        return put(*s->c, all.data(), all.size());
    }
    return ::syscall(SYS_writev, fd, v, n);
}
static off64_t seek(Fd& s, off64_t o, int whence)
{
    Channel& c = *s.c;
    const off64_t base = whence == SEEK_SET ? 0
        : whence == SEEK_CUR                ? static_cast<off64_t>(c.pos)
                                            : static_cast<off64_t>(c.data.size());
    if (base + o < 0) {
        errno = EINVAL;
        return -1;
    }
    c.pos = static_cast<std::size_t>(base + o);
    return base + o;
}
off64_t lseek64(int fd, off64_t o, int w)
{
    if (auto s = simulated(fd))
        return seek(*s, o, w);
    return ::syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w)
{
    if (auto s = simulated(fd))
        return seek(*s, o, w);
    return ::syscall(SYS_lseek, fd, o, w);
}

size_t fwrite(const void* p, size_t sz, size_t n, std::FILE* f)
{
    if (auto c = standard(f)) {
        In in;
        const std::size_t k = put_standard(*c, static_cast<const char*>(p), sz * n);
        return sz ? k / sz : 0;
    }
    return real<size_t (*)(const void*, size_t, size_t, std::FILE*)>("fwrite")(p, sz, n, f);
}
int putc(int ch, std::FILE* f)
{
    if (auto c = standard(f)) {
        In in;
        const char b = static_cast<char>(ch);
        return put_standard(*c, &b, 1) == 1 ? static_cast<unsigned char>(b) : EOF;
    }
    return real<int (*)(int, std::FILE*)>("putc")(ch, f);
}
int fputc(int ch, std::FILE* f)
{
    if (standard(f))
        return putc(ch, f);
    return real<int (*)(int, std::FILE*)>("fputc")(ch, f);
}
int fputs(const char* s, std::FILE* f)
{
    if (auto c = standard(f)) {
        In in;
        const std::size_t n = __builtin_strlen(s);
        return put_standard(*c, s, n) == n ? 1 : EOF;
    }
    return real<int (*)(const char*, std::FILE*)>("fputs")(s, f);
}
int fflush(std::FILE* f)
{
    if (f)
        if (auto c = standard(f)) {
            In in;
            return flush(*c) ? 0 : EOF;
        }
    return real<int (*)(std::FILE*)>("fflush")(f);
}
size_t fread(void* p, size_t sz, size_t n, std::FILE* f)
{
    if (auto c = standard(f)) {
        In in;
        // glibc: reads until satisfied, the end, or an error (the end then, for the caller)
        std::size_t want = sz * n, got = 0;
        while (got < want) {
            std::size_t k = want - got;
            const IoErr e = decide(*c, k, false);
            if (e == IO_CRASH)
                crash(*c);
            if (e != IO_OK) {
                if (e == IO_EOF)
                    c->eof = true;
                else
                    c->error = true;
                break;
            }
            const std::size_t left = c->data.size() - c->pos;
            if (!left) {
                c->eof = true;
                break;
            }
            k = k < left ? k : left;
            __builtin_memcpy(static_cast<char*>(p) + got, c->data.data() + c->pos, k);
            c->pos += k;
            got += k;
        }
        return sz ? got / sz : 0;
    }
    return real<size_t (*)(void*, size_t, size_t, std::FILE*)>("fread")(p, sz, n, f);
}
int getc(std::FILE* f)
{
    if (auto c = standard(f)) {
        In in;
        std::size_t k = 1;
        const IoErr e = decide(*c, k, false);
        if (e == IO_CRASH)
            crash(*c);
        if (e != IO_OK && e != IO_EOF)
            c->error = true;
        if (e != IO_OK || c->pos >= c->data.size())
            return EOF;
        return static_cast<unsigned char>(c->data[c->pos++]);
    }
    return real<int (*)(std::FILE*)>("getc")(f);
}
int ferror(std::FILE* f)
{
    if (auto c = standard(f))
        return c->error;
    return real<int (*)(std::FILE*)>("ferror")(f);
}
void clearerr(std::FILE* f)
{
    if (auto c = standard(f)) {
        c->error = c->eof = false;
        return;
    }
    real<void (*)(std::FILE*)>("clearerr")(f);
}
int feof(std::FILE* f)
{
    if (auto c = standard(f))
        return c->eof;
    return real<int (*)(std::FILE*)>("feof")(f);
}
int ungetc(int ch, std::FILE* f)
{
    if (auto c = standard(f)) {
        if (ch == EOF || !c->pos)
            return EOF;
        --c->pos;
        return ch;
    }
    return real<int (*)(int, std::FILE*)>("ungetc")(ch, f);
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int rc)
{
    if (sim::on_exit_call) {
        auto f = sim::on_exit_call;
        sim::on_exit_call = nullptr;
        f(rc);
        shared->status = 1;
        ::_exit(0);
    }
    __real_exit(rc);
}
}
