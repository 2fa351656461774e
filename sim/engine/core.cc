#include "core.h"
#include "seams.h"

#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

#include "seams.h"

namespace sim
{
    int own_patterns = 0;
    OwnPattern::OwnPattern()
    {
        ++own_patterns;
    }
    OwnPattern::~OwnPattern()
    {
        --own_patterns;
    }
    Shared* shared = nullptr;
    const Shared* expect = nullptr;
    bool trace = false;
    bool quiet_sut_stderr = true;

    std::uint64_t mix(std::uint64_t a, std::uint64_t b)
    {
        Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
        r.next();
        return r.next();
    }

    // ------------------------------------------------------------ plan
    const std::string& Line::str(std::size_t i) const
    {
        static const std::string none;
        return i < args.size() ? args[i] : none;
    }
    std::int64_t Line::num(std::size_t i) const
    {
        return i < args.size() ? std::strtoll(args[i].c_str(), nullptr, 10) : 0;
    }
    Line& Plan::add(const std::string& kind)
    {
        lines.push_back(Line{ kind, {} });
        return lines.back();
    }
    Line& Plan::add(const std::string& kind, std::initializer_list<std::string> args)
    {
        lines.push_back(Line{ kind, args });
        return lines.back();
    }
    std::string Plan::text() const
    {
        std::string o = "plan 1\nscenario " + scenario + "\nseed " + std::to_string(seed) + "\n";
        for (const auto& l : lines) {
            o += l.kind;
            for (const auto& a : l.args)
                o += " " + a;
            o += "\n";
        }
        return o;
    }
    bool Plan::parse(const std::string& t, std::string& err)
    {
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#')
                continue;
            std::istringstream ls(line);
            std::string kind, a;
            ls >> kind;
            std::vector<std::string> args;
            while (ls >> a)
                args.push_back(a);
            if (kind == "plan")
                continue;
            if (kind == "scenario")
                scenario = args.empty() ? "" : args[0];
            else if (kind == "seed")
                seed = args.empty() ? 0 : std::strtoull(args[0].c_str(), nullptr, 10);
            else
                lines.push_back(Line{ kind, args });
        }
        if (!find_scenario(scenario)) {
            err = "unknown scenario '" + scenario + "'";
            return false;
        }
        return true;
    }

    std::string quote(const std::string& raw)
    {
        static const char* hex = "0123456789abcdef";
        std::string o = "'";
        for (unsigned char c : raw) {
            if (c > 0x20 && c < 0x7f && c != '%')
                o += static_cast<char>(c);
            else {
                o += '%';
                o += hex[c >> 4];
                o += hex[c & 15];
            }
        }
        return o;
    }
    std::string unquote(const std::string& tok)
    {
        std::string o;
        for (std::size_t i = (!tok.empty() && tok[0] == '\'') ? 1 : 0; i < tok.size(); ++i) {
            if (tok[i] == '%' && i + 2 < tok.size()) {
                o += static_cast<char>(std::strtol(tok.substr(i + 1, 2).c_str(), nullptr, 16));
                i += 2;
            } else
                o += tok[i];
        }
        return o;
    }

    // ------------------------------------------------------------ counters
    namespace
    {
        const char* names_[MaxCounters];
        int nnames_ = 0;
    }
    int counter(const char* name)
    {
        for (int i = 0; i < nnames_; ++i)
            if (!std::strcmp(names_[i], name))
                return i;
        if (nnames_ == MaxCounters)
            std::abort();
        names_[nnames_] = name;
        return nnames_++;
    }
    const char* counter_name(int i)
    {
        return names_[i];
    }
    int counter_count()
    {
        return nnames_;
    }

    // ------------------------------------------------------------ log
    std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h)
    {
        auto b = static_cast<const unsigned char*>(p);
        for (std::size_t i = 0; i < n; ++i)
            h = (h ^ b[i]) * 1099511628211ull;
        return h;
    }

    void event(const char* fmt, ...)
    {
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        int n = std::vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (n < 0)
            n = 0;
        if (n > static_cast<int>(sizeof buf) - 1)
            n = sizeof buf - 1;
        shared->hash = fnv(buf, static_cast<std::size_t>(n), shared->hash);
        shared->events++;
        if (trace) {
            buf[n] = '\n';
            raw_write(2, buf, static_cast<std::size_t>(n + 1));
        }
    }

    // ------------------------------------------------------------ verdicts
    namespace
    {
        void put(char* to, std::size_t cap, const std::string& s)
        {
            std::size_t n = std::min(cap - 1, s.size());
            std::memcpy(to, s.data(), n);
            to[n] = 0;
        }
    }

    void violate(const char* cls, const std::string& key, const std::string& msg)
    {
        seams_off();
        put(shared->cls, sizeof shared->cls, cls);
        put(shared->key, sizeof shared->key, key);
        put(shared->msg, sizeof shared->msg, msg);
        event("VIOLATION %s %s", cls, key.c_str());
        shared->status = 2;
        ::_exit(3);
    }

    void result(int id, const std::string& what, const std::string& outcome, const char* cls)
    {
        if (id < 0 || id >= MaxResults)
            return;
        const auto h = fnv(outcome);
        event("res %d %s %016llx", id, what.c_str(), static_cast<unsigned long long>(h));
        auto& r = shared->results[id];
        r.hash = h;
        r.set = 1;
        put(r.text, sizeof r.text, outcome);
        if (expect && expect->results[id].set && expect->results[id].hash != h)
            violate(cls,
                what,
                "operation " + std::to_string(id) + " (" + what + ") gave\n  " + outcome.substr(0, 600)
                    + "\nwhere the undisturbed reference run gave\n  " + expect->results[id].text);
    }

    // ------------------------------------------------------------ scenarios
    namespace
    {
        std::vector<Scenario>& reg()
        {
            static std::vector<Scenario> v;
            return v;
        }
    }
    Register::Register(const Scenario& s)
    {
        reg().push_back(s);
    }
    const std::vector<Scenario>& scenarios()
    {
        return reg();
    }
    const Scenario* find_scenario(const std::string& n)
    {
        for (const auto& s : reg())
            if (n == s.name)
                return &s;
        return nullptr;
    }

    // ------------------------------------------------------------ processes
    namespace
    {
        Shared* map_shared()
        {
            void* p = ::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED)
                std::abort();
            return static_cast<Shared*>(p);
        }

        int errfd_ = -1;      //< memfd: stderr of the simulated process
        double cpu_cap_ = 8.; //< CPU seconds of one simulated run; thousands of times the usual

        struct Outcome {
            bool violation = false, abandoned = false;
            std::string cls, key, msg;
            std::uint64_t hash = 0;
        };

        std::string slurp_err()
        {
            std::string o;
            char buf[4096];
            off_t at = 0;
            for (;;) {
                ssize_t n = ::pread(errfd_, buf, sizeof buf, at);
                if (n <= 0)
                    break;
                o.append(buf, static_cast<std::size_t>(n));
                at += n;
                if (o.size() > 200000)
                    break;
            }
            return o;
        }

        // the first frames of a sanitizer report, without addresses
        std::string frames(const std::string& err, const std::string& marker, int max)
        {
            std::string o;
            auto at = err.find(marker);
            if (at == std::string::npos)
                return o;
            std::istringstream in(err.substr(at));
            std::string line;
            int n = 0;
            while (std::getline(in, line) && n < max) {
                auto p = line.find(" in ");
                if (line.find("    #") == 0 && p != std::string::npos) {
                    std::string f = line.substr(p + 4);
                    auto sp = f.rfind(" /");
                    if (sp == std::string::npos)
                        sp = f.rfind(" (");
                    if (sp != std::string::npos)
                        f = f.substr(0, sp);
                    if (f.find("operator delete") == 0 || f.find("operator new") == 0 || f.find("sim::") == 0
                        || f.find("__interceptor") == 0)
                        continue;
                    auto par = f.find('(');
                    if (par != std::string::npos && par > 0)
                        f = f.substr(0, par);
                    o += (o.empty() ? "" : "<") + f;
                    n++;
                }
            }
            return o;
        }

        Outcome run_child(const Plan& plan, const Scenario& sc, Shared* sh, const Shared* ex)
        {
            std::memset(static_cast<void*>(sh), 0, sizeof(Shared));
            sh->hash = 1469598103934665603ull;
            if (::ftruncate(errfd_, 0)) {
            }
            ::lseek(errfd_, 0, SEEK_SET);

            pid_t pid = ::fork();
            if (pid < 0) {
                std::perror("fork");
                std::exit(4);
            }
            if (pid == 0) {
                shared = sh;
                expect = ex;
                if (!trace)
                    ::dup2(errfd_, 2);
                struct rlimit rl = { static_cast<rlim_t>(cpu_cap_), static_cast<rlim_t>(cpu_cap_) + 1 };
                ::setrlimit(RLIMIT_CPU, &rl);
                struct rlimit nocore = { 0, 0 };
                ::setrlimit(RLIMIT_CORE, &nocore);
                sc.exec(plan);
                shared->status = 1;
                ::_exit(0);
            }
            int st = 0;
            while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            Outcome o;
            o.hash = sh->hash;
            if (sh->status == 2) {
                o.violation = true;
                o.cls = sh->cls;
                o.key = sh->key;
                o.msg = sh->msg;
            } else if (!(sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                o.violation = true;
                const std::string err = slurp_err();
                if (err.find("SUMMARY: AddressSanitizer") != std::string::npos) {
                    o.cls = "memory-error";
                    auto p = err.find("ERROR: AddressSanitizer: ");
                    std::string kind = p == std::string::npos ? "?" : err.substr(p + 25, 60);
                    kind = kind.substr(0, kind.find_first_of(" \n"));
                    o.key = kind + ":" + frames(err, "ERROR: AddressSanitizer", 3);
                    o.msg = err.substr(p == std::string::npos ? 0 : p, 2500);
                } else if (err.find("runtime error:") != std::string::npos) {
                    o.cls = "undefined-behaviour";
                    auto p = err.find("runtime error:");
                    o.key = err.substr(p + 15, 80);
                    auto nl = o.key.find('\n');
                    if (nl != std::string::npos)
                        o.key = o.key.substr(0, nl);
                    for (auto& c : o.key)
                        if (c == ' ')
                            c = '_';
                    o.msg = err.substr(0, 2500);
                } else if (WIFSIGNALED(st)) {
                    int sig = WTERMSIG(st);
                    if ((sig == SIGXCPU || sig == SIGKILL) && sh->in_libc) {
                        o.violation = false;
                        o.abandoned = true;
                    } else if (sig == SIGXCPU || (sig == SIGKILL)) {
                        o.cls = "hang";
                        o.key = sh->key[0] ? sh->key : "cpu-limit";
                        o.msg = std::string("the run did not end within ") + std::to_string(cpu_cap_)
                            + " s of CPU time; last operation: " + sh->key;
                    } else {
                        o.cls = "crash";
                        o.key = "signal" + std::to_string(sig) + ":" + sh->key;
                        o.msg = "killed by signal " + std::to_string(sig) + " during " + sh->key + "\n" + err.substr(0, 2000);
                    }
                } else {
                    o.cls = "unexpected-exit";
                    o.key = "exit" + std::to_string(WEXITSTATUS(st)) + ":" + sh->key;
                    o.msg = "the simulated process ended with exit status " + std::to_string(WEXITSTATUS(st))
                        + " during " + sh->key + "\n" + err.substr(0, 2000);
                }
                if (o.msg.find("terminate called") != std::string::npos && o.cls == "crash")
                    o.cls = "terminate";
            }
            for (auto& c : o.key)
                if (c == ' ' || c == '\n')
                    c = '_';
            return o;
        }

        struct Sim {
            Shared* ref;
            Shared* fault;
        };

        // one whole simulated run: undisturbed reference, then the disturbed run
        Outcome run_plan(Plan& plan, const Scenario& sc, Sim& s, Rng* faults)
        {
            Outcome o = run_child(plan, sc, s.ref, nullptr);
            if (o.abandoned)
                return o;
            if (o.violation) {
                if (faults) // still complete the plan, so that it is a whole replay file
                    ;
                o.msg = "(in the undisturbed reference run)\n" + o.msg;
                return o;
            }
            if (faults && sc.faults)
                sc.faults(*faults, plan, *s.ref);
            Outcome f = run_child(plan, sc, s.fault, s.ref);
            f.hash = mix(o.hash, f.hash);
            return f;
        }

        double now()
        {
            struct timespec ts;
            ::clock_gettime(CLOCK_MONOTONIC, &ts);
            return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
        }

        std::string json(const std::string& s)
        {
            std::string o = "\"";
            for (unsigned char c : s) {
                if (c == '"' || c == '\\') {
                    o += '\\';
                    o += static_cast<char>(c);
                } else if (c == '\n')
                    o += "\\n";
                else if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    o += b;
                } else
                    o += static_cast<char>(c);
            }
            return o + "\"";
        }

        bool read_file(const std::string& path, std::string& out)
        {
            std::FILE* f = std::fopen(path.c_str(), "rb");
            if (!f)
                return false;
            char b[8192];
            std::size_t n;
            while ((n = std::fread(b, 1, sizeof b, f)) > 0)
                out.append(b, n);
            std::fclose(f);
            return true;
        }
        bool write_file(const std::string& path, const std::string& text)
        {
            std::FILE* f = std::fopen(path.c_str(), "wb");
            if (!f)
                return false;
            bool ok = std::fwrite(text.data(), 1, text.size(), f) == text.size();
            return std::fclose(f) == 0 && ok;
        }
    }

    std::uint64_t pick_alloc(Rng& r, const Shared& ref, std::int64_t op)
    {
        const std::uint64_t n = ref.results[op].allocs;
        const auto style = r.below(4);
        if (style) {
            std::vector<std::uint32_t> at;
            for (std::uint32_t i = 0; i < ref.nsites; ++i)
                if (ref.sites[i].op == op && (style == 1 || ref.sites[i].near) && ref.sites[i].index <= n)
                    at.push_back(ref.sites[i].index);
            if (!at.empty())
                return at[r.below(at.size())];
        }
        return 1 + r.below(n ? n : 1);
    }

    int main(int argc, char** argv)
    {
        std::map<std::string, std::string> opt;
        std::vector<std::string> pos;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto eq = a.find('=');
            if (a.compare(0, 2, "--") == 0)
                opt[a.substr(2, eq == std::string::npos ? eq : eq - 2)] = eq == std::string::npos ? "1" : a.substr(eq + 1);
            else
                pos.push_back(a);
        }
        if (pos.empty()) {
            std::fprintf(stderr, "usage: %s explore|run|list ...\n", argv[0]);
            return 2;
        }
        if (pos[0] == "list") {
            for (const auto& s : scenarios())
                std::printf("%s\t%s\n", s.name, s.what);
            return 0;
        }

        errfd_ = static_cast<int>(::syscall(SYS_memfd_create, "err", 0));
        if (errfd_ < 0) {
            std::perror("memfd_create");
            return 4;
        }
        Sim s = { map_shared(), map_shared() };
        trace = opt.count("trace") != 0;
        if (opt.count("cpu"))
            cpu_cap_ = std::atof(opt["cpu"].c_str());

        if (pos[0] == "run") {
            std::string text, err;
            if (pos.size() < 2 || !read_file(pos[1], text)) {
                std::fprintf(stderr, "cannot read the plan\n");
                return 2;
            }
            Plan plan;
            if (!plan.parse(text, err)) {
                std::fprintf(stderr, "%s\n", err.c_str());
                return 2;
            }
            // runs are named explicitly in the plan: nothing is drawn
            Outcome o = run_plan(plan, *find_scenario(plan.scenario), s, nullptr);
            std::printf("{\"violation\":%s,\"class\":%s,\"key\":%s,\"hash\":\"%016llx\",\"events\":%llu,\"msg\":%s}\n",
                o.violation ? "true" : "false",
                json(o.cls).c_str(),
                json(o.key).c_str(),
                static_cast<unsigned long long>(o.hash),
                static_cast<unsigned long long>(s.fault->events),
                json(o.msg).c_str());
            return o.violation ? 1 : 0;
        }

        // explore --scenarios=a,b:weight --seed= --worker= --runs= --time= --out=DIR
        std::vector<const Scenario*> chosen;
        {
            std::istringstream in(opt["scenarios"]);
            std::string n;
            while (std::getline(in, n, ',')) {
                int w = 1;
                auto c = n.find(':');
                if (c != std::string::npos) {
                    w = std::atoi(n.substr(c + 1).c_str());
                    n = n.substr(0, c);
                }
                const Scenario* sc = find_scenario(n);
                if (!sc) {
                    std::fprintf(stderr, "unknown scenario %s\n", n.c_str());
                    return 2;
                }
                for (int i = 0; i < w; ++i)
                    chosen.push_back(sc);
            }
        }
        if (chosen.empty()) {
            std::fprintf(stderr, "no scenario\n");
            return 2;
        }
        const std::uint64_t seed = std::strtoull(opt["seed"].c_str(), nullptr, 10);
        const std::uint64_t worker = std::strtoull(opt["worker"].c_str(), nullptr, 10);
        const std::uint64_t stride = opt.count("stride") ? std::strtoull(opt["stride"].c_str(), nullptr, 10) : 1;
        const std::uint64_t maxruns = opt.count("runs") ? std::strtoull(opt["runs"].c_str(), nullptr, 10) : ~0ull;
        const double cap = opt.count("time") ? std::atof(opt["time"].c_str()) : 1e18;
        const std::string out = opt.count("out") ? opt["out"] : ".";
        const int maxkeys = opt.count("maxkeys") ? std::atoi(opt["maxkeys"].c_str()) : 3;
        const bool hashes = opt.count("hashes") != 0;
        std::set<std::string> known; //< "class key" of listed findings: counted, not reported
        if (opt.count("known")) {
            std::string t;
            read_file(opt["known"], t);
            std::istringstream in(t);
            std::string l;
            while (std::getline(in, l))
                if (!l.empty())
                    known.insert(l);
        }

        std::set<std::string> classes; //< the classes of violation to report; all if empty
        {
            std::istringstream in(opt["classes"]);
            std::string c;
            while (std::getline(in, c, ','))
                classes.insert(c);
        }

        std::vector<std::uint64_t> counters(MaxCounters, 0);
        std::unordered_set<std::uint64_t> distinct, nontrivial;
        std::map<std::string, std::uint64_t> perscen, knownhits, others;
        std::set<std::string> keys;
        std::uint64_t runs = 0, steps = 0, events = 0;
        std::vector<std::string> samples;
        std::string hashlog;
        std::string viol;
        const double t0 = now();
        for (std::uint64_t i = worker; runs < maxruns; i += stride) {
            if (now() - t0 > cap)
                break;
            const std::uint64_t runseed = mix(seed, i);
            Rng rng(runseed);
            const Scenario& sc = *chosen[rng.below(chosen.size())];
            Plan plan;
            plan.scenario = sc.name;
            plan.seed = runseed;
            sc.gen(rng, plan);
            Outcome o = run_plan(plan, sc, s, &rng);
            ++runs;
            ++perscen[sc.name];
            std::uint64_t injected = 0;
            for (int c = 0; c < nnames_; ++c) {
                counters[static_cast<std::size_t>(c)] += s.fault->counters[c];
                if (!std::strncmp(names_[c], "fault.", 6) || !std::strncmp(names_[c], "sched.", 6))
                    injected += s.fault->counters[c];
            }
            steps += s.fault->steps;
            events += s.fault->events;
            distinct.insert(o.hash);
            if (injected && s.fault->events > 3)
                nontrivial.insert(o.hash);
            if (hashes)
                hashlog += std::to_string(i) + " " + sc.name + " " + std::to_string(o.hash) + (o.violation ? " V" : "") + "\n";
            if (samples.size() < 2 && injected && !o.violation)
                samples.push_back(plan.text());
            if (o.violation) {
                const std::string k = o.cls + " " + o.key;
                if (known.count(k)) {
                    ++knownhits[k];
                    continue;
                }
                if (!classes.empty() && !classes.count(o.cls)) {
                    ++others[o.cls];
                    continue;
                }
                if (keys.insert(k).second) {
                    const std::string path = out + "/w" + std::to_string(worker) + "-" + std::to_string(keys.size()) + ".plan";
                    write_file(path, plan.text());
                    viol += (viol.empty() ? "" : ",");
                    viol += "{\"class\":" + json(o.cls) + ",\"key\":" + json(o.key) + ",\"msg\":" + json(o.msg)
                        + ",\"plan\":" + json(path) + ",\"scenario\":" + json(sc.name) + ",\"run\":" + std::to_string(i)
                        + ",\"hash\":\"" + std::to_string(o.hash) + "\"}";
                    if (static_cast<int>(keys.size()) >= maxkeys)
                        break;
                }
            }
        }
        std::string j = "{\"runs\":" + std::to_string(runs) + ",\"steps\":" + std::to_string(steps)
            + ",\"events\":" + std::to_string(events) + ",\"wall\":" + std::to_string(now() - t0) + ",\"counters\":{";
        for (int c = 0; c < nnames_; ++c)
            j += (c ? "," : "") + json(names_[c]) + ":" + std::to_string(counters[static_cast<std::size_t>(c)]);
        j += "},\"scenarios\":{";
        bool first = true;
        for (const auto& p : perscen) {
            j += (first ? "" : ",") + json(p.first) + ":" + std::to_string(p.second);
            first = false;
        }
        j += "},\"known\":{";
        first = true;
        for (const auto& p : knownhits) {
            j += (first ? "" : ",") + json(p.first) + ":" + std::to_string(p.second);
            first = false;
        }
        j += "},\"others\":{";
        first = true;
        for (const auto& p : others) {
            j += (first ? "" : ",") + json(p.first) + ":" + std::to_string(p.second);
            first = false;
        }
        j += "},\"samples\":[";
        for (std::size_t k = 0; k < samples.size(); ++k)
            j += (k ? "," : "") + json(samples[k]);
        j += "],\"violations\":[" + viol + "]}\n";
        // the distinct histories, to be united over the workers
        {
            std::string b;
            b.reserve(nontrivial.size() * 8);
            for (auto h : nontrivial)
                b.append(reinterpret_cast<const char*>(&h), 8);
            write_file(out + "/w" + std::to_string(worker) + ".distinct", b);
        }
        if (hashes)
            write_file(out + "/w" + std::to_string(worker) + ".hashes", hashlog);
        write_file(out + "/w" + std::to_string(worker) + ".json", j);
        return keys.empty() ? 0 : 1;
    }
}
