// Stand-in for tanakh/cmdline, as far as packages/drafter/src/config.cc uses it: --name[=value],
// --name value, -x, -x value, -xyz, and "--" before what is not an option.
#ifndef STANDIN_CMDLINE_H
#define STANDIN_CMDLINE_H

#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace cmdline
{
    template <typename T>
    struct oneof_reader {
        std::vector<T> all;
        bool operator()(const std::string& s) const
        {
            for (const auto& a : all)
                if (a == s)
                    return true;
            return all.empty();
        }
    };
    template <typename T>
    oneof_reader<T> oneof(T a, T b)
    {
        return { { a, b } };
    }

    class parser
    {
        struct Option {
            std::string name, desc, value;
            char short_name;
            bool takes, required, set;
            oneof_reader<std::string> reader;
        };
        std::vector<Option> options_;
        std::vector<std::string> rest_, errors_;
        std::string program_, footer_;

        Option* find(const std::string& n)
        {
            for (auto& o : options_)
                if (o.name == n)
                    return &o;
            return nullptr;
        }
        const Option* find(const std::string& n) const
        {
            return const_cast<parser*>(this)->find(n);
        }
        Option* find(char c)
        {
            for (auto& o : options_)
                if (o.short_name == c)
                    return &o;
            return nullptr;
        }
        void give(Option& o, const std::string& v)
        {
            if (!o.takes || !o.reader(v)) {
                errors_.push_back("option value is invalid: --" + o.name + "=" + v);
                return;
            }
            o.value = v;
            o.set = true;
        }

    public:
        void set_program_name(const std::string& n)
        {
            program_ = n;
        }
        void footer(const std::string& f)
        {
            footer_ = f;
        }
        void add(const std::string& name, char s, const std::string& desc)
        {
            options_.push_back({ name, desc, "", s, false, false, false, {} });
        }
        template <typename T>
        void add(const std::string& name, char s, const std::string& desc, bool need, const T& def = T(), oneof_reader<T> r = {})
        {
            options_.push_back({ name, desc, def, s, true, need, false, r });
        }
        bool exist(const std::string& n) const
        {
            const Option* o = find(n);
            return o && o->set;
        }
        template <typename T>
        const T& get(const std::string& n) const
        {
            return find(n)->value;
        }
        const std::vector<std::string>& rest() const
        {
            return rest_;
        }
        bool parse(int argc, const char* const argv[])
        {
            for (int i = 1; i < argc; ++i) {
                const std::string a = argv[i];
                if (a == "--") {
                    for (++i; i < argc; ++i)
                        rest_.push_back(argv[i]);
                } else if (a.compare(0, 2, "--") == 0) {
                    const auto eq = a.find('=');
                    Option* o = find(a.substr(2, eq == std::string::npos ? eq : eq - 2));
                    if (!o)
                        errors_.push_back("undefined option: " + a);
                    else if (eq != std::string::npos)
                        give(*o, a.substr(eq + 1));
                    else if (!o->takes)
                        o->set = true;
                    else if (i + 1 < argc)
                        give(*o, argv[++i]);
                    else
                        errors_.push_back("option needs value: " + a);
                } else if (a.size() > 1 && a[0] == '-') {
                    for (std::size_t k = 1; k < a.size(); ++k) {
                        Option* o = find(a[k]);
                        if (!o) {
                            errors_.push_back(std::string("undefined short option: -") + a[k]);
                        } else if (!o->takes) {
                            o->set = true;
                        } else if (k + 1 == a.size() && i + 1 < argc) {
                            give(*o, argv[++i]);
                        } else {
                            errors_.push_back(std::string("short option needs value: -") + a[k]);
                        }
                    }
                } else {
                    rest_.push_back(a);
                }
            }
            for (const auto& o : options_)
                if (o.required && !o.set)
                    errors_.push_back("need option: --" + o.name);
            return errors_.empty();
        }
        std::string usage() const
        {
            std::ostringstream s;
            s << "usage: " << program_ << " [options] ... " << footer_ << "\noptions:\n";
            for (const auto& o : options_)
                s << "  -" << o.short_name << ", --" << o.name << "  " << o.desc << "\n";
            return s.str();
        }
        void parse_check(int argc, const char* const argv[])
        {
            const bool ok = parse(argc, argv);
            if ((argc == 1 && !ok) || exist("help")) {
                std::cerr << usage();
                std::exit(0);
            }
            if (!ok) {
                std::cerr << (errors_.empty() ? std::string() : errors_.front()) << std::endl << usage();
                std::exit(1);
            }
        }
    };
}

#endif
