// Stand-in for the part of PEGTL 2.8 that the project uses; the library is absent from this sandbox. Written after its
// documentation: rules, actions, local and global failure, change_state and change_states. A rule that fails always gives
// back what it consumed, which the library promises wherever it can be observed.
#ifndef TAO_PEGTL_STANDIN_HPP
#define TAO_PEGTL_STANDIN_HPP
#include <cstddef>
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace tao
{
    namespace pegtl
    {
        struct position {
            std::size_t byte = 0;
            std::size_t line = 1;
            std::size_t byte_in_line = 0;
        };

        struct parse_error : std::runtime_error {
            template <typename Input>
            parse_error(const std::string& msg, const Input& in) : std::runtime_error(msg)
            {
            }
        };

        template <typename Rule>
        struct nothing {
        };
        struct maybe_nothing {
        };

        template <typename...>
        class memory_input
        {
            const char *begin_, *current_, *end_;

        public:
            template <typename Source>
            memory_input(const std::string& text, Source&&)
                : begin_(text.data()), current_(begin_), end_(begin_ + text.size())
            {
            }
            template <typename Source>
            memory_input(const char* text, Source&&)
                : begin_(text), current_(text), end_(text + std::char_traits<char>::length(text))
            {
            }
            bool empty() const noexcept
            {
                return current_ == end_;
            }
            std::size_t size() const noexcept
            {
                return static_cast<std::size_t>(end_ - current_);
            }
            const char* begin() const noexcept
            {
                return begin_;
            }
            const char* current() const noexcept
            {
                return current_;
            }
            const char* end() const noexcept
            {
                return end_;
            }
            void bump(std::size_t n) noexcept
            {
                current_ += n;
            }
            void restore(const char* c) noexcept
            {
                current_ = c;
            }
            pegtl::position position(const char* at) const
            {
                pegtl::position p;
                p.byte = static_cast<std::size_t>(at - begin_);
                for (const char* c = begin_; c != at; ++c)
                    if (*c == '\n') {
                        ++p.line;
                        p.byte_in_line = 0;
                    } else
                        ++p.byte_in_line;
                return p;
            }
            pegtl::position position() const
            {
                return position(current_);
            }
        };

        namespace internal
        {
            template <typename Input>
            class action_input
            {
                const Input& in_;
                const char *begin_, *end_;

            public:
                action_input(const Input& in, const char* begin) : in_(in), begin_(begin), end_(in.current()) {}
                const char* begin() const noexcept
                {
                    return begin_;
                }
                const char* end() const noexcept
                {
                    return end_;
                }
                bool empty() const noexcept
                {
                    return begin_ == end_;
                }
                std::size_t size() const noexcept
                {
                    return static_cast<std::size_t>(end_ - begin_);
                }
                std::string string() const
                {
                    return std::string(begin_, end_);
                }
                pegtl::position position() const
                {
                    return in_.position(begin_);
                }
                const Input& input() const noexcept
                {
                    return in_;
                }
            };

            template <typename...>
            using void_t = void;

            template <typename A, typename V, typename In, typename... St>
            struct has_apply : std::false_type {
            };
            template <typename A, typename In, typename... St>
            struct has_apply<A, void_t<decltype(A::apply(std::declval<const In&>(), std::declval<St&>()...))>, In, St...>
                : std::true_type {
            };
            template <typename A, typename V, typename... St>
            struct has_apply0 : std::false_type {
            };
            template <typename A, typename... St>
            struct has_apply0<A, void_t<decltype(A::apply0(std::declval<St&>()...))>, St...> : std::true_type {
            };
            template <typename A, typename = void>
            struct changes_state : std::false_type {
            };
            template <typename A>
            struct changes_state<A, void_t<typename A::pegtl_changes_state>> : std::true_type {
            };

            template <typename F>
            bool outcome(F&& f, std::true_type)
            {
                f();
                return true;
            }
            template <typename F>
            bool outcome(F&& f, std::false_type)
            {
                return f();
            }

            // the rule itself and its action, in the present states
            template <typename Rule, bool Apply, template <typename> class Action, typename In, typename... St>
            bool match_here(In& in, St&... st)
            {
                const char* begin = in.current();
                bool r = Rule::template parse<Apply, Action>(in, st...);
                if constexpr (Apply) {
                    using A = Action<Rule>;
                    if (r) {
                        if constexpr (has_apply<A, void, action_input<In>, St...>::value) {
                            const action_input<In> a(in, begin);
                            using R = decltype(A::apply(a, st...));
                            if constexpr (std::is_void<R>::value)
                                A::apply(a, st...);
                            else
                                r = A::apply(a, st...);
                        } else if constexpr (has_apply0<A, void, St...>::value) {
                            using R = decltype(A::apply0(st...));
                            if constexpr (std::is_void<R>::value)
                                A::apply0(st...);
                            else
                                r = A::apply0(st...);
                        }
                    }
                }
                if (!r)
                    in.restore(begin);
                return r;
            }

            template <typename Rule, bool Apply, template <typename> class Action, typename In, typename... St>
            bool match(In& in, St&... st)
            {
                if constexpr (Apply && changes_state<Action<Rule>>::value)
                    return Action<Rule>::template pegtl_match<Rule, Action>(in, st...);
                else
                    return match_here<Rule, Apply, Action>(in, st...);
            }
        }

        template <typename State>
        struct change_state : maybe_nothing {
            using pegtl_changes_state = void;
            template <typename Rule, template <typename> class Action, typename In, typename... St>
            static bool pegtl_match(In& in, St&... st)
            {
                State s(static_cast<const In&>(in), st...);
                if (!internal::match_here<Rule, true, Action>(in, s))
                    return false;
                s.success(static_cast<const In&>(in), st...);
                return true;
            }
        };
        template <typename... States>
        struct change_states : maybe_nothing {
            using pegtl_changes_state = void;
            template <typename Rule, template <typename> class Action, std::size_t... I, typename In, typename... St>
            static bool go(std::index_sequence<I...>, std::tuple<States...>& t, In& in, St&... st)
            {
                if (!internal::match_here<Rule, true, Action>(in, std::get<I>(t)...))
                    return false;
                Action<Rule>::success(static_cast<const In&>(in), std::get<I>(t)..., st...);
                return true;
            }
            template <typename Rule, template <typename> class Action, typename In, typename... St>
            static bool pegtl_match(In& in, St&... st)
            {
                std::tuple<States...> t;
                return go<Rule, Action>(std::index_sequence_for<States...>(), t, in, st...);
            }
        };

#define RULE_BODY template <bool Apply, template <typename> class Action, typename In, typename... St> static bool parse(In& in, St&... st)
#define RULE_MATCH(R) internal::match<R, Apply, Action>(in, st...)

        // ------------------------------------------------------------ combining rules
        template <typename... R>
        struct seq {
            RULE_BODY
            {
                const char* begin = in.current();
                const bool r = (RULE_MATCH(R) && ...);
                if (!r)
                    in.restore(begin);
                return r;
            }
        };
        template <>
        struct seq<> {
            RULE_BODY
            {
                return true;
            }
        };
        template <typename... R>
        struct sor {
            RULE_BODY
            {
                return (RULE_MATCH(R) || ...);
            }
        };
        template <typename... R>
        struct opt {
            RULE_BODY
            {
                RULE_MATCH(seq<R...>);
                return true;
            }
        };
        template <typename... R>
        struct star {
            RULE_BODY
            {
                while (RULE_MATCH(seq<R...>))
                    ;
                return true;
            }
        };
        template <typename... R>
        struct plus {
            RULE_BODY
            {
                if (!RULE_MATCH(seq<R...>))
                    return false;
                while (RULE_MATCH(seq<R...>))
                    ;
                return true;
            }
        };
        template <typename... R>
        struct at {
            RULE_BODY
            {
                const char* begin = in.current();
                const bool r = internal::match<seq<R...>, false, Action>(in, st...);
                in.restore(begin);
                return r;
            }
        };
        template <typename... R>
        struct not_at {
            RULE_BODY
            {
                const char* begin = in.current();
                const bool r = internal::match<seq<R...>, false, Action>(in, st...);
                in.restore(begin);
                return !r;
            }
        };
        template <typename R>
        struct must_one {
            RULE_BODY
            {
                if (!RULE_MATCH(R))
                    throw parse_error("parse error matching a rule", in);
                return true;
            }
        };
        template <typename... R>
        struct must {
            RULE_BODY
            {
                return (RULE_MATCH(must_one<R>) && ...);
            }
        };
        template <typename C, typename... R>
        struct if_must {
            RULE_BODY
            {
                return RULE_MATCH(C) && RULE_MATCH(must<R...>);
            }
        };
        template <typename... R>
        struct try_catch {
            RULE_BODY
            {
                const char* begin = in.current();
                try {
                    return RULE_MATCH(seq<R...>);
                } catch (const parse_error&) {
                    in.restore(begin);
                    return false;
                }
            }
        };
        template <typename R, typename S>
        struct list : seq<R, star<S, R>> {
        };
        template <unsigned Max, typename... R>
        struct rep_max {
            RULE_BODY
            {
                const char* begin = in.current();
                for (unsigned i = 0; i < Max; ++i)
                    if (!RULE_MATCH(seq<R...>))
                        return true;
                if (RULE_MATCH(not_at<R...>))
                    return true;
                in.restore(begin);
                return false;
            }
        };

        // ------------------------------------------------------------ characters
        namespace ascii
        {
            struct any {
                RULE_BODY
                {
                    if (in.empty())
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            struct eof {
                RULE_BODY
                {
                    return in.empty();
                }
            };
            struct eol {
                RULE_BODY
                {
                    if (!in.empty() && in.current()[0] == '\n') {
                        in.bump(1);
                        return true;
                    }
                    if (in.size() > 1 && in.current()[0] == '\r' && in.current()[1] == '\n') {
                        in.bump(2);
                        return true;
                    }
                    return false;
                }
            };
            struct eolf : sor<eof, eol> {
            };
            template <char... C>
            struct one {
                RULE_BODY
                {
                    if (in.empty() || !((in.current()[0] == C) || ...))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char... C>
            struct not_one {
                RULE_BODY
                {
                    if (in.empty() || ((in.current()[0] == C) || ...))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char A, char B>
            struct range {
                RULE_BODY
                {
                    if (in.empty() || in.current()[0] < A || in.current()[0] > B)
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char A, char B>
            struct not_range {
                RULE_BODY
                {
                    if (in.empty() || (in.current()[0] >= A && in.current()[0] <= B))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            struct digit : range<'0', '9'> {
            };
            struct alpha : sor<range<'a', 'z'>, range<'A', 'Z'>> {
            };
            struct alnum : sor<alpha, digit> {
            };
        }
        using namespace ascii;

        namespace abnf
        {
            struct ALPHA : ascii::alpha {
            };
            struct DIGIT : ascii::digit {
            };
            struct HEXDIG : sor<ascii::digit, ascii::range<'a', 'f'>, ascii::range<'A', 'F'>> {
            };
            struct VCHAR : ascii::range<33, 126> {
            };
            struct WSP : ascii::one<' ', '\t'> {
            };
        }

        namespace utf8
        {
            // the code point at the beginning and its length, 0 if there is none
            template <typename In>
            std::size_t peek(const In& in, char32_t& c)
            {
                const std::size_t n = in.size();
                const auto* p = reinterpret_cast<const unsigned char*>(in.current());
                auto more = [p](std::size_t i) { return (p[i] & 0xC0) == 0x80; };
                if (!n)
                    return 0;
                if (p[0] < 0x80) {
                    c = p[0];
                    return 1;
                }
                if ((p[0] & 0xE0) == 0xC0 && n >= 2 && more(1)) {
                    c = (p[0] & 0x1Fu) << 6 | (p[1] & 0x3Fu);
                    return c >= 0x80 ? 2 : 0;
                }
                if ((p[0] & 0xF0) == 0xE0 && n >= 3 && more(1) && more(2)) {
                    c = (p[0] & 0x0Fu) << 12 | (p[1] & 0x3Fu) << 6 | (p[2] & 0x3Fu);
                    return c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF) ? 3 : 0;
                }
                if ((p[0] & 0xF8) == 0xF0 && n >= 4 && more(1) && more(2) && more(3)) {
                    c = (p[0] & 0x07u) << 18 | (p[1] & 0x3Fu) << 12 | (p[2] & 0x3Fu) << 6 | (p[3] & 0x3Fu);
                    return c >= 0x10000 && c <= 0x10FFFF ? 4 : 0;
                }
                return 0;
            }
            struct any {
                RULE_BODY
                {
                    char32_t c;
                    const auto n = peek(in, c);
                    in.bump(n);
                    return n != 0;
                }
            };
            template <char32_t... C>
            struct ranges {
                RULE_BODY
                {
                    char32_t c;
                    const auto n = peek(in, c);
                    if (!n)
                        return false;
                    const char32_t limits[] = { C... };
                    for (std::size_t i = 0; i + 1 < sizeof...(C); i += 2)
                        if (c >= limits[i] && c <= limits[i + 1]) {
                            in.bump(n);
                            return true;
                        }
                    return false;
                }
            };
        }
#undef RULE_BODY
#undef RULE_MATCH

        template <typename Rule, template <typename> class Action = nothing, typename In, typename... St>
        bool parse(In&& in, St&&... st)
        {
            return internal::match<Rule, true, Action>(in, st...);
        }
    }
}
#endif
