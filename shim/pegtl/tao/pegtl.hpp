// Stand-in for the absent PEGTL submodule: the combinators packages/apib-parser uses, with PEGTL 2.8's meaning.
#ifndef VERIF_SHIM_PEGTL
#define VERIF_SHIM_PEGTL
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace tao
{
    namespace pegtl
    {
        struct position_t {
            std::size_t byte;
        };

        class parse_error : public std::runtime_error
        {
        public:
            explicit parse_error(const std::string& m) : std::runtime_error(m) {}
        };

        class action_input
        {
            const char* b_;
            const char* e_;
            std::size_t at_;

        public:
            action_input(const char* b, const char* e, std::size_t at) : b_(b), e_(e), at_(at) {}
            std::string string() const { return std::string(b_, e_); }
            const char* begin() const { return b_; }
            const char* end() const { return e_; }
            std::size_t size() const { return e_ - b_; }
            position_t position() const { return position_t{ at_ }; }
        };

        template <int = 0>
        class memory_input
        {
            const char* b_;
            const char* cur_;
            const char* e_;

        public:
            memory_input(const std::string& s, const char*) : b_(s.data()), cur_(b_), e_(b_ + s.size()) {}
            memory_input(const char* s, const char*) : b_(s), cur_(s), e_(s + std::strlen(s)) {}
            memory_input(const std::string& s, const std::string&) : b_(s.data()), cur_(b_), e_(b_ + s.size()) {}
            const char* current() const { return cur_; }
            const char* begin() const { return cur_; }
            const char* end() const { return e_; }
            bool empty() const { return cur_ == e_; }
            std::size_t size() const { return e_ - cur_; }
            void bump(std::size_t n) { cur_ += n; }
            void reset(const char* p) { cur_ = p; }
            position_t position() const { return position_t{ (std::size_t)(cur_ - b_) }; }
            std::size_t offset(const char* p) const { return p - b_; }
        };

        template <typename Rule>
        struct nothing {
        };

        namespace impl
        {
            template <typename...>
            struct voider {
                typedef void type;
            };
            template <typename A, typename V, typename... S>
            struct has_apply : std::false_type {
            };
            template <typename A, typename... S>
            struct has_apply<A,
                typename voider<decltype(
                    A::apply(std::declval<const action_input&>(), std::declval<S>()...))>::type,
                S...> : std::true_type {
            };
            template <typename A, typename V, typename... S>
            struct has_apply0 : std::false_type {
            };
            template <typename A, typename... S>
            struct has_apply0<A, typename voider<decltype(A::apply0(std::declval<S>()...))>::type, S...>
                : std::true_type {
            };
            template <typename A, typename = void>
            struct changes_state : std::false_type {
            };
            template <typename A>
            struct changes_state<A, typename voider<typename A::verif_changes_state>::type> : std::true_type {
            };

            template <typename Rule, bool A, template <typename...> class Action, typename In, typename... S>
            bool match_plain(In& in, S&&... st)
            {
                const char* mark = in.current();
                if (!Rule::template match<A, Action>(in, st...)) {
                    in.reset(mark);
                    return false;
                }
                if constexpr (A) {
                    if constexpr (has_apply<Action<Rule>, void, S...>::value)
                        Action<Rule>::apply(action_input(mark, in.current(), in.offset(mark)), st...);
                    else if constexpr (has_apply0<Action<Rule>, void, S...>::value)
                        Action<Rule>::apply0(st...);
                }
                return true;
            }
            template <typename Rule, bool A, template <typename...> class Action, typename In, typename... S>
            bool match(In& in, S&&... st)
            {
                if constexpr (A && changes_state<Action<Rule> >::value)
                    return Action<Rule>::template verif_match<Rule, Action>(in, st...);
                else
                    return match_plain<Rule, A, Action>(in, st...);
            }
        }

        template <typename NewState>
        struct change_state {
            typedef void verif_changes_state;
            template <typename Rule, template <typename...> class Action, typename In, typename... S>
            static bool verif_match(In& in, S&&... st)
            {
                NewState s(static_cast<const In&>(in), st...);
                if (!impl::match_plain<Rule, true, Action>(in, s))
                    return false;
                s.success(static_cast<const In&>(in), st...);
                return true;
            }
        };
        template <typename NewState>
        struct change_states {
            typedef void verif_changes_state;
            template <typename Rule, template <typename...> class Action, typename In, typename... S>
            static bool verif_match(In& in, S&&... st)
            {
                NewState s = NewState();
                if (!impl::match_plain<Rule, true, Action>(in, s))
                    return false;
                Action<Rule>::success(static_cast<const In&>(in), s, st...);
                return true;
            }
        };

        template <typename... R>
        struct seq {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                const char* mark = in.current();
                if ((impl::match<R, A, Action>(in, st...) && ...))
                    return true;
                in.reset(mark);
                return false;
            }
        };
        template <typename... R>
        struct sor {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                return (impl::match<R, A, Action>(in, st...) || ...);
            }
        };
        template <typename... R>
        struct star {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                while (impl::match<seq<R...>, A, Action>(in, st...)) {
                }
                return true;
            }
        };
        template <typename... R>
        struct plus {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                return impl::match<seq<R...>, A, Action>(in, st...) && star<R...>::template match<A, Action>(in, st...);
            }
        };
        // PEGTL matches a single rule directly, without an intermediate seq
        template <typename R>
        struct star<R> {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                while (impl::match<R, A, Action>(in, st...)) {
                }
                return true;
            }
        };
        template <typename R>
        struct plus<R> {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                return impl::match<R, A, Action>(in, st...) && star<R>::template match<A, Action>(in, st...);
            }
        };
        template <typename... R>
        struct opt {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                impl::match<seq<R...>, A, Action>(in, st...);
                return true;
            }
        };
        template <typename... R>
        struct at {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                const char* mark = in.current();
                bool r = impl::match<seq<R...>, false, Action>(in, st...);
                in.reset(mark);
                return r;
            }
        };
        template <typename... R>
        struct not_at {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                const char* mark = in.current();
                bool r = impl::match<seq<R...>, false, Action>(in, st...);
                in.reset(mark);
                return !r;
            }
        };
        template <unsigned Max, typename... R>
        struct rep_max {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                const char* mark = in.current();
                for (unsigned i = 0; i < Max; ++i)
                    if (!impl::match<seq<R...>, A, Action>(in, st...))
                        return true;
                if (not_at<R...>::template match<A, Action>(in, st...))
                    return true;
                in.reset(mark);
                return false;
            }
        };
        namespace impl
        {
            inline std::string raised(std::size_t byte, const char* mangled)
            {
                char* n = abi::__cxa_demangle(mangled, nullptr, nullptr, nullptr);
                std::string b = std::to_string(byte);
                std::string m = ":1:" + b + "(" + b + "): parse error matching " + (n ? n : mangled);
                std::free(n);
                return m;
            }
            template <typename R, bool A, template <typename...> class Action, typename In, typename... S>
            bool must_one(In& in, S&&... st)
            {
                if (!impl::match<R, A, Action>(in, st...))
                    throw parse_error(raised(in.position().byte, typeid(R).name()));
                return true;
            }
        }
        template <typename... R>
        struct must {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                return (impl::must_one<R, A, Action>(in, st...) && ...);
            }
        };
        template <typename C, typename... R>
        struct if_must : seq<C, must<R...> > {
        };
        template <typename... R>
        struct try_catch {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&... st)
            {
                const char* mark = in.current();
                try {
                    if (impl::match<seq<R...>, A, Action>(in, st...))
                        return true;
                } catch (const parse_error&) {
                }
                in.reset(mark);
                return false;
            }
        };
        template <typename R, typename Sep>
        struct list : seq<R, star<Sep, R> > {
        };

        template <char... C>
        struct one {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty() || !((*in.current() == C) || ...))
                    return false;
                in.bump(1);
                return true;
            }
        };
        template <char... C>
        struct not_one {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty() || ((*in.current() == C) || ...))
                    return false;
                in.bump(1);
                return true;
            }
        };
        template <char L, char H>
        struct range {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty() || *in.current() < L || *in.current() > H)
                    return false;
                in.bump(1);
                return true;
            }
        };
        template <char L, char H>
        struct not_range {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty() || !(*in.current() < L || *in.current() > H))
                    return false;
                in.bump(1);
                return true;
            }
        };
        struct any {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty())
                    return false;
                in.bump(1);
                return true;
            }
        };
        struct eof {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                return in.empty();
            }
        };
        struct eolf {
            template <bool A, template <typename...> class Action, typename In, typename... S>
            static bool match(In& in, S&&...)
            {
                if (in.empty())
                    return true;
                if (*in.current() == '\n') {
                    in.bump(1);
                    return true;
                }
                if (in.size() >= 2 && in.current()[0] == '\r' && in.current()[1] == '\n') {
                    in.bump(2);
                    return true;
                }
                return false;
            }
        };
        struct alpha : sor<range<'a', 'z'>, range<'A', 'Z'> > {
        };
        struct digit : range<'0', '9'> {
        };
        struct alnum : sor<range<'a', 'z'>, range<'A', 'Z'>, range<'0', '9'> > {
        };
        namespace ascii
        {
            using pegtl::alnum;
            using pegtl::alpha;
            using pegtl::any;
            using pegtl::digit;
            using pegtl::eolf;
            using pegtl::one;
            using pegtl::range;
        }
        namespace utf8
        {
            namespace impl
            {
                // one code point, 0 bytes when not well-formed
                inline std::pair<char32_t, std::size_t> peek(const char* p, std::size_t n)
                {
                    if (!n)
                        return { 0, 0 };
                    auto at = [&](std::size_t i) { return (char32_t)(unsigned char)p[i]; };
                    char32_t c0 = at(0);
                    auto cont = [&](std::size_t i) { return i < n && (at(i) & 0xC0) == 0x80; };
                    if (!(c0 & 0x80))
                        return { c0, 1 };
                    if ((c0 & 0xE0) == 0xC0) {
                        if (cont(1)) {
                            char32_t c = ((c0 & 0x1F) << 6) | (at(1) & 0x3F);
                            if (c >= 0x80)
                                return { c, 2 };
                        }
                    } else if ((c0 & 0xF0) == 0xE0) {
                        if (cont(1) && cont(2)) {
                            char32_t c = ((c0 & 0x0F) << 12) | ((at(1) & 0x3F) << 6) | (at(2) & 0x3F);
                            if (c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF))
                                return { c, 3 };
                        }
                    } else if ((c0 & 0xF8) == 0xF0) {
                        if (cont(1) && cont(2) && cont(3)) {
                            char32_t c = ((c0 & 0x07) << 18) | ((at(1) & 0x3F) << 12) | ((at(2) & 0x3F) << 6)
                                | (at(3) & 0x3F);
                            if (c >= 0x10000 && c <= 0x10FFFF)
                                return { c, 4 };
                        }
                    }
                    return { 0, 0 };
                }
                template <char32_t L, char32_t H, char32_t... R>
                bool in_ranges(char32_t c)
                {
                    if (c >= L && c <= H)
                        return true;
                    if constexpr (sizeof...(R) >= 2)
                        return in_ranges<R...>(c);
                    else
                        return false;
                }
            }
            template <char32_t... R>
            struct ranges {
                template <bool A, template <typename...> class Action, typename In, typename... S>
                static bool match(In& in, S&&...)
                {
                    auto p = impl::peek(in.current(), in.size());
                    if (!p.second || !impl::in_ranges<R...>(p.first))
                        return false;
                    in.bump(p.second);
                    return true;
                }
            };
            struct any {
                template <bool A, template <typename...> class Action, typename In, typename... S>
                static bool match(In& in, S&&...)
                {
                    auto p = impl::peek(in.current(), in.size());
                    if (!p.second)
                        return false;
                    in.bump(p.second);
                    return true;
                }
            };
        }

        template <typename Rule, template <typename...> class Action = nothing, typename In, typename... S>
        bool parse(In& in, S&&... st)
        {
            return impl::match<Rule, true, Action>(in, st...);
        }
    }
}
#endif
