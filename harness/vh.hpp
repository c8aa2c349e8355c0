// Observes the public API of mregex and writes what it sees as newline-delimited JSON events.
// Nothing here knows what the right answer is: the events are checked against spec/Trace.tla.
#ifndef VH_HPP
#define VH_HPP

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <mregex.hpp>

namespace vh
{
    using meta::regex_flag;

    // ---------------------------------------------------------------- program
    // What to do with one regex: a list of operations read at run time.
    struct op
    {
        char kind;              // 'c' call, 't' tokenizer, 's' searcher, 'T' token range, 'S' match range, 'h' history
        std::string text;       // the input
        std::string extra;      // history script
    };

    inline FILE *out = nullptr;
    inline std::map<long, std::vector<op>> program;
    inline long current_def = -1;
    inline thread_local char current_what[512];

    // ---------------------------------------------------------------- sessions
    // In a session the definitions run in any order, many times over, in several threads, and within each other: at
    // any event and at any read of a character through a checked iterator another call may be made before it goes on.
    // What was observed of an operation is kept once for all times that it was the same.
    struct session { int threads, rounds; unsigned long seed; };
    inline std::vector<session> sessions;
    using observations = std::map<long, std::map<int, std::set<std::string>>>;

    struct actor
    {
        observations seen;
        std::string *sink = nullptr;
        std::uint64_t random = 0;
        int depth = 0, budget = 0, only = -1;
        std::size_t current = 0;
        std::string reused[3];

        std::uint64_t draw(std::uint64_t n)
        {
            random += 0x9e3779b97f4a7c15u;
            std::uint64_t z = random;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
            return (z ^ (z >> 31)) % n;
        }
    };
    inline thread_local actor *me = nullptr;
    void interlude(std::uint64_t chance);

    inline void say(std::string const &line)
    {
        if (me)
        {
            *me->sink += line;
            *me->sink += '\n';
            interlude(6);
            return;
        }
        std::fwrite(line.data(), 1, line.size(), out);
        std::fputc('\n', out);
    }

    inline std::string bytes(std::string_view s)
    {
        std::string r = "[";
        for (std::size_t i = 0; i < s.size(); ++i)
        {
            if (i) r += ',';
            r += std::to_string(static_cast<int>(static_cast<unsigned char>(s[i])));
        }
        return r + "]";
    }

    inline std::string unhex(char const *p)
    {
        std::string r;
        auto val = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        while (p[0] && p[1] && p[0] != '\n' && p[0] != ' ')
        {
            r += static_cast<char>(val(p[0]) * 16 + val(p[1]));
            p += 2;
        }
        return r;
    }

    // ---------------------------------------------------------------- checked iterators
    // A window into a buffer. Any access outside of [0, n) and any move outside of [0, n] is recorded.
    struct window
    {
        char const *data = nullptr;
        std::ptrdiff_t n = 0;
        long faults = 0;
        std::string first;

        void fault(char const *what, std::ptrdiff_t at)
        {
            if (!faults++)
                first = std::string(what) + " at " + std::to_string(at) + " of " + std::to_string(n);
        }
    };

    template<typename Category>
    struct checked
    {
        using iterator_category = Category;
        using iterator_concept = Category;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;

        window *w = nullptr;
        std::ptrdiff_t i = 0;

        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Category>;
        static constexpr bool random = std::is_base_of_v<std::random_access_iterator_tag, Category>;
        static inline char const poison = 'a';

        void move(std::ptrdiff_t d)
        {
            i += d;
            if (!w) { static window none; none.fault("move of a singular iterator", 0); std::abort(); }
            if (i < 0 || i > w->n) w->fault("move", i);
        }
        reference deref(std::ptrdiff_t k) const
        {
            if (!w) std::abort();
            if (k < 0 || k >= w->n) { w->fault("read", k); return poison; }
            if (me) interlude(24);
            return w->data[k];
        }
        reference operator*() const { return deref(i); }
        pointer operator->() const { return &deref(i); }
        checked &operator++() { move(1); return *this; }
        checked operator++(int) { auto t = *this; move(1); return t; }
        checked &operator--() requires bidi { move(-1); return *this; }
        checked operator--(int) requires bidi { auto t = *this; move(-1); return t; }
        checked &operator+=(std::ptrdiff_t d) requires random { move(d); return *this; }
        checked &operator-=(std::ptrdiff_t d) requires random { move(-d); return *this; }
        reference operator[](std::ptrdiff_t d) const requires random { return deref(i + d); }
        friend checked operator+(checked a, std::ptrdiff_t d) requires random { a.move(d); return a; }
        friend checked operator+(std::ptrdiff_t d, checked a) requires random { a.move(d); return a; }
        friend checked operator-(checked a, std::ptrdiff_t d) requires random { a.move(-d); return a; }
        friend std::ptrdiff_t operator-(checked const &a, checked const &b) requires random { return a.i - b.i; }
        friend bool operator==(checked const &a, checked const &b) { return a.i == b.i; }
        friend auto operator<=>(checked const &a, checked const &b) requires random { return a.i <=> b.i; }
    };

    using chk_random = checked<std::random_access_iterator_tag>;
    using chk_bidi = checked<std::bidirectional_iterator_tag>;
    using chk_fwd = checked<std::forward_iterator_tag>;

    // ---------------------------------------------------------------- results
    // [matched, begin, end, groups]: an empty group is [0,0], whatever its position.
    template<typename Result, typename Iter>
    std::string spans(Result const &res, Iter begin)
    {
        bool m = res.matched();
        std::size_t const len = res.length();
        std::string r = std::string("{\"m\":") + (m ? "true" : "false");
        std::ptrdiff_t b = 0, e = static_cast<std::ptrdiff_t>(len);
        if (m) { b = std::distance(begin, res.begin()); e = std::distance(begin, res.end()); if (e - b != static_cast<std::ptrdiff_t>(len)) e = 1000000; }
        r += ",\"b\":" + std::to_string(b) + ",\"e\":" + std::to_string(e) + ",\"g\":[";
        bool first = true;
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            auto one = [&](auto const &g) {
                if (!first) r += ',';
                first = false;
                auto n = static_cast<std::ptrdiff_t>(g.length());
                if (n == 0) { r += g.is_empty() ? "[0,0]" : "[0,1000000]"; return; }
                std::ptrdiff_t gb = std::distance(begin, g.begin());
                r += "[" + std::to_string(gb) + "," + std::to_string(gb + n) + "]";
            };
            (one(res.template group<I + 1>()), ...);
        }(std::make_index_sequence<Result::group_count - 1>{});
        return r + "]}";
    }

    // For results that own their text: the texts instead of the positions.
    template<typename Result>
    std::string texts(Result const &res)
    {
        std::string r = std::string("{\"m\":") + (res.matched() ? "true" : "false") + ",\"t\":[";
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            ((r += (I ? "," : "") + bytes(static_cast<std::string_view>(res.template group<I>()))), ...);
        }(std::make_index_sequence<Result::group_count>{});
        return r + "]}";
    }

    // Positions are measured from the beginning of the range the text came from; iterators of the usual containers
    // and checked windows are supported.
    template<typename RX, typename Iter>
    std::string triple(Iter b, Iter e)
    {
        return "\"M\":" + spans(RX::match(b, e), b) + ",\"P\":" + spans(RX::match_prefix(b, e), b) +
               ",\"S\":" + spans(RX::search(b, e), b);
    }
    template<typename RX, typename Range, typename Iter>
    std::string triple_range(Range const &x, Iter b)
    {
        return "\"M\":" + spans(RX::match(x), b) + ",\"P\":" + spans(RX::match_prefix(x), b) +
               ",\"S\":" + spans(RX::search(x), b);
    }

    enum kinds : unsigned
    {
        k_view = 1, k_ptr = 2, k_string = 4, k_deque = 8, k_list = 16, k_fwd = 32, k_rev = 64, k_chk = 128,
        k_chkb = 256, k_chkf = 512, k_owned = 1024, k_vec = 2048, k_iter = 4096, k_hist = 8192, k_result = 16384,
        k_flist = 65536, k_chars = 131072, k_mut = 262144, k_bytes = 524288, k_forms = 1048576,
        k_values = 2097152
    };

    struct groups_of_equal
    {
        std::vector<std::pair<std::string, std::string>> items;   // labels, value
        void add(char const *label, std::string const &value)
        {
            for (auto &[l, v]: items)
                if (v == value) { l += std::string("+") + label; return; }
            items.emplace_back(label, value);
        }
        std::string json() const
        {
            std::string r = "[";
            for (std::size_t i = 0; i < items.size(); ++i)
                r += (i ? "," : "") + std::string("{\"v\":\"") + items[i].first + "\"," + items[i].second + "}";
            return r + "]";
        }
    };

    template<typename RX, typename It>
    void call_checked(groups_of_equal &g, char const *label, std::string const &text, std::string &fault)
    {
        // The window lies inside a larger buffer whose surroundings look like more of the same text.
        for (int pad = 0; pad < 2; ++pad)
        {
            std::string around = pad ? text + text + "a\nb" : std::string(4, '\0');
            std::string buf = around + text + around;
            window w{buf.data() + around.size(), static_cast<std::ptrdiff_t>(text.size()), 0, {}};
            It b{&w, 0}, e{&w, w.n};
            auto v = triple<RX>(b, e);
            g.add(label, v);
            if (w.faults && fault.empty()) fault = std::string(label) + ": " + w.first;
        }
    }

    template<typename RX, unsigned Kinds>
    void call(std::string const &text)
    {
        groups_of_equal g;
        std::string fault;
        std::string_view const sv{text};
        if constexpr (Kinds & k_view) g.add("view", triple_range<RX>(sv, std::cbegin(sv)));
        if constexpr (Kinds & k_ptr)
        {
            // Exactly the text, with nothing after it.
            std::vector<char> exact(text.begin(), text.end());
            char const *p = exact.data();
            static char const nothing = 0;
            if (!p) p = &nothing;
            g.add("ptr", triple<RX>(p, p + text.size()));
        }
        if constexpr (Kinds & k_string) g.add("string", triple_range<RX>(text, text.cbegin()));
        if constexpr (Kinds & k_vec)
        {
            std::vector<char> const x(text.begin(), text.end());
            g.add("vector", triple_range<RX>(x, x.cbegin()));
        }
        if constexpr (Kinds & k_mut)
        {
            // Through iterators that could be written through.
            std::string x = text;
            g.add("mutable", triple<RX>(x.begin(), x.end()));
            std::vector<char> y(text.begin(), text.end());
            g.add("mutable pointer", triple<RX>(y.data(), y.data() + y.size()));
            if (x != text || !std::equal(y.begin(), y.end(), text.begin(), text.end())) fault = "the text was changed";
        }
        if constexpr (Kinds & k_deque)
        {
            std::deque<char> const x(text.begin(), text.end());
            g.add("deque", triple_range<RX>(x, x.cbegin()));
        }
        if constexpr (Kinds & k_list)
        {
            std::list<char> const x(text.begin(), text.end());
            g.add("list", triple_range<RX>(x, x.cbegin()));
        }
        if constexpr (Kinds & k_fwd)
        {
            std::forward_list<char> const x(text.begin(), text.end());
            g.add("fwd", triple_range<RX>(x, x.cbegin()));
        }
        if constexpr (Kinds & k_rev)
        {
            std::string const x(text.rbegin(), text.rend());
            g.add("rev", triple<RX>(x.crbegin(), x.crend()));
        }
        if constexpr (Kinds & k_bytes)
        {
            // Other types of one byte.
            auto other = [&]<typename C>(char const *label, C const &x) { g.add(label, triple_range<RX>(x, std::cbegin(x))); };
            other("vector of unsigned char", std::vector<unsigned char>(text.begin(), text.end()));
            other("list of unsigned char", std::list<unsigned char>(text.begin(), text.end()));
            other("deque of signed char", std::deque<signed char>(text.begin(), text.end()));
            other("u8string", std::u8string(text.begin(), text.end()));
            other("u8string_view", std::u8string_view(reinterpret_cast<char8_t const *>(text.data()), text.size()));
        }
        if constexpr (Kinds & k_forms)
        {
            // Other ways to say where the text is.
            if (text.find('\0') == std::string::npos)
            {
                char const *p = text.c_str();
                auto triple_of = [&](auto &&x) {
                    return "\"M\":" + spans(RX::match(x), p) + ",\"P\":" + spans(RX::match_prefix(x), p) + ",\"S\":" + spans(RX::search(x), p);
                };
                // a pointer is where a view of it begins
                static_assert(sizeof(std::string_view::const_iterator) == sizeof p);
                g.add("c string", triple_of(p));
                if (text.size() < 8)
                {
                    char array[8] = {};
                    std::copy(text.begin(), text.end(), array);
                    p = array;
                    g.add("char array", triple_of(array));
                    g.add("const char array", triple_of(std::as_const(array)));
                }
            }
            std::vector<char> x(text.begin(), text.end());
            std::span<char const> const s{x};
            g.add("span", triple_range<RX>(s, s.begin()));
            std::ranges::subrange const sub{x.cbegin(), x.cend()};
            g.add("subrange", triple_range<RX>(sub, sub.begin()));
            std::string t = "##" + text + "##";
            auto const part = t | std::views::drop(2) | std::views::take(static_cast<std::ptrdiff_t>(text.size()));
            g.add("part", triple_range<RX>(part, part.begin()));
            std::string u(text.rbegin(), text.rend());
            auto const rev = u | std::views::reverse;
            g.add("reverse view", triple_range<RX>(rev, rev.begin()));
        }
        if constexpr (Kinds & k_values)
        {
            // Iterators that compute their characters: what they return is not a reference.
            std::string x = text;
            for (char &c: x) c = static_cast<char>(c + 1);
            auto const computed = x | std::views::transform([](char c) { return static_cast<char>(c - 1); });
            g.add("computed", triple_range<RX>(computed, computed.begin()));
            std::list<char> y(x.begin(), x.end());
            auto const linked = y | std::views::transform([](char c) { return static_cast<char>(c - 1); });
            g.add("computed from a list", triple_range<RX>(linked, linked.begin()));
            std::string z;
            for (char c: text) { z += '\0'; z += c; }
            auto odd = std::views::iota(0, static_cast<int>(z.size())) | std::views::filter([](int i) { return i % 2 == 1; }) |
                       std::views::transform([&z](int i) { return z[static_cast<std::size_t>(i)]; });
            g.add("filtered", triple<RX>(odd.begin(), odd.end()));
        }
        if constexpr (Kinds & k_chk) call_checked<RX, chk_random>(g, "chk", text, fault);
        if constexpr (Kinds & k_chkb) call_checked<RX, chk_bidi>(g, "chkb", text, fault);
        if constexpr (Kinds & k_chkf) call_checked<RX, chk_fwd>(g, "chkf", text, fault);
        std::string line = "{\"ev\":\"call\",\"s\":" + bytes(text) + ",\"oob\":" + (fault.empty() ? "0" : "1");
        if (!fault.empty()) line += ",\"fault\":\"" + fault + "\"";
        line += ",\"rs\":" + g.json() + "}";
        say(line);
        if constexpr (Kinds & k_owned)
        {
            std::string t = "{\"ev\":\"own\",\"s\":" + bytes(text) + ",\"M\":" + texts(RX::match(std::string(text)));
            t += ",\"P\":" + texts(RX::match_prefix(std::string(text)));
            t += ",\"S\":" + texts(RX::search(std::string(text))) + "}";
            say(t);
            auto other = [&](char const *label, auto make) {
                std::string x = std::string("{\"ev\":\"own\",\"v\":\"") + label + "\",\"s\":" + bytes(text) + ",\"M\":" + texts(RX::match(make()));
                say(x + ",\"P\":" + texts(RX::match_prefix(make())) + ",\"S\":" + texts(RX::search(make())) + "}");
            };
            other("vector", [&] { return std::vector<char>(text.begin(), text.end()); });
            other("list", [&] { return std::list<char>(text.begin(), text.end()); });
            other("deque", [&] { return std::deque<char>(text.begin(), text.end()); });
        }
    }

    // ---------------------------------------------------------------- iteration
    inline thread_local int next_object = 0;

    template<typename Gen, typename Iter>
    void generate(char const *kind, char const *label, std::string const &text, Gen gen, Iter b)
    {
        int id = ++next_object;
        say("{\"ev\":\"new\",\"id\":" + std::to_string(id) + ",\"k\":\"" + kind + "\",\"v\":\"" + label + "\",\"s\":" + bytes(text) +
            ",\"a\":" + (gen.active() ? "true" : "false") + "}");
        int after = 0;
        for (std::size_t i = 0; i < text.size() + 5 && after < 3; ++i)
        {
            auto r = (i & 1) ? gen() : gen.next();
            say("{\"ev\":\"next\",\"id\":" + std::to_string(id) + ",\"a\":" + (gen.active() ? "true" : "false") + ",\"r\":" + spans(r, b) + "}");
            if (!gen.active()) ++after;
        }
    }

    template<typename Range, typename Iter>
    void walk(char const *kind, char const *label, std::string const &text, Range range, Iter b)
    {
        std::string list = "[";
        std::size_t n = 0;
        for (auto &r: range)
        {
            list += (n ? "," : "") + spans(r, b);
            interlude(6);
            if (++n > text.size() + 4) break;
        }
        bool ended = range.begin() == range.end();
        say("{\"ev\":\"range\",\"k\":\"" + std::string(kind) + "\",\"v\":\"" + label + "\",\"s\":" + bytes(text) + ",\"end\":" +
            (ended ? "true" : "false") + ",\"rs\":" + list + "]}");
    }

    // The same through the range adaptors of the standard library.
    template<typename Range, typename Iter>
    void pipe(char const *kind, char const *label, std::string const &text, Range range, Iter b)
    {
        static_assert(std::ranges::input_range<Range> && std::input_iterator<std::ranges::iterator_t<Range>>);
        std::string list = "[";
        std::size_t n = 0;
        auto limit = static_cast<std::ptrdiff_t>(text.size()) + 5;
        for (auto const &r: range | std::views::take(limit) | std::views::transform([&](auto &r) { return spans(r, b); }))
            list += (n++ ? "," : "") + r;
        bool ended = range.begin() == range.end();
        say("{\"ev\":\"range\",\"k\":\"" + std::string(kind) + "\",\"v\":\"pipe " + label + "\",\"s\":" + bytes(text) + ",\"end\":" +
            (ended ? "true" : "false") + ",\"rs\":" + list + "]}");
    }

    // The same with an iterator held over the whole iteration, incremented in both ways.
    template<typename Range, typename Iter>
    void loop(char const *kind, char const *label, std::string const &text, Range range, Iter b)
    {
        std::string list = "[";
        std::size_t n = 0;
        auto it = range.begin();
        while (it != range.end() && n < text.size() + 5)
        {
            list += (n ? "," : "") + spans(*it, b);
            if (n++ % 2) it++; else ++it;
        }
        bool ended = it == range.end() && range.end() == it && !it && !range.active();
        say("{\"ev\":\"range\",\"k\":\"" + std::string(kind) + "\",\"v\":\"loop " + label + "\",\"s\":" + bytes(text) + ",\"end\":" +
            (ended ? "true" : "false") + ",\"rs\":" + list + "]}");
    }

    template<typename RX, typename Iter>
    void iterate_pair(char const *label, std::string const &text, Iter b, Iter e)
    {
        generate("tok", label, text, RX::tokenizer(b, e), b);
        generate("srch", label, text, RX::searcher(b, e), b);
        walk("tok", label, text, RX::tokenize(b, e), b);
        walk("srch", label, text, RX::find_all(b, e), b);
    }

    template<typename RX, unsigned Kinds>
    void iterate(std::string const &text)
    {
        if constexpr (Kinds & k_view)
        {
            std::string_view const sv{text};
            generate("tok", "view", text, RX::tokenizer(sv), sv.begin());
            generate("srch", "view", text, RX::searcher(sv), sv.begin());
            walk("tok", "view", text, RX::tokenize(sv), sv.begin());
            walk("srch", "view", text, RX::find_all(sv), sv.begin());
        }
        if constexpr (Kinds & k_string)
        {
            generate("tok", "string", text, RX::tokenizer(text), text.cbegin());
            generate("srch", "string", text, RX::searcher(text), text.cbegin());
            walk("tok", "string", text, RX::tokenize(text), text.cbegin());
            walk("srch", "string", text, RX::find_all(text), text.cbegin());
        }
        if constexpr (Kinds & k_list)
        {
            std::list<char> const x(text.begin(), text.end());
            iterate_pair<RX>("list", text, x.cbegin(), x.cend());
        }
        if constexpr (Kinds & k_vec)
        {
            // A container that could still be modified, as ranges, in a pipeline and with iterators.
            std::vector<char> x(text.begin(), text.end());
            generate("tok", "vector", text, RX::tokenizer(x), x.cbegin());
            generate("srch", "vector", text, RX::searcher(x), x.cbegin());
            pipe("tok", "vector", text, RX::tokenize(x), x.cbegin());
            pipe("srch", "vector", text, RX::find_all(x), x.cbegin());
            loop("tok", "vector", text, RX::tokenize(x), x.cbegin());
            loop("srch", "vector", text, RX::find_all(x), x.cbegin());
        }
        if constexpr (Kinds & (k_fwd | k_flist))
        {
            std::forward_list<char> const x(text.begin(), text.end());
            iterate_pair<RX>("fwd", text, x.cbegin(), x.cend());
        }
        if constexpr (Kinds & k_forms)
        {
            if (text.find('\0') == std::string::npos)
            {
                char const *const p = text.c_str();
                generate("tok", "c string", text, RX::tokenizer(p), p);
                generate("srch", "c string", text, RX::searcher(p), p);
                walk("tok", "c string", text, RX::tokenize(p), p);
                walk("srch", "c string", text, RX::find_all(p), p);
            }
        }
        if constexpr (Kinds & k_bytes)
        {
            std::vector<unsigned char> const x(text.begin(), text.end());
            iterate_pair<RX>("vector of unsigned char", text, x.cbegin(), x.cend());
        }
        if constexpr (Kinds & k_values)
        {
            auto const x = text | std::views::transform([](char c) { return c; });
            iterate_pair<RX>("computed", text, x.begin(), x.end());
        }
        if constexpr (Kinds & k_chk)
        {
            std::string buf = "xa\n" + text + text;
            window w{buf.data() + 3, static_cast<std::ptrdiff_t>(text.size()), 0, {}};
            chk_random b{&w, 0}, e{&w, w.n};
            iterate_pair<RX>("chk", text, b, e);
            say("{\"ev\":\"bounds\",\"oob\":" + std::string(w.faults ? "1" : "0") + ",\"fault\":\"" + w.first + "\"}");
        }
    }

    // What a range shows, through every way of asking.
    template<typename Range, typename Iter>
    void look(char const *ev, int id, Range &range, Iter b, std::string const &extra = "")
    {
        auto it = range.begin();
        bool end = it == range.end();
        bool agree = end == !static_cast<bool>(it) && end == !range.active() && (range.end() == it) == end && (it != range.end()) == !end;
        std::string r = spans(*it, b), r2 = spans(range.current_result(), b), r3 = spans(std::as_const(range).current_result(), b);
        auto expiring = range;
        auto const constant = range;
        auto const moved = std::move(expiring).current_result();
        auto const copied_result = std::move(constant).current_result();
        bool same = r == r2 && r == r3 && it->matched() == (*it).matched() && spans(moved, b) == r && spans(copied_result, b) == r;
        say("{\"ev\":\"" + std::string(ev) + "\",\"id\":" + std::to_string(id) + extra + ",\"a\":" + (end ? "false" : "true") +
            ",\"agree\":" + (agree && same ? "true" : "false") + ",\"r\":" + r + "}");
    }

    // Histories: several generators and ranges over the same text, copied, advanced, assigned and compared in any order.
    // Script characters: t/s new tokenizer/searcher, T/S new range, 0-3 select an object, n next, d look at a range,
    // c copy the selected into a new one, = assign the selected from object 0.
    template<typename RX>
    void history(std::string const &text, std::string const &script)
    {
        std::string_view const sv{text};
        auto const b = sv.begin();
        using tok = decltype(RX::tokenizer(sv));
        using srch = decltype(RX::searcher(sv));
        using toks = decltype(RX::tokenize(sv));
        using srchs = decltype(RX::find_all(sv));
        struct object { int id; char kind; tok t; srch s; toks ts; srchs ss; };
        std::vector<object> objects;
        std::size_t sel = 0;
        auto look_at = [&](char const *ev, std::string const &extra = "") {
            auto &o = objects[sel];
            if (o.kind == 'T') look(ev, o.id, o.ts, b, extra);
            else if (o.kind == 'S') look(ev, o.id, o.ss, b, extra);
        };
        for (char c: script)
        {
            if (c == 't' || c == 's' || c == 'T' || c == 'S')
            {
                objects.push_back({++next_object, c, RX::tokenizer(sv), RX::searcher(sv), RX::tokenize(sv), RX::find_all(sv)});
                sel = objects.size() - 1;
                std::string k = std::string(",\"k\":\"") + (c == 't' || c == 'T' ? "tok" : "srch") + "\",\"s\":" + bytes(text);
                if (c == 't' || c == 's') say("{\"ev\":\"new\",\"id\":" + std::to_string(next_object) + k + ",\"v\":\"hist\",\"a\":true}");
                else look_at("rnew", k);
            }
            else if (objects.empty()) continue;
            else if (c >= '0' && c <= '3') sel = static_cast<std::size_t>(c - '0') % objects.size();
            else if (c == 'n')
            {
                auto &o = objects[sel];
                if (o.kind == 'T' || o.kind == 'S')
                {
                    if (o.kind == 'T') ++o.ts.begin(); else o.ss.begin()++;
                    look_at("rinc");
                    continue;
                }
                auto r = o.kind == 't' ? spans(o.t.next(), b) : spans(o.s.next(), b);
                bool active = o.kind == 't' ? o.t.active() : o.s.active();
                say("{\"ev\":\"next\",\"id\":" + std::to_string(o.id) + ",\"a\":" + (active ? "true" : "false") + ",\"r\":" + r + "}");
            }
            else if (c == 'd') look_at("rsame");
            else if (c == 'c')
            {
                object copy = objects[sel];
                copy.id = ++next_object;
                say("{\"ev\":\"copy\",\"id\":" + std::to_string(copy.id) + ",\"of\":" + std::to_string(objects[sel].id) + "}");
                objects.push_back(copy);
                sel = objects.size() - 1;
            }
            else if (c == '=')
            {
                int id = objects[sel].id;
                say("{\"ev\":\"copy\",\"id\":" + std::to_string(id) + ",\"of\":" + std::to_string(objects[0].id) + "}");
                objects[sel] = objects[0];
                objects[sel].id = id;
            }
        }
    }

    // A lazy range driven by hand. Script characters: i increment, p post-increment, b begin() again, d dereference,
    // m move the range.
    template<typename RX>
    void range_history(std::string const &text, std::string const &script, bool tok)
    {
        std::string_view const sv{text};
        auto const b = sv.begin();
        auto drive = [&](auto range) {
            int id = ++next_object;
            auto state = [&](char const *ev, char const *extra = "") { look(ev, id, range, b, extra); };
            std::string extra = std::string(",\"k\":\"") + (tok ? "tok" : "srch") + "\",\"s\":" + bytes(text);
            state("rnew", extra.c_str());
            for (char c: script)
            {
                auto it = range.begin();
                if (c == 'i') { ++it; state("rinc"); }
                else if (c == 'p') { it++; state("rinc"); }
                else if (c == 'b') { auto again = range.begin(); (void) again; state("rsame"); }
                else if (c == 'm') { auto moved = std::move(range); range = moved; state("rsame"); }
            }
        };
        if (tok) drive(RX::tokenize(sv)); else drive(RX::find_all(sv));
    }

    // ---------------------------------------------------------------- character sets
    // For every byte c: which of them are matched in place of c in pre c post, exactly and at the end of a prefix match.
    template<typename RX, typename It, typename Make>
    std::string accepted_bytes(std::string const &pre, std::string const &post, Make make, bool prefix)
    {
        std::string acc = "[";
        bool first = true;
        for (int c = 0; c < 256; ++c)
        {
            std::string text = pre + static_cast<char>(c) + post;
            auto x = make(text);
            bool m;
            if (prefix)
            {
                auto r = RX::match_prefix(It(x.begin()), It(x.end()));
                m = r.matched() && r.length() == text.size();
            }
            else
                m = RX::match(It(x.begin()), It(x.end())).matched();
            if (m) { acc += (first ? "" : ",") + std::to_string(c); first = false; }
        }
        return acc + "]";
    }

    template<typename RX, unsigned Kinds>
    void chars(std::string const &pre, std::string const &post)
    {
        std::string head = "{\"ev\":\"chars\",\"pre\":" + bytes(pre) + ",\"post\":" + bytes(post) + ",\"v\":\"";
        auto keep = [](std::string const &t) -> std::string const { return t; };
        say(head + "view\",\"acc\":" + accepted_bytes<RX, std::string::const_iterator>(pre, post, keep, false) + "}");
        if constexpr (Kinds & k_list)
        {
            auto list = [](std::string const &t) -> std::list<char> const { return {t.begin(), t.end()}; };
            say(head + "list\",\"acc\":" + accepted_bytes<RX, std::list<char>::const_iterator>(pre, post, list, false) + "}");
        }
    }

    // ---------------------------------------------------------------- results read in every way
    struct view_log
    {
        std::string ts, ms, ws, bs, ns;
        static void sep(std::string &s) { if (!s.empty()) s += ','; }
        void texts(char const *v, std::vector<std::string> const &t)
        {
            sep(ts);
            ts += std::string("{\"v\":\"") + v + "\",\"t\":[";
            for (std::size_t i = 0; i < t.size(); ++i) ts += (i ? "," : "") + bytes(t[i]);
            ts += "]}";
        }
        void matched(char const *v, bool m) { sep(ms); ms += std::string("{\"v\":\"") + v + "\",\"m\":" + (m ? "true" : "false") + "}"; }
        void whole(char const *v, std::string const &t) { sep(ws); ws += std::string("{\"v\":\"") + v + "\",\"t\":" + bytes(t) + "}"; }
        void nonempty(char const *v, std::vector<bool> const &b)
        {
            sep(bs);
            bs += std::string("{\"v\":\"") + v + "\",\"b\":[";
            for (std::size_t i = 0; i < b.size(); ++i) bs += (i ? "," : "") + std::string(b[i] ? "true" : "false");
            bs += "]}";
        }
        void named(char const *v, std::string_view name, std::string const &t)
        {
            sep(ns);
            ns += std::string("{\"v\":\"") + v + "\",\"n\":" + bytes(name) + ",\"t\":" + bytes(t) + "}";
        }
    };

    // Element by element: std::distance of value-initialised list iterators is not defined.
    template<typename Iter>
    std::string copied(Iter b, Iter e)
    {
        std::string s;
        for (; b != e; ++b) s += *b;
        return s;
    }
    template<typename Capture>
    std::string str(Capture const &c) { return copied(c.begin(), c.end()); }

    template<typename Result>
    void read_groups(view_log &log, char const *tag, Result &res)
    {
        std::string t(tag);
        auto label = [&](char const *x) { static thread_local std::string l; l = t + x; return l.c_str(); };
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            log.texts(label("group"), {str(res.template group<I>())...});
            log.texts(label("const group"), {str(std::as_const(res).template group<I>())...});
            log.texts(label("get"), {str(res.template get<I>())...});
            log.texts(label("const get"), {str(std::as_const(res).template get<I>())...});
            log.texts(label("get_group"), {str(meta::get_group<I>(res))...});
            log.texts(label("content"), {std::string(res.template group<I>().content())...});
            auto stream = [](auto const &g) { std::ostringstream os; os << g; return os.str(); };
            log.texts(label("stream"), {stream(res.template group<I>())...});
            auto index = [](auto const &g) {
                std::string s;
                if constexpr (requires { g[0]; })
                    for (std::size_t i = 0; i < g.length(); ++i) s += g[i];
                else s = str(g);
                return s;
            };
            log.texts(label("index"), {index(res.template group<I>())...});
            auto mutable_text = [](auto &g) { return copied(g.begin(), g.end()); };
            log.texts(label("mutable group"), {mutable_text(res.template group<I>())...});
            auto mutable_index = [](auto &g) {
                std::string s;
                if constexpr (requires { g[0]; })
                    for (std::size_t i = 0; i < g.length(); ++i) s += g[i];
                else s = str(g);
                return s;
            };
            log.texts(label("mutable index"), {mutable_index(res.template group<I>())...});
            auto const_content = [](auto const &g) { return std::string(g.content()); };
            log.texts(label("const content"), {const_content(res.template group<I>())...});
            auto viewed = [](auto const &g) {
                if constexpr (std::contiguous_iterator<decltype(g.begin())>)
                {
                    std::string_view const text = g;
                    return std::string(text);
                }
                else
                    return str(g);
            };
            log.texts(label("string_view"), {viewed(res.template group<I>())...});
            log.nonempty(label("const bool"), {static_cast<bool>(std::as_const(res).template group<I>())...});
            log.nonempty(label("bool"), {static_cast<bool>(res.template group<I>())...});
            log.nonempty(label("is_empty"), {!res.template group<I>().is_empty()...});
            log.nonempty(label("length"), {res.template group<I>().length() != 0 ...});
        }(std::make_index_sequence<Result::group_count>{});
        std::vector<std::string> seen;
        res.for_each_group([&](auto const &g) { seen.push_back(str(g)); });
        log.texts(label("for_each"), seen);
        seen.clear();
        std::as_const(res).for_each_group([&](auto const &g) { seen.push_back(str(g)); });
        log.texts(label("const for_each"), seen);
        auto tuple = res.transform_groups([](auto const &g) { return str(g); });
        std::apply([&](auto const &... x) { log.texts(label("transform"), {std::string(x)...}); }, tuple);
        log.matched(label("matched"), res.matched());
        log.matched(label("bool"), static_cast<bool>(res));
        log.matched(label("== true"), res == true);
        log.matched(label("!= true"), !(res != true));
        log.matched(label("== false"), !(res == false));
        log.matched(label("optional"), res.as_optional().has_value());
        log.matched(label("const optional"), std::as_const(res).as_optional().has_value());
        log.whole(label("begin..end"), copied(res.begin(), res.end()));
        log.whole(label("length"), std::string(str(res.template group<0>())).substr(0, res.length()));
        if constexpr (std::contiguous_iterator<decltype(res.begin())>)
        {
            std::string_view const text = res;
            log.whole(label("string_view"), std::string(text));
        }
        std::ostringstream os;
        os << res;
        log.whole(label("stream"), os.str());
        if (auto opt = res.as_optional()) log.whole(label("optional"), str(opt->template group<0>()));
        if (auto opt = std::as_const(res).as_optional()) log.whole(label("const optional"), str(opt->template group<0>()));
        constexpr std::size_t n = Result::group_count;
        static_assert(n == std::tuple_size_v<Result>);
        if constexpr (n == 1) { auto &[a] = res; log.texts(label("binding"), {str(a)}); }
        if constexpr (n == 2) { auto &[a, b] = res; log.texts(label("binding"), {str(a), str(b)}); }
        if constexpr (n == 3) { auto &[a, b, c] = res; log.texts(label("binding"), {str(a), str(b), str(c)}); }
        if constexpr (n == 4) { auto const &[a, b, c, d] = res; log.texts(label("binding"), {str(a), str(b), str(c), str(d)}); }
        if constexpr (n == 5) { auto copy = res; auto [a, b, c, d, e] = copy; log.texts(label("binding"), {str(a), str(b), str(c), str(d), str(e)}); }
    }

    // Reading from expiring results; every access uses a copy of its own.
    template<typename Result>
    void read_moved(view_log &log, char const *tag, Result const &res)
    {
        std::string t(tag);
        auto label = [&](char const *x) { static thread_local std::string l; l = t + x; return l.c_str(); };
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            auto move_group = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto copy = res;
                auto g = std::move(copy).template group<J>();
                return str(g);
            };
            auto move_get = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto copy = res;
                auto g = std::move(copy).template get<J>();
                return str(g);
            };
            auto move_content = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto copy = res;
                return std::string(std::move(copy).template group<J>().content());
            };
            auto move_const = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto const copy = res;
                return str(std::move(copy).template group<J>());
            };
            log.texts(label("moved group"), {move_group(std::integral_constant<std::size_t, I>{})...});
            log.texts(label("moved get"), {move_get(std::integral_constant<std::size_t, I>{})...});
            log.texts(label("moved content"), {move_content(std::integral_constant<std::size_t, I>{})...});
            auto move_const_get = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto const copy = res;
                auto g = std::move(copy).template get<J>();
                return str(g);
            };
            auto move_const_content = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto const copy = res;
                return std::string(std::move(copy).template group<J>().content());
            };
            auto move_functor = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
                auto copy = res;
                auto g = meta::get_group<J>(std::move(copy));
                return str(g);
            };
            log.texts(label("moved const group"), {move_const(std::integral_constant<std::size_t, I>{})...});
            log.texts(label("moved const get"), {move_const_get(std::integral_constant<std::size_t, I>{})...});
            log.texts(label("moved const content"), {move_const_content(std::integral_constant<std::size_t, I>{})...});
            log.texts(label("moved get_group"), {move_functor(std::integral_constant<std::size_t, I>{})...});
        }(std::make_index_sequence<Result::group_count>{});
        {
            auto copy = res;
            std::vector<std::string> seen;
            std::move(copy).for_each_group([&](auto &&g) { auto own = std::forward<decltype(g)>(g); seen.push_back(str(own)); });
            log.texts(label("moved for_each"), seen);
        }
        {
            auto const copy = res;
            std::vector<std::string> seen;
            std::move(copy).for_each_group([&](auto const &&g) { seen.push_back(str(g)); });
            log.texts(label("moved const for_each"), seen);
        }
        {
            auto copy = res;
            auto opt = std::move(copy).as_optional();
            log.matched(label("moved optional"), opt.has_value());
            if (opt) log.whole(label("moved optional"), str(opt->template group<0>()));
        }
        {
            auto const copy = res;
            auto opt = std::move(copy).as_optional();
            log.matched(label("moved const optional"), opt.has_value());
            if (opt) log.whole(label("moved const optional"), str(opt->template group<0>()));
        }
        {
            auto copy = res;
            auto moved = std::move(copy);
            auto assigned = res;
            assigned = moved;
            log.whole(label("moved and assigned"), str(assigned.template group<0>()));
            log.matched(label("moved and assigned"), assigned.matched());
        }
    }

    template<typename Result>
    void check_default(view_log &, Result const &) {}

    template<typename RX, meta::static_string... Names>
    struct views
    {
        template<typename Result>
        static void names(view_log &log, char const *tag, Result &res)
        {
            (log.named(tag, static_cast<std::string_view>(Names), str(res.template group<Names>())), ...);
            (log.named(tag, static_cast<std::string_view>(Names), str(std::as_const(res).template group<Names>())), ...);
            (log.named(tag, static_cast<std::string_view>(Names), str(meta::get_group_named<Names>(res))), ...);
            auto moved = [&]<meta::static_string N>() {
                auto copy = res;
                auto g = std::move(copy).template group<N>();
                log.named("moved", static_cast<std::string_view>(N), str(g));
                auto const second = res;
                auto h = std::move(second).template group<N>();
                log.named("moved const", static_cast<std::string_view>(N), str(h));
                auto third = res;
                auto k = meta::get_group_named<N>(std::move(third));
                log.named("moved functor", static_cast<std::string_view>(N), str(k));
            };
            (moved.template operator()<Names>(), ...);
        }

        template<bool Temporary, typename Make>
        static void one(char const *of, std::string const &text, Make make)
        {
            view_log log;
            auto *buf = new std::string(text);
            std::string_view const sv{*buf};
            auto res = make(sv);
            std::string r = spans(res, sv.begin());
            read_groups(log, "view ", res);
            read_moved(log, "view ", res);
            names(log, "view", res);
            auto copy = res;
            read_groups(log, "copy ", copy);
            std::list<char> chars(text.begin(), text.end());
            auto lres = make(std::as_const(chars));
            read_groups(log, "list ", lres);
            names(log, "list", lres);
            auto own = res.as_memory_owner();
            auto lown = lres.as_memory_owner();
            chars.assign(chars.size(), '#');
            buf->assign(text.size(), '#');
            delete buf;
            // from here on the text is gone
            read_groups(log, "owned ", own);
            read_moved(log, "owned ", own);
            names(log, "owned", own);
            read_groups(log, "owned list ", lown);
            if constexpr (Temporary)
            {
                auto tmp = make(std::string(text));
                read_groups(log, "temporary ", tmp);
                read_moved(log, "temporary ", tmp);
                auto vec = make(std::vector<char>(text.begin(), text.end()));
                log.matched("temporary vector", vec.matched());
                log.whole("temporary vector", str(vec.template group<0>()));
                names(log, "temporary vector", vec);
            }
            auto own2 = own;
            { auto gone = std::move(own); (void) gone; }
            read_groups(log, "owned copy ", own2);
            say("{\"ev\":\"views\",\"of\":\"" + std::string(of) + "\",\"s\":" + bytes(text) + ",\"r\":" + r + ",\"ts\":[" + log.ts +
                "],\"ms\":[" + log.ms + "],\"ws\":[" + log.ws + "],\"bs\":[" + log.bs + "],\"ns\":[" + log.ns + "]}");
        }

        static void run(std::string const &text)
        {
            one<true>("M", text, []<typename T>(T &&x) { return RX::match(std::forward<T>(x)); });
            one<true>("P", text, []<typename T>(T &&x) { return RX::match_prefix(std::forward<T>(x)); });
            one<true>("S", text, []<typename T>(T &&x) { return RX::search(std::forward<T>(x)); });
            // results that were handed out by generators and ranges
            static thread_local int turn = 0;
            switch (turn++ % 4)
            {
            case 0: one<false>("S", text, [](auto const &x) { return RX::searcher(x).next(); }); break;
            case 1: one<false>("P", text, [](auto const &x) { return RX::tokenizer(x)(); }); break;
            case 2: one<false>("S", text, [](auto const &x) { return RX::find_all(x).current_result(); }); break;
            default: one<false>("P", text, [](auto const &x) { auto const range = RX::tokenize(x); return range.current_result(); });
            }
        }
    };

    template<meta::static_string Pattern, meta::static_string... Names>
    void result_pattern(long id)
    {
        std::string_view const pat = static_cast<std::string_view>(Pattern);
        if constexpr (std::is_same_v<meta::parser_verdict<Pattern>, meta::parsing::success>)
        {
            using rx = meta::regex<Pattern>;
            using result = decltype(rx::match(std::string_view{}));
            std::string names = "[";
            [&]<std::size_t... I>(std::index_sequence<I ...>) {
                ((names += (I ? "," : "") + bytes(std::tuple_element_t<I + 1, result>::has_name() ? std::tuple_element_t<I + 1, result>::name() : std::string_view{})), ...);
            }(std::make_index_sequence<result::group_count - 1>{});
            say("{\"ev\":\"def\",\"id\":" + std::to_string(id) + ",\"pat\":" + bytes(pat) + ",\"ok\":true,\"err\":-1,\"n\":" +
                std::to_string(result::group_count - 1) + ",\"nm\":" + names + "],\"fl\":[]}");
            // a result nobody computed
            result none{};
            say("{\"ev\":\"blank\",\"m\":" + std::string(none.matched() || static_cast<bool>(none) || none.as_optional().has_value() ? "true" : "false") +
                ",\"len\":" + std::to_string(none.length()) + "}");
            for (auto const &o: program[id])
            {
                std::snprintf(current_what, sizeof current_what, "def %ld op %c input %.300s", id, o.kind, bytes(o.text).c_str());
                if (!me) alarm(30);
                views<rx, Names ...>::run(o.text);
                if (!me) alarm(0);
            }
        }
        else
            say("{\"ev\":\"def\",\"id\":" + std::to_string(id) + ",\"pat\":" + bytes(pat) + ",\"ok\":false,\"err\":-1}");
    }

    // ---------------------------------------------------------------- running one definition
    template<typename RX, unsigned Kinds>
    void run_op(op const &o, std::string const &text)
    {
        switch (o.kind)
        {
        case 'c': call<RX, Kinds>(text); break;
        case 'k': if constexpr (Kinds & k_chars) chars<RX, Kinds>(text, unhex(o.extra.c_str())); break;
        case 'i': if constexpr (Kinds & k_iter) iterate<RX, Kinds>(text); break;
        case 'h': if constexpr (Kinds & k_hist) history<RX>(text, o.extra); break;
        case 'T': if constexpr (Kinds & k_hist) range_history<RX>(text, o.extra, true); break;
        case 'S': if constexpr (Kinds & k_hist) range_history<RX>(text, o.extra, false); break;
        default: break;
        }
    }

    // One operation of a session. The text lies where it is shared with all the others or where the one before was.
    template<typename Run>
    void session_op(long id, int index, op const &o, Run run)
    {
        std::string events;
        std::string *const outer = me->sink;
        int const objects = next_object;
        me->sink = &events;
        next_object = 0;
        if (me->draw(2))
        {
            auto &buffer = me->reused[me->depth];
            buffer.assign(o.text);
            run(o, buffer);
            if (buffer != o.text) events += "{\"ev\":\"intact\",\"ok\":false}\n";
        }
        else run(o, o.text);
        me->sink = outer;
        next_object = objects;
        me->seen[id][index].insert(std::move(events));
    }

    template<typename RX, unsigned Kinds>
    void run_ops(long id)
    {
        auto const &ops = program[id];
        for (std::size_t i = 0; i < ops.size(); ++i)
        {
            auto const &o = ops[i];
            if (me && me->only >= 0 && i != static_cast<std::size_t>(me->only) % ops.size()) continue;
            std::snprintf(current_what, sizeof current_what, "def %ld op %c input %.300s", id, o.kind, bytes(o.text).c_str());
            if (me)
                session_op(id, static_cast<int>(i), o, [](op const &x, std::string const &text) { run_op<RX, Kinds>(x, text); });
            else
            {
                alarm(30);
                run_op<RX, Kinds>(o, o.text);
                alarm(0);
            }
        }
    }

    template<typename Verdict>
    inline constexpr long error_position = -1;
    template<std::size_t I>
    inline constexpr long error_position<meta::parsing::syntax_error<I>> = static_cast<long>(I);

    template<regex_flag F>
    constexpr char const *flag_name()
    {
        if constexpr (F == regex_flag::icase) return "icase";
        else if constexpr (F == regex_flag::dotall) return "dotall";
        else if constexpr (F == regex_flag::multiline) return "multiline";
        else if constexpr (F == regex_flag::ungreedy) return "ungreedy";
        else return "unroll";
    }

    template<typename RX, regex_flag... Flags>
    std::string shape()
    {
        std::string names = "[", flags = "[";
        bool first = true;
        using result = decltype(RX::match(std::string_view{}));
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            ((names += (I ? "," : "") + bytes(std::tuple_element_t<I + 1, result>::name())), ...);
        }(std::make_index_sequence<result::group_count - 1>{});
        ((flags += (first ? "\"" : ",\"") + std::string(flag_name<Flags>()) + "\"", first = false), ...);
        return ",\"n\":" + std::to_string(RX::capture_count) + ",\"nm\":" + names + "],\"fl\":" + flags + "]";
    }

    template<meta::static_string Pattern>
    inline constexpr bool accepted = std::is_same_v<meta::parser_verdict<Pattern>, meta::parsing::success>;

    // Only whether the pattern is accepted, and where it is not.
    template<meta::static_string Pattern>
    void verdict(long id)
    {
        constexpr long pos = error_position<meta::parser_verdict<Pattern>>;
        std::string_view const pat = static_cast<std::string_view>(Pattern);
        say("{\"ev\":\"verdict\",\"id\":" + std::to_string(id) + ",\"pat\":" + bytes(pat) + ",\"ok\":" + (accepted<Pattern> ? "true" : "false") +
            ",\"err\":" + std::to_string(pos) + "}");
    }

    template<unsigned Kinds, meta::static_string Pattern, regex_flag... Flags>
    void pattern(long id)
    {
        std::string_view const pat = static_cast<std::string_view>(Pattern);
        std::string head = "{\"ev\":\"def\",\"id\":" + std::to_string(id) + ",\"pat\":" + bytes(pat);
        if constexpr (accepted<Pattern>)
        {
            using rx = meta::regex<Pattern, Flags ...>;
            say(head + ",\"ok\":true,\"err\":-1" + shape<rx, Flags ...>() + "}");
            run_ops<rx, Kinds>(id);
        }
        else
            say(head + ",\"ok\":false,\"err\":" + std::to_string(error_position<meta::parser_verdict<Pattern>>) + "}");
    }

    // A regex type obtained in some other way, described by a JSON fragment.
    template<unsigned Kinds, typename RX, regex_flag... Flags>
    void described(long id, char const *description)
    {
        say("{\"ev\":\"def\",\"id\":" + std::to_string(id) + "," + description + ",\"ok\":true,\"err\":-1" + shape<RX, Flags ...>() + "}");
        run_ops<RX, Kinds>(id);
    }

    // A result computed during constant evaluation, recorded in a fixed-size structure.
    template<std::size_t N>
    struct frozen
    {
        bool m = false;
        std::ptrdiff_t b = 0, e = 0;
        std::array<std::ptrdiff_t, 2 * N + 2> g{};

        std::string json() const
        {
            std::string r = std::string("{\"m\":") + (m ? "true" : "false") + ",\"b\":" + std::to_string(b) + ",\"e\":" + std::to_string(e) + ",\"g\":[";
            for (std::size_t i = 0; i < N; ++i)
                r += (i ? ",[" : "[") + std::to_string(g[2 * i]) + "," + std::to_string(g[2 * i + 1]) + "]";
            return r + "]}";
        }
    };

    template<typename Result, typename Iter>
    constexpr auto freeze(Result const &res, Iter begin)
    {
        frozen<Result::group_count - 1> f;
        f.m = res.matched();
        f.e = static_cast<std::ptrdiff_t>(res.length());
        if (f.m) { f.b = std::distance(begin, res.begin()); f.e = std::distance(begin, res.end()); }
        [&]<std::size_t... I>(std::index_sequence<I ...>) {
            auto one = [&](auto const &g, std::size_t i) {
                auto n = static_cast<std::ptrdiff_t>(g.length());
                if (n == 0) return;
                f.g[2 * i] = std::distance(begin, g.begin());
                f.g[2 * i + 1] = f.g[2 * i] + n;
            };
            (one(res.template group<I + 1>(), I), ...);
        }(std::make_index_sequence<Result::group_count - 1>{});
        return f;
    }

    template<typename RX, std::size_t N>
    constexpr auto frozen_triple(std::array<char, N> const &text, std::size_t n)
    {
        std::string_view const sv{text.data(), n};
        return std::array{freeze(RX::match(sv), sv.begin()), freeze(RX::match_prefix(sv), sv.begin()), freeze(RX::search(sv), sv.begin())};
    }

    // Text is a char array constant; the calls are made by the compiler.
    template<typename RX, meta::static_string Text>
    void frozen_call()
    {
        constexpr auto f = frozen_triple<RX>(Text.data, Text.length());
        say("{\"ev\":\"call\",\"s\":" + bytes(static_cast<std::string_view>(Text)) + ",\"oob\":0,\"rs\":[{\"v\":\"constexpr\",\"M\":" + f[0].json() +
            ",\"P\":" + f[1].json() + ",\"S\":" + f[2].json() + "}]}");
    }

    // ---------------------------------------------------------------- main
    struct entry { long id; void (*run)(long); };

    inline void load(char const *path)
    {
        FILE *f = std::fopen(path, "r");
        if (!f) { std::perror(path); std::exit(3); }
        char *line = nullptr;
        std::size_t cap = 0;
        long id = -1;
        while (getline(&line, &cap, f) > 0)
        {
            if (line[0] == 'W')
            {
                session w{};
                if (std::sscanf(line + 2, "%d %d %lu", &w.threads, &w.rounds, &w.seed) == 3) sessions.push_back(w);
            }
            else if (line[0] == 'D') { id = std::atol(line + 2); program[id]; }
            else if (line[0] != '\n')
            {
                op o;
                o.kind = line[0];
                char const *p = line + 2;
                o.text = unhex(p);
                if (char const *q = std::strchr(p, ' ')) { o.extra = q + 1; while (!o.extra.empty() && o.extra.back() == '\n') o.extra.pop_back(); }
                program[id].push_back(std::move(o));
            }
        }
        std::free(line);
        std::fclose(f);
    }

    inline entry const *all_entries = nullptr;
    inline std::size_t entry_count = 0;

    // Runs one definition for the calling thread.
    inline void perform(std::size_t i, int only)
    {
        std::string head;
        std::string *const outer = me->sink;
        int const outer_only = me->only;
        me->sink = &head;
        me->only = only;
        me->current = i;
        all_entries[i].run(all_entries[i].id);
        me->sink = outer;
        me->only = outer_only;
        me->seen[all_entries[i].id][-1].insert(std::move(head));
    }

    inline void interlude(std::uint64_t chance)
    {
        if (!me || me->depth >= 2 || me->budget <= 0 || me->draw(chance)) return;
        char what[sizeof current_what];
        std::memcpy(what, current_what, sizeof what);
        --me->budget;
        ++me->depth;
        // often the regex that is at work already
        std::size_t const current = me->current;
        perform(me->draw(3) ? me->draw(entry_count) : current, static_cast<int>(me->draw(1000)));
        me->current = current;
        --me->depth;
        std::memcpy(current_what, what, sizeof what);
    }

    struct job { session s; int number; actor a; };

    inline void *work(void *p)
    {
        auto &j = *static_cast<job *>(p);
        std::vector<char> altstack(1 << 16);
        stack_t ss{};
        ss.ss_sp = altstack.data();
        ss.ss_size = altstack.size();
        stack_t old{};
        sigaltstack(&ss, &old);
        me = &j.a;
        me->random = j.s.seed * 1000003u + static_cast<std::uint64_t>(j.number) * 7919u;
        for (auto &x: me->reused) x.reserve(4096);
        std::vector<std::size_t> order(entry_count);
        for (std::size_t i = 0; i < entry_count; ++i) order[i] = i;
        for (int round = 0; round < j.s.rounds; ++round)
        {
            for (std::size_t i = entry_count; i > 1; --i) std::swap(order[i - 1], order[me->draw(i)]);
            for (auto i: order)
            {
                me->budget = 12;
                perform(i, -1);
            }
        }
        me = nullptr;
        sigaltstack(&old, nullptr);
        return nullptr;
    }

    inline void hold_sessions(entry const *entries, std::size_t n)
    {
        all_entries = entries;
        entry_count = n;
        for (std::size_t i = 0; i < n; ++i) program[entries[i].id];
        auto texts = [] {
            std::string r;
            for (auto const &[id, ops]: program)
                for (auto const &o: ops) r += o.text + '|';
            return r;
        };
        std::string const before = texts();
        observations all;
        alarm(400);
        for (auto const &s: sessions)
        {
            std::vector<job> jobs(static_cast<std::size_t>(s.threads));
            std::vector<pthread_t> threads(jobs.size());
            pthread_attr_t attr;
            pthread_attr_init(&attr);
            pthread_attr_setstacksize(&attr, std::size_t{128} << 20);
            for (std::size_t i = 0; i < jobs.size(); ++i)
            {
                jobs[i].s = s;
                jobs[i].number = static_cast<int>(i);
                if (pthread_create(&threads[i], &attr, work, &jobs[i])) std::exit(3);
            }
            for (auto t: threads) pthread_join(t, nullptr);
            pthread_attr_destroy(&attr);
            for (auto &j: jobs)
                for (auto &[id, ops]: j.a.seen)
                    for (auto &[k, set]: ops) all[id][k].merge(set);
        }
        alarm(0);
        bool const intact = texts() == before;
        for (auto const &[id, ops]: all)
            for (auto const &[k, set]: ops)
                for (auto const &x: set) std::fwrite(x.data(), 1, x.size(), out);
        say(std::string("{\"ev\":\"intact\",\"ok\":") + (intact ? "true}" : "false}"));
    }

    // A crash or a hang is an observation too; the driver appends the event.
    inline void on_signal(int sig)
    {
        char buf[700];
        int n = std::snprintf(buf, sizeof buf, "SIGNAL %d %s\n", sig, current_what);
        if (n > 0) { auto w = write(2, buf, static_cast<std::size_t>(n)); (void) w; }
        std::fflush(out);
        _exit(sig == SIGALRM ? 77 : 78);
    }

    inline int main(int argc, char **argv, entry const *entries, std::size_t n)
    {
        if (argc < 3) return 3;
        load(argv[1]);
        out = std::fopen(argv[2], "w");
        if (!out) return 3;
        static char altstack[1 << 16];
        stack_t ss{};
        ss.ss_sp = altstack;
        ss.ss_size = sizeof altstack;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        for (int s: {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
        if (!sessions.empty()) hold_sessions(entries, n);
        else for (std::size_t i = 0; i < n; ++i)
        {
            current_def = entries[i].id;
            entries[i].run(entries[i].id);
        }
        std::fclose(out);
        return 0;
    }
}
#endif
