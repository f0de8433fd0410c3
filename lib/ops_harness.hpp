#pragma once
#include "e_regex.hpp"
#include "tokenization/tokenizer.hpp"

#include <new>
#include <utility>

#include "ops.hpp"

namespace ho
{
using sv = std::string_view;
constexpr View view(sv v) { return {v.data(), (long) v.size()}; }

template<e_regex::static_string P> struct ops
{
    using R                     = e_regex::regex<P>;
    using T                     = decltype(R::match(sv {}));
    static constexpr unsigned G = R::groups;

    static void construct(void* d, sv q) { new (d) T(R::match(q)); }
    static void copy(void* d, const void* s) { new (d) T(*(const T*) s); }
    static void move(void* d, void* s) { new (d) T(std::move(*(T*) s)); }
    static void assign(void* d, const void* s) { *(T*) d = *(const T*) s; }
    static void move_assign(void* d, void* s) { *(T*) d = std::move(*(T*) s); }
    static bool next(void* d) { return ((T*) d)->next(); }
    static void inc(void* d) { ++*(T*) d; }
    static void destroy(void* d) { ((T*) d)->~T(); }
    static void read(const void* d, Rec& r)
    {
        const T& m = *(const T*) d;
        r.acc      = m.is_accepted();
        r.all      = view(m.to_view());
        for (unsigned g = 0; g < G && g < OBS_GROUPS; ++g) r.caps[g] = view(m.get_group(g + 1));
    }
    static void read_otherwise(const void* d, Rec& r)
    {
        const T& m = *(const T*) d;
        r.all      = view(m[0]);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((I < OBS_GROUPS ? (void) (r.caps[I] = view(m.template get<I + 1>())) : void()), ...);
        }(std::make_index_sequence<G> {});
        r.acc = static_cast<bool>(m);
        (void) m.size();
        (void) static_cast<sv>(m);
        (void) *m;
        (void) m.begin();
        (void) m.end();
    }
    static int walk(void* d, View* out, int cap)
    {
        T&  m = *(T*) d;
        int n = 0;
        for (auto v : m)
        {
            if (n == cap) return cap + 1;
            out[n++] = view(v);
        }
        return n;
    }
    static int walk_const(const void* d, View* out, int cap)
    {
        const T& m = *(const T*) d;
        int      n = 0;
        for (auto i = m.begin(); i != m.end(); ++i)
        {
            if (n == cap) return cap + 1;
            auto j = i;
            ++j;
            if (j != j.end()) ++j;
            out[n++] = view(*i);
        }
        return n;
    }
    static bool before_end(const void* a, const void* b) { return *(const T*) a != ((const T*) b)->end(); }

    static void to_begin(void* a, const void* b) { *(T*) a = ((const T*) b)->begin(); }
    static void to_end(void* a, const void* b) { *(T*) a = ((const T*) b)->end(); }

    static constexpr OpsEntry entry(const char* p)
    {
        return {p, P.size, (int) G, sizeof(T), &construct, &copy, &move, &assign, &move_assign, &next, &inc, &destroy,
                &read, &read_otherwise, &walk, &walk_const, &before_end, &to_begin, &to_end, nullptr, true};
    }
};

enum class type { A, B, C, D, E, F };
inline constexpr char types[8] {};

// The same of the iterators of a tokenizer
template<auto... defs> struct tokops
{
    using R = e_regex::tokenization::tokenizer<defs...>;
    using T = decltype(R::match(sv {}));

    static void construct(void* d, sv q)
    {
        constexpr R tokenizer {};
        new (d) T(tokenizer(q));
    }
    static void copy(void* d, const void* s) { new (d) T(*(const T*) s); }
    static void move(void* d, void* s) { new (d) T(std::move(*(T*) s)); }
    static void assign(void* d, const void* s) { *(T*) d = *(const T*) s; }
    static void move_assign(void* d, void* s) { *(T*) d = std::move(*(T*) s); }
    static bool next(void* d)
    {
        T& t = ++*(T*) d;
        return &t == d && t;
    }
    static void inc(void* d) { ++*(T*) d; }
    static void destroy(void* d) { ((T*) d)->~T(); }
    static void read(const void* d, Rec& r)
    {
        const T& i = *(const T*) d;
        auto     t = *i;
        r.acc      = static_cast<bool>(i);
        r.all      = view(sv(t.value));
        if (r.acc) r.caps[0] = {types + (int) t.type, 1};
    }
    static void read_otherwise(const void* d, Rec& r)
    {
        const T& i = *(const T*) d;
        (void) i.begin();
        (void) i.end();
        r.all = view(sv(i->value));
        r.acc = i != i.end();
        if (i) r.caps[0] = {types + (int) i->type, 1};
    }
    static int walk(void* d, View* out, int cap)
    {
        T&  m = *(T*) d;
        int n = 0;
        for (auto t : m)
        {
            if (n == cap) return cap + 1;
            out[n++] = view(sv(t.value));
        }
        return n;
    }
    static int walk_const(const void* d, View* out, int cap)
    {
        const T& m = *(const T*) d;
        int      n = 0;
        for (auto i = m.begin(); i != m.end(); ++i)
        {
            if (n == cap) return cap + 1;
            auto j = i;
            ++j;
            if (j != j.end()) ++j;
            out[n++] = view(sv(i->value));
        }
        return n;
    }
    static bool before_end(const void* a, const void* b) { return *(const T*) a != ((const T*) b)->end(); }
    static void to_begin(void* a, const void* b) { *(T*) a = ((const T*) b)->begin(); }
    static void to_end(void* a, const void* b) { *(T*) a = ((const T*) b)->end(); }
    static bool equal(const void* a, const void* b)
    {
        const T &x = *(const T*) a, &y = *(const T*) b;
        return x == y && !(x != y);
    }

    static constexpr OpsEntry entry(const char* p)
    {
        return {p, 0, 0, sizeof(T), &construct, &copy, &move, &assign, &move_assign, &next, &inc, &destroy,
                &read, &read_otherwise, &walk, &walk_const, &before_end, &to_begin, &to_end, &equal, false};
    }
};
} // namespace ho
