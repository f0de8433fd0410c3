// Included by generated translation units. Only the documented interface of
// /repo is used.
#pragma once
#include "e_regex.hpp"

#include <array>
#include <tuple>
#include <utility>

#include "iface.hpp"

namespace h
{
using sv = std::string_view;

constexpr View view(sv v) { return {v.data(), (long) v.size()}; }

template<unsigned G, typename M> constexpr void record(const M& m, Rec& r)
{
    r.acc = m.is_accepted();
    r.all = view(m.to_view());
    for (unsigned g = 0; g < G && g < OBS_GROUPS; ++g) r.caps[g] = view(m.get_group(g + 1));
}

template<unsigned G, typename M> constexpr void history(M m, Obs& o)
{
    o.n = 0;
    record<G>(m, o.r[o.n++]);
    if (!m.is_accepted())
    {
        o.lied = o.lied || m.next();
        record<G>(m, o.after);
        o.again = m.next();
        record<G>(m, o.after_again);
        return;
    }
    while (true)
    {
        bool more = m.next();
        if (more != m.is_accepted()) o.lied = true;
        if (!more) break;
        if (o.n == OBS_CAP) { o.full = true; return; }
        record<G>(m, o.r[o.n++]);
    }
    record<G>(m, o.after);
    o.again = m.next();
    record<G>(m, o.after_again);
}

template<e_regex::static_string P> void run(sv q, Obs& o)
{
    constexpr e_regex::regex<P> matcher;
    history<e_regex::regex<P>::groups>(matcher(q), o);
}

// The tree before any optimization: lib/tree.hpp
template<e_regex::static_string P> struct unoptimized;

// The regex that get_expression() describes
template<e_regex::static_string P> constexpr auto described()
{
    constexpr sv text = e_regex::regex<P>::get_expression();
    std::array<char, text.size()> a {};
    for (std::size_t i = 0; i < text.size(); ++i) a[i] = text[i];
    return e_regex::static_string<text.size()> {a};
}
template<e_regex::static_string P> void run_described(sv q, Obs& o)
{
    using again = e_regex::regex<described<P>()>;
    static_assert(again::groups == e_regex::regex<P>::groups, "get_expression() has another number of groups");
    history<again::groups>(again::match(q), o);
}
template<e_regex::static_string P> sv description() { return e_regex::regex<P>::get_expression(); }

constexpr bool same(sv a, sv b) { return a.data() == b.data() && a.size() == b.size(); }

// Bits: what part of the interface disagrees with the rest
template<e_regex::static_string P> constexpr unsigned api(sv q)
{
    constexpr e_regex::regex<P> matcher;
    constexpr unsigned          G = e_regex::regex<P>::groups;
    auto                        m = matcher(q);
    unsigned                    bad = 0;
    if (!same(m.to_view(), m[0]) || !same(m.to_view(), m.get_group(0)) || !same(m.to_view(), m.template get<0>())
        || !same(m.to_view(), static_cast<sv>(m)) || !same(m.to_view(), *m))
        bad |= 1;
    if (static_cast<bool>(m) != m.is_accepted()) bad |= 2;
    if (m.size() != G || m.groups() != G || matcher.groups != G) bad |= 4;
    for (unsigned i = 1; i <= G; ++i)
        if (!same(m[i], m.get_group(i))) bad |= 8;
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        if (!(same(m.template get<I>(), m.get_group(I)) && ...)) bad |= 16;
    }(std::make_index_sequence<G + 1> {});
    using result = decltype(m);
    static_assert(std::tuple_size<result>::value == G + 1, "decomposition gives another number of views");
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        static_assert((std::is_same_v<std::tuple_element_t<I, result>, sv> && ...), "decomposition does not give views");
        if (!(same(std::get<(unsigned) I>(m), m.get_group(I)) && ...)) bad |= 32;
    }(std::make_index_sequence<G + 1> {});
    if constexpr (G == 0) { auto [a] = m; if (!same(a, m[0])) bad |= 32; }
    if constexpr (G == 1) { auto [a, b] = m; if (!same(a, m[0]) || !same(b, m[1])) bad |= 32; }
    if constexpr (G == 2)
    {
        auto [a, b, c] = m;
        if (!same(a, m[0]) || !same(b, m[1]) || !same(c, m[2])) bad |= 32;
    }
    if constexpr (G == 3)
    {
        auto [a, b, c, d] = m;
        if (!same(a, m[0]) || !same(b, m[1]) || !same(c, m[2]) || !same(d, m[3])) bad |= 32;
    }
    auto n = e_regex::regex<P>::match(q);
    auto l = static_cast<e_regex::literal_string_view<>>(m);
    if (!same(sv {l.begin(), l.end()}, m.to_view())) bad |= 1;
    if (n.is_accepted() != m.is_accepted() || !same(n.to_view(), m.to_view())) bad |= 64;
    for (unsigned i = 1; i <= G; ++i)
        if (!same(m[i], n[i])) bad |= 64;
    return bad;
}

template<e_regex::static_string P> int range(sv q, View* out, int cap)
{
    int  n = 0;
    auto m = e_regex::regex<P>::match(q);
    for (auto v : m)
    {
        if (n == cap) return cap + 1;
        out[n++] = view(v);
    }
    return n;
}

template<e_regex::static_string P> void walk(sv q, Visit f, void* ctx)
{
    constexpr unsigned      G = e_regex::regex<P>::groups;
    auto                    m = e_regex::regex<P>::match(q);
    std::array<View, G + 1> caps;
    auto                    see = [&]() {
        for (unsigned g = 0; g < G; ++g) caps[g] = view(m[g + 1]);
        return f(ctx, m.is_accepted(), view(m.to_view()), caps.data());
    };
    if (!see()) return;
    bool ok = m.is_accepted();
    while (ok)
    {
        ok = m.next();
        if (ok != m.is_accepted()) { f(ctx, ok, {nullptr, -1}, nullptr); return; }
        if (!see()) return;
    }
    m.next();
    see();
}
template<e_regex::static_string P> void range_walk(sv q, Visit f, void* ctx)
{
    auto m = e_regex::regex<P>::match(q);
    for (auto v : m)
        if (!f(ctx, true, view(v), nullptr)) return;
    f(ctx, false, {}, nullptr);
}


template<unsigned G, typename M> constexpr void ct_record(const M& m, sv q, int* o)
{
    auto put = [&](sv v) {
        *o++ = v.size() == 0 ? -1 : (int) (v.data() - q.data());
        *o++ = (int) v.size();
    };
    sv all = m.to_view();
    *o++   = all.data() == nullptr ? -1 : (int) (all.data() - q.data());
    *o++   = (int) all.size();
    for (unsigned g = 1; g <= G && g <= CT_GROUPS; ++g) put(m.get_group(g));
}
template<e_regex::static_string P> constexpr void ct_word(sv q, int* o)
{
    constexpr unsigned G = e_regex::regex<P>::groups;
    auto               m = e_regex::regex<P>::match(q);
    int                n = 0;
    bool               ok = m.is_accepted();
    o[0]                 = ok;
    while (ok && n < CT_RESULTS)
    {
        ct_record<G>(m, q, o + 2 + n * (2 + 2 * CT_GROUPS));
        ++n;
        ok = m.next();
    }
    o[1] = n;
}
template<e_regex::static_string P, auto& words> struct ct_table
{
    static constexpr auto N    = words.size();
    static constexpr auto data = []() {
        std::array<int, N * CT_BYTES> a {};
        for (std::size_t i = 0; i < N; ++i) ct_word<P>(words[i], a.data() + i * CT_BYTES);
        return a;
    }();
};
// No part of the interface may throw
template<e_regex::static_string P> constexpr bool never_throws()
{
    using R = e_regex::regex<P>;
    R           r;
    sv          q;
    auto        m = r(q);
    const auto& c = m;
    return noexcept(r(q)) && noexcept(r("abc")) && noexcept(R::match(q)) && noexcept(m.next()) && noexcept(++m) && noexcept(c.is_accepted())
           && noexcept(static_cast<bool>(c)) && noexcept(c.to_view()) && noexcept(c[0]) && noexcept(c.get_group(0)) && noexcept(c.template get<0>())
           && noexcept(c.size()) && noexcept(c.groups()) && noexcept(static_cast<sv>(c)) && noexcept(c.begin()) && noexcept(c.end()) && noexcept(*c)
           && noexcept(c != c) && noexcept(R::get_expression()) && noexcept(r.is_independent(r));
}
// The same query as an array, as in match("abc")
template<e_regex::static_string P, auto& words, std::size_t I> constexpr bool as_literal()
{
    constexpr std::size_t n       = words[I].size();
    char                  a[n + 1] = {};
    for (std::size_t k = 0; k < n; ++k) a[k] = words[I][k];
    const char(&literal)[n + 1] = a;
    constexpr e_regex::regex<P> matcher;
    auto                        m = matcher(literal), v = matcher(words[I]), s = e_regex::regex<P>::match(literal);
    for (int left = 0; left < 5; ++left)
    {
        if (m.is_accepted() != v.is_accepted() || s.is_accepted() != v.is_accepted()) return false;
        for (unsigned g = 0; g <= matcher.groups; ++g)
        {
            if (m[g].size() != v[g].size() || s[g].size() != v[g].size()) return false;
            if (v[g].size() > 0 && (m[g].data() - a != v[g].data() - words[I].data() || !same(m[g], s[g]))) return false;
        }
        if (m.next() != v.next()) return false;
        s.next();
    }
    return true;
}
// The whole interface at compile time
template<e_regex::static_string P, auto& words> struct ct_api_table
{
    template<std::size_t... I> static constexpr auto literals(std::index_sequence<I...>)
    {
        return std::array<bool, words.size()> {as_literal<P, words, I>()...};
    }
    static constexpr auto data = []() {
        std::array<unsigned, words.size()> a {};
        auto                               same_as_literal = literals(std::make_index_sequence<words.size()> {});
        for (std::size_t i = 0; i < words.size(); ++i)
        {
            a[i]                = api<P>(words[i]) | (never_throws<P>() ? 0 : 256) | (same_as_literal[i] ? 0 : 512);
            auto        m       = e_regex::regex<P>::match(words[i]);
            auto        c       = m;
            auto        steps   = m.begin();
            const auto& frozen  = m;
            int         left    = 6;
            for (auto v : m)
            {
                if (!same(v, *steps) || !same(v, c.to_view())) a[i] |= 128;
                if (--left == 0) break;
                ++steps;
                if (c.next() != steps.is_accepted()) a[i] |= 128;
            }
            if (!same(frozen[0], m.begin().to_view())) a[i] |= 128;
        }
        return a;
    }();
};
inline constexpr std::array<sv, 0> no_words {};

enum flags { RUN = 1, TREE = 2, DESCRIBED = 4, API = 8, RANGE = 16, WALK = 32, CTAPI = 64, EXPRESSION = 128 };

template<e_regex::static_string P, unsigned F, auto& ctwords = no_words> constexpr Entry make(const char* p, int fam)
{
    Entry e {};
    e.pat    = p;
    e.len    = P.size;
    e.fam    = fam;
    e.groups = e_regex::regex<P>::groups;
    if constexpr ((F & RUN) != 0) e.run = &run<P>;
    if constexpr ((F & TREE) != 0) e.alt = &unoptimized<P>::run;
    if constexpr ((F & DESCRIBED) != 0) { e.alt = &run_described<P>; e.altname = &description<P>; }
    if constexpr ((F & EXPRESSION) != 0) e.altname = &description<P>;
    if constexpr ((F & API) != 0) e.api = &api<P>;
    if constexpr ((F & RANGE) != 0) e.range = &range<P>;
    if constexpr ((F & WALK) != 0) { e.walk = &walk<P>; e.range_walk = &range_walk<P>; }
    if constexpr (ctwords.size() > 0 && (F & CTAPI) != 0) e.ctapi = ct_api_table<P, ctwords>::data.data();
    if constexpr (ctwords.size() > 0)
    {
        e.ct      = ct_table<P, ctwords>::data.data();
        e.ctwords = ctwords.size();
    }
    return e;
}
} // namespace h
