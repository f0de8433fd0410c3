#pragma once
#include "e_regex.hpp"
#include "tokenization/tokenizer.hpp"

#include <array>
#include <vector>

#include "tok.hpp"

namespace ht
{
using sv = std::string_view;
using e_regex::separator;
using e_regex::token;
enum class type { A, B, C, D, E, F };

constexpr Tok tok(auto t)
{
    sv v = t.value;
    return {v.data(), (long) v.size(), (int) t.type};
}

template<auto... defs, int CAP> constexpr void hand(sv q, ToksOf<CAP>& o)
{
    constexpr e_regex::tokenization::tokenizer<defs...> tokenizer {};
    auto it = tokenizer(q);
    o.n     = 0;
    while (it)
    {
        if (o.n == CAP) { o.n++; return; }
        o.t[o.n++] = tok(*it);
        ++it;
    }
    for (int i = 0; i < 2; ++i)
    {
        ++it;
        if (it) { o.n = TOK_CAP + 2; return; } // went on after its end
    }
}
template<auto... defs> void range(sv q, Toks& o)
{
    constexpr e_regex::tokenization::tokenizer<defs...> tokenizer {};
    o.n = 0;
    for (auto t : tokenizer(q))
    {
        if (o.n == TOK_CAP) { o.n++; return; }
        o.t[o.n++] = tok(t);
    }
}
inline bool same(Tok a, Tok b) { return a.p == b.p && a.n == b.n && (a.n == 0 || a.type == b.type); }
template<auto... defs> void copies(sv q, Toks& o)
{
    using T = e_regex::tokenization::tokenizer<defs...>;
    ToksOf<2> alone;
    {
        auto i = T::match(q);
        if (i) { alone.t[0] = tok(*i); alone.n = 1; }
    }
    auto it = T::match(q);
    std::vector<decltype(it)> seen; // the first few, and the last one
    o.n = 0;
    while (it)
    {
        if (o.n == TOK_CAP) { o.n++; return; }
        Tok  before = tok(*it);
        for (auto& s : seen)
            if (s == it || it == s || !(s != it)) { o.n = -2; return; }
        if (!(it == it) || it != it || it == it.end() || !(it.end() != it)) { o.n = -2; return; }
        if (seen.size() == 6) seen.pop_back();
        seen.push_back(it);
        auto copy   = it;
        auto moved  = std::move(copy);
        for (int i = 0; i < 12 && moved; ++i) ++moved;
        auto first = it.begin();
        auto other = first;
        other      = it;
        if (!first || !same(tok(*first), alone.t[0])) { o.n = -1; return; }
        if (!same(tok(*it), before) || !same(tok(*other), before) || it->value.size() != (*it).value.size()) { o.n = -1; return; }
        o.t[o.n++] = before;
        ++it;
    }
    for (auto& s : seen)
        if (s == it || !(it != s)) { o.n = -2; return; }
    if (!(it == it.end()) || it != it.end()) o.n = -2;
}
template<auto& words, auto... defs> struct ct_table
{
    static constexpr auto data = []() {
        std::array<short, words.size() * CT_TOKS> a {};
        for (std::size_t i = 0; i < words.size(); ++i)
        {
            ToksOf<48> o {};
            hand<defs...>(words[i], o);
            a[i * CT_TOKS] = (short) o.n;
            for (int k = 0; k < o.n && k < CT_SEEN; ++k)
            {
                a[i * CT_TOKS + 1 + 3 * k] = (short) (o.t[k].p - words[i].data());
                a[i * CT_TOKS + 2 + 3 * k] = (short) o.t[k].n;
                a[i * CT_TOKS + 3 + 3 * k] = (short) o.t[k].type;
            }
        }
        return a;
    }();
};
template<auto... defs> constexpr TokEntry make(const Def* d, int count, int fam)
{
    return {d, count, fam, &hand<defs...>, &range<defs...>, &copies<defs...>, nullptr, 0};
}
template<auto& words, auto... defs> constexpr TokEntry make_ct(const Def* d, int count, int fam)
{
    TokEntry e = make<defs...>(d, count, fam);
    e.ct       = ct_table<words, defs...>::data.data();
    e.ctwords  = (int) words.size();
    return e;
}
} // namespace ht
