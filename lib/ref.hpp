// Reference model: the regular expressions README.md describes, parsed and
// matched in the plainest way. It shares nothing with /repo.
//
// Two readings of a quantified group are modelled:
//   FULL  every choice made inside an earlier repetition can be revisited
//         (conventional backtracking, what CPython's re does);
//   REP   a repetition of a group commits once its body has matched: only
//         whole repetitions are given back or added.
// They coincide when the quantified things are single characters.
#pragma once
#include <bitset>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
using bytes = std::bitset<256>;

enum class kind { STR, SET, SEQ, ALT, GROUP, REP, BOL, EOL };
enum class mode { GREEDY, LAZY, POSSESSIVE };
constexpr unsigned INF = 0xffffffffu;

struct node
{
    kind                                k;
    std::string                         str;    // STR
    bytes                               set;    // SET
    std::vector<std::unique_ptr<node>>  kids;   // SEQ, ALT; one for GROUP, REP
    int                                 index = -1; // GROUP: -1 if it does not capture
    unsigned                            min = 0, max = 0;
    mode                                m = mode::GREEDY;
};
using ptr = std::unique_ptr<node>;

struct bad_pattern : std::runtime_error { using runtime_error::runtime_error; };

inline bytes range_set(unsigned a, unsigned b)
{
    bytes r;
    for (unsigned c = a; c <= b; ++c) r.set(c);
    return r;
}
inline bytes chars_set(std::string_view s)
{
    bytes r;
    for (unsigned char c : s) r.set(c);
    return r;
}
inline bytes space_set() { return chars_set("\t\n\f\r "); }
inline bytes word_set()
{
    return range_set('a', 'z') | range_set('A', 'Z') | range_set('0', '9') | chars_set("_");
}

struct parser
{
    std::string_view p;
    size_t           i      = 0;
    int              groups = 0;

    [[noreturn]] void fail(const char* why) { throw bad_pattern(std::string(why) + " in " + std::string(p)); }
    bool more() const { return i < p.size(); }
    char at(size_t k = 0) const { return i + k < p.size() ? p[i + k] : '\0'; }
    bool has(size_t k) const { return i + k < p.size(); }

    static ptr make(kind k) { auto n = std::make_unique<node>(); n->k = k; return n; }
    static ptr str(std::string s) { auto n = make(kind::STR); n->str = std::move(s); return n; }
    static ptr set(bytes b) { auto n = make(kind::SET); n->set = b; return n; }

    static int hex(char c)
    {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    static bool oct(char c) { return c >= '0' && c <= '7'; }

    ptr alternatives()
    {
        auto alt = make(kind::ALT);
        alt->kids.push_back(branch());
        while (more() && at() == '|') { ++i; alt->kids.push_back(branch()); }
        if (alt->kids.size() == 1) return std::move(alt->kids[0]);
        return alt;
    }

    ptr branch()
    {
        auto   seq   = make(kind::SEQ);
        size_t start = i;
        while (more() && at() != '|' && at() != ')')
        {
            if (at() == '^')
            {
                if (i != start) fail("^ not at the start");
                ++i;
                seq->kids.push_back(make(kind::BOL));
                continue;
            }
            if (at() == '$')
            {
                ++i;
                if (more() && at() != '|' && at() != ')') fail("$ not at the end");
                seq->kids.push_back(make(kind::EOL));
                continue;
            }
            seq->kids.push_back(quantified(atom()));
        }
        if (seq->kids.empty()) fail("empty branch");
        return seq;
    }

    unsigned number()
    {
        if (!(at() >= '0' && at() <= '9')) fail("number expected");
        unsigned long v = 0;
        while (more() && at() >= '0' && at() <= '9')
        {
            v = v * 10 + (at() - '0');
            if (v > INF) v = INF; // no query is as long
            ++i;
        }
        return (unsigned) v;
    }

    ptr quantified(ptr body)
    {
        if (!more()) return body;
        unsigned mn, mx;
        bool     exact = false;
        switch (at())
        {
            case '*': mn = 0; mx = INF; ++i; break;
            case '+': mn = 1; mx = INF; ++i; break;
            case '?': mn = 0; mx = 1; ++i; break;
            case '{':
                ++i;
                mn = number();
                if (at() == ',') { ++i; mx = at() == '}' ? INF : number(); }
                else { mx = mn; exact = true; }
                if (at() != '}') fail("} expected");
                ++i;
                break;
            default: return body;
        }
        auto r = make(kind::REP);
        r->min = mn; r->max = mx;
        if (more() && at() == '?') { ++i; r->m = mode::LAZY; }
        else if (more() && at() == '+') { ++i; r->m = mode::POSSESSIVE; }
        if (exact) r->m = mode::GREEDY;
        if (more() && (at() == '*' || at() == '+' || at() == '?' || at() == '{')) fail("double quantifier");
        r->kids.push_back(std::move(body));
        return r;
    }

    // \ already consumed; in_set: only single characters and classes
    bool class_escape(bytes& out)
    {
        switch (at())
        {
            case 's': out = space_set(); break;
            case 'S': out = ~space_set(); break;
            case 'd': out = range_set('0', '9'); break;
            case 'D': out = ~range_set('0', '9'); break;
            case 'w': out = word_set(); break;
            case 'W': out = ~word_set(); break;
            case 'N': out = ~chars_set("\n"); break;
            case 'n': out = chars_set("\n"); break;
            case 't': out = chars_set("\t"); break;
            case 'r': out = chars_set("\r"); break;
            case 'f': out = chars_set("\f"); break;
            case 'a': out = chars_set("\x07"); break;
            case 'e': out = chars_set("\x1b"); break;
            default: return false;
        }
        ++i;
        return true;
    }

    std::string digits_until_brace()
    {
        std::string d;
        ++i;
        while (more() && at() != '}') d += p[i++];
        if (!more()) fail("} expected");
        ++i;
        return d;
    }

    ptr atom()
    {
        char c = at();
        if (c == '(')
        {
            ++i;
            auto g = make(kind::GROUP);
            if (at() == '?' && at(1) == ':') i += 2;
            else g->index = groups++;
            g->kids.push_back(alternatives());
            if (!more() || at() != ')') fail(") expected");
            ++i;
            return g;
        }
        if (c == '[') { ++i; return brackets(); }
        if (c == '.') { ++i; return set(~chars_set("\n")); }
        if (c == '\\')
        {
            ++i;
            if (!more()) fail("lone \\");
            bytes b;
            if (class_escape(b)) return set(b);
            if (at() == 'x')
            {
                if (at(1) == '{')
                {
                    ++i;
                    std::string d = digits_until_brace(), s;
                    if (d.empty() || (d.size() > 1 && d.size() % 2)) fail("hex");
                    if (d.size() == 1) s = std::string(1, (char) hex(d[0]));
                    else for (size_t k = 0; k < d.size(); k += 2) s += (char) (hex(d[k]) * 16 + hex(d[k + 1]));
                    return str(s);
                }
                if (has(1) && hex(at(1)) >= 0)
                {
                    int v = hex(at(1));
                    i += 2;
                    if (more() && hex(at()) >= 0) { v = v * 16 + hex(at()); ++i; }
                    return str(std::string(1, (char) v));
                }
            }
            if (at() == 'o' && at(1) == '{')
            {
                ++i;
                std::string d = digits_until_brace(), s;
                if (d.empty() || d.size() % 3) fail("octal");
                for (size_t k = 0; k < d.size(); k += 3)
                    s += (char) ((d[k] - '0') * 64 + (d[k + 1] - '0') * 8 + (d[k + 2] - '0'));
                return str(s);
            }
            size_t o = at() == 'o' ? 1 : 0;
            if (has(o + 2) && oct(at(o)) && oct(at(o + 1)) && oct(at(o + 2)))
            {
                int v = (at(o) - '0') * 64 + (at(o + 1) - '0') * 8 + (at(o + 2) - '0');
                i += o + 3;
                return str(std::string(1, (char) v));
            }
            return str(std::string(1, p[i++]));
        }
        if (c == '*' || c == '+' || c == '?' || c == '{' || c == ')' || c == ']' || c == '}') fail("unexpected operator");
        ++i;
        return str(std::string(1, c));
    }

    ptr brackets()
    {
        bool neg = false;
        if (at() == '^') { neg = true; ++i; }
        bytes b;
        bool  any = false;
        while (more() && at() != ']')
        {
            any = true;
            if (at() == '\\')
            {
                ++i;
                bytes e;
                if (class_escape(e)) { b |= e; continue; }
                if (!more()) fail("lone \\");
                b.set((unsigned char) p[i++]);
                continue;
            }
            if (at(1) == '-' && has(2) && at(2) != ']')
            {
                if (at(2) == '\\') fail("escape in a range");
                signed char lo = (signed char) at(), hi = (signed char) at(2);
                if (lo > hi) fail("range");
                for (int v = lo; v <= hi; ++v) b.set((unsigned char) v);
                i += 3;
                continue;
            }
            b.set((unsigned char) p[i++]);
        }
        if (!more() || !any) fail("[]");
        ++i;
        return set(neg ? ~b : b);
    }
};

#ifndef REF_GROUPS
#define REF_GROUPS 16
#endif
constexpr int MAXG = REF_GROUPS;

struct pattern
{
    ptr         root;
    int         groups = 0;
    std::string text;

    explicit pattern(std::string_view p) : text(p)
    {
        parser q {text};
        root = q.alternatives();
        if (q.more()) q.fail("trailing )");
        groups = q.groups;
        if (groups > MAXG) q.fail("too many groups");
    }
};

// ---------------------------------------------------------------- matching

struct span
{
    int b = -1, e = -1;
    bool operator==(const span&) const = default;
};
struct state
{
    int  pos = 0;
    span caps[MAXG];
};

template<typename F> struct fref;
template<typename R, typename... A> struct fref<R(A...)>
{
    void* o;
    R (*f)(void*, A...);
    template<typename L> fref(L&& l)
        : o((void*) &l), f([](void* o, A... a) -> R { return (*(std::remove_reference_t<L>*) o)(a...); })
    {}
    R operator()(A... a) const { return f(o, a...); }
};
using cont = fref<bool(state&)>;

enum class reading { FULL, REP };

struct matcher
{
    std::string_view q;
    reading          r;
    long             steps = 0;

    static constexpr long LIMIT = 20000000;

    bool run(const node& n, state& s, cont k)
    {
        if (++steps > LIMIT) throw std::runtime_error("reference: too many steps");
        switch (n.k)
        {
            case kind::STR:
                if (q.substr(s.pos).starts_with(n.str))
                {
                    s.pos += (int) n.str.size();
                    if (k(s)) return true;
                    s.pos -= (int) n.str.size();
                }
                return false;
            case kind::SET:
                if (s.pos < (int) q.size() && n.set[(unsigned char) q[s.pos]])
                {
                    s.pos++;
                    if (k(s)) return true;
                    s.pos--;
                }
                return false;
            case kind::BOL:
                return (s.pos == 0 || q[s.pos - 1] == '\n') && k(s);
            case kind::EOL:
                if (s.pos == (int) q.size()) return k(s);
                if (q[s.pos] == '\n')
                {
                    s.pos++;
                    if (k(s)) return true;
                    s.pos--;
                }
                return false;
            case kind::SEQ: return seq(n, 0, s, k);
            case kind::ALT:
                for (auto& b : n.kids)
                {
                    state t = s;
                    if (run(*b, t, k)) { s = t; return true; }
                }
                return false;
            case kind::GROUP:
            {
                if (n.index < 0) return run(*n.kids[0], s, k);
                int   begin = s.pos;
                state t     = s;
                auto  close = [&](state& u) {
                    span old         = u.caps[n.index];
                    u.caps[n.index]  = {begin, u.pos};
                    if (k(u)) return true;
                    u.caps[n.index]  = old;
                    return false;
                };
                if (run(*n.kids[0], t, close)) { s = t; return true; }
                return false;
            }
            case kind::REP: return r == reading::REP ? rep_commit(n, s, k) : rep_full(n, s, k);
        }
        return false;
    }

    bool seq(const node& n, size_t i, state& s, cont k)
    {
        if (i == n.kids.size()) return k(s);
        auto rest = [&, i](state& t) { return seq(n, i + 1, t, k); };
        return run(*n.kids[i], s, rest);
    }

    bool alone(const node& n, state& s)
    {
        state t  = s;
        auto  ok = [](state&) { return true; };
        if (!run(n, t, ok)) return false;
        s = t;
        return true;
    }

    bool rep_commit(const node& n, state& s, cont k)
    {
        const node& body = *n.kids[0];
        if (n.m == mode::LAZY)
        {
            state t = s;
            for (unsigned c = 0;; ++c)
            {
                if (c >= n.min)
                {
                    state u = t;
                    if (k(u)) { s = u; return true; }
                }
                int at = t.pos;
                if (c >= n.max || !alone(body, t)) return false;
                if (c >= n.min && t.pos == at) return false;
                if (t.pos == at) c = n.min - 1;
                if (++steps > LIMIT) throw std::runtime_error("reference: too many steps");
            }
        }
        std::vector<state> after {s};
        bool               idle = false; // stopped by an empty repetition
        while (after.size() - 1 < n.max)
        {
            state t = after.back();
            if (!alone(body, t)) break;
            idle = t.pos == after.back().pos;
            after.push_back(t);
            if (idle) break;
        }
        unsigned count = (unsigned) after.size() - 1;
        if (count < n.min && !idle) return false;
        unsigned least = count < n.min ? count : n.min;
        if (n.m == mode::POSSESSIVE) least = count;
        for (unsigned c = count + 1; c-- > least;)
        {
            state u = after[c];
            if (k(u)) { s = u; return true; }
        }
        return false;
    }

    bool rep_full(const node& n, state& s, cont k)
    {
        if (n.m == mode::POSSESSIVE)
        {
            state t  = s;
            auto  ok = [](state&) { return true; };
            if (!loop(n, 0, t, ok, mode::GREEDY)) return false;
            if (!k(t)) return false;
            s = t;
            return true;
        }
        return loop(n, 0, s, k, n.m);
    }

    bool loop(const node& n, unsigned c, state& s, cont k, mode m)
    {
        if (++steps > LIMIT) throw std::runtime_error("reference: too many steps");
        int  at    = s.pos;
        auto again = [&](state& t) {
            if (t.pos == at)
            {
                // an empty repetition is as good as any number of them
                if (c + 1 >= n.min) return k(t);
                if (c + 1 < n.min) return loop(n, c + 1, t, k, m);
            }
            return loop(n, c + 1, t, k, m);
        };
        if (c < n.min)
        {
            state t = s;
            if (run(*n.kids[0], t, again)) { s = t; return true; }
            return false;
        }
        if (m == mode::LAZY)
        {
            state t = s;
            if (k(t)) { s = t; return true; }
        }
        if (c < n.max)
        {
            state t = s;
            if (run(*n.kids[0], t, again)) { s = t; return true; }
        }
        if (m == mode::GREEDY)
        {
            state t = s;
            if (k(t)) { s = t; return true; }
        }
        return false;
    }
};

struct match
{
    bool found = false;
    span all;
    span caps[MAXG];
    bool operator==(const match&) const = default;
};

// Match that starts exactly at from
inline match match_at(const pattern& p, std::string_view q, int from, reading r)
{
    matcher m {q, r};
    state   s;
    s.pos     = from;
    match res;
    if (m.alone(*p.root, s))
    {
        res.found = true;
        res.all   = {from, s.pos};
        for (int g = 0; g < p.groups; ++g) res.caps[g] = s.caps[g];
    }
    return res;
}

inline match find(const pattern& p, std::string_view q, int from, reading r)
{
    for (int b = from; b <= (int) q.size(); ++b)
    {
        match m = match_at(p, q, b, r);
        if (m.found) return m;
    }
    return {};
}

// Leftmost, non overlapping; after an empty match, one character is skipped
inline std::vector<match> find_all(const pattern& p, std::string_view q, reading r)
{
    std::vector<match> all;
    int                from = 0;
    while (from <= (int) q.size())
    {
        match m = find(p, q, from, r);
        if (!m.found) break;
        all.push_back(m);
        from = m.all.e > m.all.b ? m.all.e : m.all.e + 1;
    }
    return all;
}

// ---------------------------------------------------------------- language

// Positions where n can end, from any of starts, whatever is tried first.
// Possessive quantifiers count as greedy ones.
struct language
{
    std::string_view q;
    using positions = std::bitset<512>;

    positions ends(const node& n, positions from) const
    {
        positions out;
        switch (n.k)
        {
            case kind::STR:
                for (size_t i = 0; i <= q.size(); ++i)
                    if (from[i] && q.substr(i).starts_with(n.str)) out.set(i + n.str.size());
                break;
            case kind::SET:
                for (size_t i = 0; i < q.size(); ++i)
                    if (from[i] && n.set[(unsigned char) q[i]]) out.set(i + 1);
                break;
            case kind::BOL:
                for (size_t i = 0; i <= q.size(); ++i)
                    if (from[i] && (i == 0 || q[i - 1] == '\n')) out.set(i);
                break;
            case kind::EOL:
                if (from[q.size()]) out.set(q.size());
                for (size_t i = 0; i < q.size(); ++i)
                    if (from[i] && q[i] == '\n') out.set(i + 1);
                break;
            case kind::SEQ:
                out = from;
                for (auto& c : n.kids) out = ends(*c, out);
                break;
            case kind::ALT:
                for (auto& c : n.kids) out |= ends(*c, from);
                break;
            case kind::GROUP: out = ends(*n.kids[0], from); break;
            case kind::REP:
            {
                positions cur = from;
                unsigned  c   = 0;
                for (; c < n.min; ++c)
                {
                    positions nx = ends(*n.kids[0], cur);
                    if (nx == cur) { break; }
                    cur = nx;
                    if (cur.none()) return cur;
                }
                out = cur;
                for (c = n.min; c < n.max; ++c)
                {
                    positions nx = ends(*n.kids[0], cur);
                    if ((nx | out) == out) break;
                    out |= nx;
                    cur = nx;
                }
                break;
            }
        }
        return out;
    }

    bool accepts(const node& n, int b, int e) const
    {
        positions f;
        f.set(b);
        return ends(n, f)[e];
    }
};

inline const node* find_group(const node& n, int index)
{
    if (n.k == kind::GROUP && n.index == index) return &n;
    for (auto& c : n.kids)
        if (auto* f = find_group(*c, index)) return f;
    return nullptr;
}

// Bytes that can start a non empty match; second: can the match be empty
inline std::pair<bytes, bool> first(const node& n)
{
    switch (n.k)
    {
        case kind::STR: return {chars_set(n.str.substr(0, 1)), n.str.empty()};
        case kind::SET: return {n.set, false};
        case kind::BOL: return {{}, true};
        case kind::EOL: return {chars_set("\n"), true};
        case kind::SEQ:
        {
            bytes b;
            for (auto& c : n.kids)
            {
                auto [f, e] = first(*c);
                b |= f;
                if (!e) return {b, false};
            }
            return {b, true};
        }
        case kind::ALT:
        {
            bytes b;
            bool  any = false;
            for (auto& c : n.kids)
            {
                auto [f, e] = first(*c);
                b |= f;
                any |= e;
            }
            return {b, any};
        }
        case kind::GROUP: return first(*n.kids[0]);
        case kind::REP:
        {
            if (n.max == 0) return {{}, true};
            auto [f, e] = first(*n.kids[0]);
            return {f, e || n.min == 0};
        }
    }
    return {};
}
} // namespace ref
