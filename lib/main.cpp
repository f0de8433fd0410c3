// Runner: explores every (pattern, word) of the linked translation unit and
// compares what /repo does with the reference model.
//   main MODE            explore everything
//   main MODE K HEXWORD  replay one history, with details
#include "iface.hpp"
#include "ref.hpp"

#include <algorithm>
#include <csignal>
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

using sv = std::string_view;
using ref::match;
using ref::reading;

static const Entry* cur = nullptr;
static char         cur_word[1 << 18];
static size_t       cur_len  = 0;
static bool         running  = false;
static int          limit_s  = 10;

static std::string hex(sv w)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (unsigned char c : w) { s += d[c >> 4]; s += d[c & 15]; }
    return s.empty() ? "-" : s;
}

static void on_signal(int sig)
{
    static char buf[(1 << 19) + 1000];
    int  n = snprintf(buf, sizeof buf, "V\t%d\t", cur ? (int) (cur - entries) : -1);
    if (cur_len == 0) buf[n++] = '-';
    for (size_t i = 0; i < cur_len; ++i) n += snprintf(buf + n, 3, "%02x", (unsigned char) cur_word[i]);
    const char* why = sig == SIGVTALRM ? "does not end" : sig == SIGSEGV || sig == SIGBUS ? "reads outside the query (memory fault)" : "abnormal end";
    n += snprintf(buf + n, 200, "\t%s%s\nE\n", running ? "" : "(outside /repo) ", why);
    [[maybe_unused]] auto r = write(1, buf, n);
    _exit(running ? 0 : 9);
}


static void arm(bool on)
{
    itimerval t {};
    if (on) t.it_value.tv_sec = limit_s;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    running = on;
}

// Two pages, each between pages that can't be read
// What the bits of api and ctapi say
static std::string differ(unsigned bad)
{
    static const char* names[] = {"to_view(), [0], get_group(0), get<0>(), *result and the conversions to views", "bool conversion and is_accepted()",
                                  "size(), groups() and regex::groups", "[n] and get_group(n)", "get<n>() and get_group(n)",
                                  "decomposition, std::get and [n]", "regex::match and operator()", "stepping, range-for and begin()",
                                  "noexcept, as documented, and the interface", "a query given as an array and as a view"};
    std::string        s       = "these differ:";
    for (int i = 0; i < 10; ++i)
        if (bad >> i & 1) s += std::string(" ") + names[i] + ";";
    return s;
}

struct arena
{
    static constexpr size_t PAGE = 1 << 18; // four words fit
    char*                   page;
    arena()
    {
        char* p = (char*) mmap(nullptr, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p + PAGE, PAGE, PROT_READ | PROT_WRITE);
        page = p + PAGE;
        memset(page, '#', PAGE);
    }
    sv back(sv w)
    {
        char* b = page + PAGE - w.size();
        memcpy(b, w.data(), w.size());
        return {b, w.size()};
    }
    sv front(sv w)
    {
        memcpy(page, w.data(), w.size());
        return {page, w.size()};
    }
    sv middle(sv w, unsigned char filler)
    {
        memset(page, filler, 2 * w.size() + 64);
        memcpy(page + w.size() + 16, w.data(), w.size());
        return {page + w.size() + 16, w.size()};
    }
};

static arena area;

// ------------------------------------------------------------ bookkeeping

static long states = 0, transitions = 0, traces = 0, accepted = 0, rejected = 0;
static int  violations = 0, max_violations = 6;
static std::unordered_set<std::string> outcomes;
static std::string                     sample;

static void report(const Entry& e, sv w, const std::string& what)
{
    printf("V\t%d\t%s\t%s\n", (int) (&e - entries), hex(w).c_str(), what.c_str());
    fflush(stdout);
    ++violations;
}

static void observe(void (*f)(sv, Obs&), const Entry& e, sv q, Obs& o)
{
    cur     = &e;
    cur_len = q.size();
    memcpy(cur_word, q.data(), q.size());
    memset((void*) &o, 0, sizeof o);
    arm(true);
    f(q, o);
    arm(false);
    states += o.n + 1;
    transitions += o.n + 2;
    if (o.r[0].acc) ++accepted; else ++rejected;
}

// Offsets of a view in the query; empty views of no place are {-1,-1}
struct off
{
    long b, e;
    bool in;
    bool operator==(const off& o) const { return b == o.b && e == o.e; }
};
static off place(const View& v, sv q)
{
    if (v.n == 0 && v.p == nullptr) return {-1, -1, true};
    long b = v.p - q.data(), e = b + v.n;
    return {b, e, v.p != nullptr && b >= 0 && v.n >= 0 && e <= (long) q.size()};
}
static std::string show(const off& o, sv q)
{
    if (o.b == -1 && o.e == -1) return "none";
    std::string s = "[" + std::to_string(o.b) + "," + std::to_string(o.e) + ")";
    if (o.in) s += "'" + std::string(q.substr(o.b, o.e - o.b)) + "'";
    return s;
}
static std::string clean(std::string s)
{
    std::string o;
    for (unsigned char c : s)
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char) c;
    return o;
}
static std::string show(const Rec& r, int groups, sv q)
{
    if (!r.acc) return "no match";
    std::string s = show(place(r.all, q), q);
    for (int g = 0; g < groups; ++g) s += " " + std::to_string(g + 1) + "=" + show(place(r.caps[g], q), q);
    return clean(s);
}
static std::string show(const match& m, int groups, sv q)
{
    if (!m.found) return "no match";
    std::string s = show(off {m.all.b, m.all.e, true}, q);
    for (int g = 0; g < groups; ++g)
        s += " " + std::to_string(g + 1) + "=" + show(off {m.caps[g].b, m.caps[g].e, true}, q);
    return clean(s);
}
static void outcome(const Obs& o, const Entry& e, sv q)
{
    if (outcomes.size() > 20000) return;
    std::string s;
    for (int i = 0; i < o.n; ++i) s += show(o.r[i], e.groups, q) + ";";
    if (outcomes.insert(s).second && sample.empty() && o.n > 1)
        sample = clean(std::string(e.pat, e.len)) + " on '" + clean(std::string(q)) + "': " + s;
}

// ------------------------------------------------------------ comparisons

// Does a result agree with the model's match? Empty groups are compared by
// their (empty) text, not by where they are.
static bool same_span(const Rec& r, const match& m, sv q)
{
    if (r.acc != m.found) return false;
    if (!m.found) return true;
    off o = place(r.all, q);
    return o.in && o.b == m.all.b && o.e == m.all.e;
}
static bool same_caps(const Rec& r, const match& m, int groups, sv q)
{
    for (int g = 0; g < groups; ++g)
    {
        off  o = place(r.caps[g], q);
        long n = m.found && m.caps[g].b >= 0 ? m.caps[g].e - m.caps[g].b : 0;
        if (n == 0) { if (r.caps[g].n != 0) return false; }
        else if (!o.in || o.b != m.caps[g].b || o.e != m.caps[g].e) return false;
    }
    return true;
}
static bool same_rec(const Rec& a, sv qa, const Rec& b, sv qb, int groups)
{
    auto same = [&](const View& x, const View& y) {
        if (x.n == 0 && y.n == 0) return true;
        return place(x, qa) == place(y, qb);
    };
    if (a.acc != b.acc) return false;
    if (a.acc && qa.data() != nullptr && qb.data() != nullptr && !(place(a.all, qa) == place(b.all, qb))) return false;
    if (!same(a.all, b.all)) return false;
    for (int g = 0; g < groups; ++g)
        if (!same(a.caps[g], b.caps[g])) return false;
    return true;
}
static bool empty_rec(const Rec& r, int groups)
{
    if (r.acc || r.all.n != 0) return false;
    for (int g = 0; g < groups; ++g)
        if (r.caps[g].n != 0) return false;
    return true;
}

enum what { FIRST = 1, CAPS = 2, NEXT = 4 };

static long outcomes_of_quantifiers[2]; // kept, turned possessive

struct modes
{
    const Entry&        e;
    const ref::pattern& p;
    sv                  w;

    // FIRST: first match; NEXT: all of them; CAPS: with their groups
    void against_model(reading r, int what)
    {
        sv  q = area.back(w);
        Obs o;
        observe(e.run, e, q, o);
        outcome(o, e, q);
        ++traces;
        if (e.groups != p.groups)
            return report(e, w, "groups is " + std::to_string(e.groups) + ", the pattern has " + std::to_string(p.groups));
        std::vector<match> expected;
        if (what & NEXT) expected = ref::find_all(p, q, r);
        else if (match m = ref::find(p, q, 0, r); m.found) expected.push_back(m);
        match none;
        int   n = what & NEXT ? (int) expected.size() : std::min<int>(1, (int) expected.size());
        for (int i = 0; i < std::max(n, 1); ++i)
        {
            const match& m = i < n ? expected[i] : none;
            if (i >= o.n && o.full) break; // further ones were not recorded
            if (i >= o.n)
                return report(e, w, "match " + std::to_string(i + 1) + " of " + std::to_string(n) + " is not found, expected " + show(m, p.groups, q));
            if (!same_span(o.r[i], m, q) || ((what & CAPS) && !same_caps(o.r[i], m, p.groups, q)))
                return report(e, w, "match " + std::to_string(i + 1) + " is " + show(o.r[i], p.groups, q) + ", expected " + show(m, p.groups, q));
        }
        if (what & NEXT)
        {
            if (o.n > std::max(n, 1) || (o.full && n <= OBS_CAP))
                return report(e, w, "more matches than the " + std::to_string(n) + " expected; match " + std::to_string(n + 1) + " is " + show(o.r[std::min(std::max(n, 1), OBS_CAP - 1)], p.groups, q));
            if (o.full) return;
            if (o.lied) return report(e, w, "next() and is_accepted() disagree");
            if (o.again || !empty_rec(o.after, p.groups) || !empty_rec(o.after_again, p.groups))
                return report(e, w, "a result without other matches is not rejected and empty for good");
        }
    }

    void range()
    {
        sv   q = area.back(w);
        View v[OBS_CAP];
        cur = &e; cur_len = w.size(); memcpy(cur_word, w.data(), w.size());
        arm(true);
        int n = e.range(q, v, OBS_CAP);
        arm(false);
        states += n + 1; transitions += n + 2; ++traces;
        auto expected = ref::find_all(p, q, reading::REP);
        bool ok       = n == (int) expected.size();
        for (int i = 0; ok && i < n; ++i)
        {
            off o = place(v[i], q);
            ok    = o.in && o.b == expected[i].all.b && o.e == expected[i].all.e;
        }
        if (!ok)
        {
            std::string s = "range-for visits";
            for (int i = 0; i < std::min(n, OBS_CAP); ++i) s += " " + clean(show(place(v[i], q), q));
            s += ", expected";
            for (auto& m : expected) s += " " + show(m, 0, q);
            report(e, w, s);
        }
    }

    // Every reported match and group is text its pattern describes, and
    // (complete) a query with such text is accepted
    void sound(bool complete)
    {
        sv  q = area.back(w);
        Obs o;
        observe(e.run, e, q, o);
        outcome(o, e, q);
        ++traces;
        ref::language l {q};
        for (int i = 0; i < o.n; ++i)
        {
            const Rec& r = o.r[i];
            if (!r.acc) break;
            off a = place(r.all, q);
            if (!a.in || a.b < 0 || !l.accepts(*p.root, (int) a.b, (int) a.e))
                return report(e, w, "match " + std::to_string(i + 1) + " is " + show(r, p.groups, q) + ", which the pattern does not describe");
            for (int g = 0; g < p.groups; ++g)
            {
                if (r.caps[g].n == 0) continue;
                off c = place(r.caps[g], q);
                if (!c.in || c.b < a.b || c.e > a.e || !l.accepts(*ref::find_group(*p.root, g)->kids[0], (int) c.b, (int) c.e))
                    return report(e, w, "group " + std::to_string(g + 1) + " of match " + std::to_string(i + 1) + " (" + show(r, p.groups, q) + ") is not text the group describes, inside the match");
            }
        }
        if (complete && !o.r[0].acc)
        {
            for (int b = 0; b <= (int) q.size(); ++b)
            {
                ref::language::positions f;
                f.set(b);
                auto ends = l.ends(*p.root, f);
                if (ends.any())
                    return report(e, w, "is rejected, but the pattern describes text at " + std::to_string(b));
            }
        }
    }

    void equivalent()
    {
        sv  q = area.back(w);
        Obs a, b;
        observe(e.run, e, q, a);
        outcome(a, e, q);
        observe(e.alt, e, q, b);
        ++traces;
        std::string name = e.altname ? " (described as " + clean(std::string(e.altname())) + ")" : " (tree as parsed)";
        if (a.n != b.n || a.full != b.full)
            return report(e, w, "regex finds " + std::to_string(a.n) + " results, first " + show(a.r[0], p.groups, q) + "; the other" + name + " " + std::to_string(b.n) + ", first " + show(b.r[0], p.groups, q));
        for (int i = 0; i < a.n; ++i)
            if (!same_rec(a.r[i], q, b.r[i], q, e.groups))
                return report(e, w, "match " + std::to_string(i + 1) + " is " + show(a.r[i], p.groups, q) + "; the other" + name + ": " + show(b.r[i], p.groups, q));
    }

    // The quantifiers of a pattern, from left to right; must: the ones that the documented heuristics turn possessive
    struct quantifier { const ref::node* n; bool must; };
    static void quantifiers(const ref::node& n, bool outside, std::vector<quantifier>& out)
    {
        if (n.k == ref::kind::REP && n.min != n.max) out.push_back({&n, false});
        for (size_t i = 0; i < n.kids.size(); ++i)
        {
            const ref::node& c  = *n.kids[i];
            size_t           at = out.size();
            quantifiers(c, outside && (n.k == ref::kind::SEQ || n.k == ref::kind::ALT), out);
            if (!outside || n.k == ref::kind::GROUP || n.k == ref::kind::REP || c.k != ref::kind::REP || c.min == c.max) continue;
            // A quantifier outside any brackets
            ref::bytes after;
            bool       empty = true;
            if (n.k == ref::kind::SEQ)
                for (size_t k = i + 1; k < n.kids.size() && empty; ++k)
                {
                    auto [f, e] = ref::first(*n.kids[k]);
                    after |= f;
                    empty = e;
                }
            auto [body, hollow] = ref::first(*c.kids[0]);
            bool disjoint       = (body & after).none();
            // Of something that can be empty, a possessive quantifier could take one more than a lazy one
            out[at].must = disjoint && (c.m == ref::mode::GREEDY || (c.m == ref::mode::LAZY && !empty && !hollow));
        }
    }
    static std::string quantifier_text(const ref::node& n)
    {
        return "{" + std::to_string(n.min) + "," + (n.max == ref::INF ? "" : std::to_string(n.max)) + "}" + (n.m == ref::mode::LAZY ? "?" : n.m == ref::mode::POSSESSIVE ? "+" : "");
    }
    void optimized()
    {
        ++states; ++transitions; ++traces;
        std::string  text {e.altname()};
        ref::pattern shown {text};
        std::vector<quantifier> a, b;
        bool whole = p.root->k != ref::kind::REP;
        if (whole) quantifiers(*p.root, true, a);
        else
        {
            quantifiers(*p.root, false, a);
            if (!a.empty() && a[0].n == p.root.get()) a[0].must = p.root->m == ref::mode::GREEDY;
        }
        quantifiers(*shown.root, false, b);
        if (a.size() != b.size())
            return report(e, w, "has " + std::to_string(a.size()) + " quantifiers, its expression " + clean(text) + " has " + std::to_string(b.size()));
        for (size_t i = 0; i < a.size(); ++i)
        {
            auto &x = *a[i].n, &y = *b[i].n;
            if (x.min != y.min || x.max != y.max || (x.m != y.m && y.m != ref::mode::POSSESSIVE) || (a[i].must && y.m != ref::mode::POSSESSIVE))
                return report(e, w, "its expression is " + clean(text) + ": quantifier " + std::to_string(i + 1) + ", " + quantifier_text(x) + ", has become " + quantifier_text(y)
                                        + (a[i].must ? "; nothing that follows it begins like what it repeats, so it is to be possessive" : ""));
            ++outcomes_of_quantifiers[y.m == x.m ? 0 : 1];
        }
    }

    void contained(sv fillers)
    {
        Obs  a, b;
        auto inside = [&](const Obs& o, sv q) {
            for (int i = 0; i < o.n; ++i)
            {
                if (!o.r[i].acc) continue;
                if (!place(o.r[i].all, q).in || (o.r[i].all.p == nullptr && q.data() != nullptr)) return false;
                for (int g = 0; g < e.groups; ++g)
                    if (!place(o.r[i].caps[g], q).in) return false;
            }
            return true;
        };
        auto check = [&](sv q, sv base, const char* where) {
            observe(e.run, e, q, b);
            ++traces;
            if (!inside(b, q)) { report(e, w, std::string("a view is outside the query, ") + where + ": " + show(b.r[0], p.groups, q)); return false; }
            bool ok = a.n == b.n;
            for (int i = 0; ok && i < a.n; ++i) ok = same_rec(a.r[i], base, b.r[i], q, e.groups);
            if (!ok) report(e, w, std::string("the result depends on what surrounds the query, ") + where + ": " + show(b.r[0], p.groups, q) + ", was " + show(a.r[0], p.groups, base));
            return ok;
        };
        sv base = area.back(w);
        observe(e.run, e, base, a);
        outcome(a, e, base);
        ++traces;
        if (!inside(a, base)) return report(e, w, "a view is outside the query: " + show(a.r[0], p.groups, base));
        static arena other;
        if (!check(other.front(w), base, "after an unreadable page")) return;
        for (unsigned char f : fillers)
            if (!check(other.middle(w, f), base, "between other characters")) return;
        if (w.empty()) check(sv {}, base, "of no data");
    }

    // Like against_model with everything, for any number of matches and groups
    void walked()
    {
        struct walker
        {
            const modes&              m;
            sv                        q;
            const std::vector<match>& expected;
            size_t                    i = 0;
            bool                      groups = true;
            std::string               bad;
            bool see(bool acc, View all, const View* caps)
            {
                bool there = i < expected.size();
                off  o     = all.n < 0 ? off {-2, -2, false} : place(all, q);
                auto wrong = [&](const std::string& s) {
                    bad = "match " + std::to_string(i + 1) + " of " + std::to_string(expected.size()) + s;
                    return false;
                };
                ++i;
                if (all.n < 0) return wrong(": next() and is_accepted() disagree");
                if (!there)
                {
                    if (acc || all.n) return wrong(": there is another one, [" + std::to_string(o.b) + "," + std::to_string(o.e) + ")");
                    for (int g = 0; caps && g < m.p.groups; ++g)
                        if (caps[g].n) return wrong(": group " + std::to_string(g + 1) + " is not empty without a match");
                    return true;
                }
                const match& w = expected[i - 1];
                if (!acc || !o.in || o.b != w.all.b || o.e != w.all.e)
                    return wrong(std::string(": is ") + (acc ? "[" + std::to_string(o.b) + "," + std::to_string(o.e) + ")" : "not found")
                                 + ", expected [" + std::to_string(w.all.b) + "," + std::to_string(w.all.e) + ")");
                for (int g = 0; caps && g < m.p.groups; ++g)
                {
                    off  c = place(caps[g], q);
                    long n = w.caps[g].b >= 0 ? w.caps[g].e - w.caps[g].b : 0;
                    if (n == 0 ? caps[g].n != 0 : !c.in || c.b != w.caps[g].b || c.e != w.caps[g].e)
                        return wrong(": group " + std::to_string(g + 1) + " is [" + std::to_string(c.b) + "," + std::to_string(c.e) + "), expected ["
                                     + std::to_string(w.caps[g].b) + "," + std::to_string(w.caps[g].e) + ")");
                }
                return true;
            }
        };
        if (e.groups != p.groups)
            return report(e, w, "groups is " + std::to_string(e.groups) + ", the pattern has " + std::to_string(p.groups));
        sv   q        = area.back(w);
        auto expected = ref::find_all(p, q, reading::REP);
        cur = &e; cur_len = w.size(); memcpy(cur_word, w.data(), w.size());
        for (int way = 0; way < 2; ++way)
        {
            walker k {*this, q, expected};
            auto   f = [](void* c, bool acc, View all, const View* caps) { return ((walker*) c)->see(acc, all, caps); };
            arm(true);
            (way ? e.range_walk : e.walk)(q, f, &k);
            arm(false);
            ++traces;
            states += k.i;
            transitions += k.i;
            if (k.bad.empty() && k.i != expected.size() + (way ? 1 : 2))
                k.bad = "visits " + std::to_string(k.i) + " results, expected " + std::to_string(expected.size());
            if (!k.bad.empty()) return report(e, w, std::string(way ? "range-for: " : "") + k.bad);
        }
        if (expected.empty()) ++rejected; else ++accepted;
        std::string s = std::to_string(expected.size());
        for (size_t i = 0; i < std::min<size_t>(expected.size(), 4); ++i) s += " " + std::to_string(expected[i].all.b) + "-" + std::to_string(expected[i].all.e);
        if (outcomes.size() < 20000 && outcomes.insert(s).second && sample.empty() && expected.size() > 1)
            sample = clean(std::string(e.pat, e.len).substr(0, 60)) + " on " + std::to_string(w.size()) + " characters: " + s;
    }

    void api()
    {
        sv q = area.back(w);
        cur = &e; cur_len = w.size(); memcpy(cur_word, w.data(), w.size());
        arm(true);
        unsigned bad = e.api(q);
        arm(false);
        ++states; ++transitions; ++traces;
        if (bad)
        {
            report(e, w, differ(bad));
        }
    }
};


static void compile_time(const Entry& e, sv w, int k)
{
    if (k >= e.ctwords) return;
    sv  q = area.back(w);
    Obs o;
    observe(e.run, e, q, o);
    outcome(o, e, q);
    ++traces;
    const int* c           = e.ct + k * CT_BYTES;
    int        r[CT_BYTES] = {};
    int        n           = o.r[0].acc ? std::min(o.n, CT_RESULTS) : 0;
    r[0]                   = o.r[0].acc;
    r[1]                   = n;
    for (int i = 0; i < n; ++i)
    {
        int* x = r + 2 + i * (2 + 2 * CT_GROUPS);
        *x++   = o.r[i].all.p == nullptr ? -1 : (int) (o.r[i].all.p - q.data());
        *x++   = (int) o.r[i].all.n;
        for (int g = 0; g < e.groups && g < CT_GROUPS; ++g)
        {
            *x++ = o.r[i].caps[g].n == 0 ? -1 : (int) (o.r[i].caps[g].p - q.data());
            *x++ = (int) o.r[i].caps[g].n;
        }
    }
    if (e.ctapi && e.ctapi[k]) return report(e, w, "at compile time, " + differ(e.ctapi[k]));
    if (memcmp(c, r, sizeof r) != 0)
    {
        std::string s = "at run time " + show(o.r[0], e.groups, q) + " and " + std::to_string(n) + " matches; at compile time accepted=" + std::to_string(c[0]) + ", " + std::to_string(c[1]) + " matches, first [" + std::to_string(c[2]) + ",+" + std::to_string(c[3]) + ")";
        report(e, w, s);
    }
}

// ------------------------------------------------------------------ words

template<typename F> static void each_word(const Family& f, F fn)
{
    int k = 0;
    if (f.words)
    {
        for (unsigned i = 0; i < f.count; ++i)
            if (!fn(f.words[i], k++)) return;
        return;
    }
    std::string w;
    for (unsigned n = 0; n <= f.max; ++n)
    {
        std::vector<unsigned> d(n, 0);
        w.assign(n, f.letters ? f.alphabet[0] : 'a');
        while (true)
        {
            if (!fn(sv {w}, k++)) return;
            int i = (int) n - 1;
            while (i >= 0 && d[i] == f.letters - 1) { d[i] = 0; w[i] = f.alphabet[0]; --i; }
            if (i < 0) break;
            w[i] = f.alphabet[++d[i]];
        }
    }
}

static void one(const std::string& mode, const Entry& e, const ref::pattern& p, sv w, int k)
{
    modes m {e, p, w};
    if (mode == "first") m.against_model(reading::FULL, FIRST);
    else if (mode == "first-rep") m.against_model(reading::REP, FIRST);
    else if (mode == "caps") m.against_model(reading::REP, FIRST | CAPS | NEXT);
    else if (mode == "first-caps") m.against_model(reading::REP, FIRST | CAPS);
    else if (mode == "caps-api") { m.against_model(reading::REP, FIRST | CAPS | NEXT); m.api(); }
    else if (mode == "walk") m.walked();
    else if (mode == "walk-api") { m.walked(); m.api(); }
    else if (mode == "iterate") { m.against_model(reading::REP, FIRST | NEXT); m.range(); }
    else if (mode == "sound") m.sound(false);
    else if (mode == "sound-complete") m.sound(true);
    else if (mode == "equivalent") m.equivalent();
    else if (mode == "optimized") m.optimized();
    else if (mode == "contained") m.contained(sv("ab\n\xff", 4));
    else if (mode == "compile-time") compile_time(e, w, k);
    else { fprintf(stderr, "unknown mode %s\n", mode.c_str()); exit(9); }
}

int main(int argc, char** argv)
{
    if (argc < 2) return 9;
    std::string mode = argv[1];
    static char stack[1 << 16];
    stack_t     ss {};
    ss.ss_sp   = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);

    int  only = -1;
    std::string word;
    if (argc >= 4)
    {
        limit_s = 60;
        only    = atoi(argv[2]);
        std::string h = argv[3];
        if (h[0] == '@')
        {
            FILE* f = fopen(h.c_str() + 1, "r");
            if (!f) return 9;
            h.clear();
            for (int c; (c = fgetc(f)) > ' ';) h += (char) c;
            fclose(f);
        }
        if (h != "-")
            for (size_t i = 0; i + 1 < h.size(); i += 2) word += (char) std::stoi(h.substr(i, 2), nullptr, 16);
    }
    for (int i = 0; i < entries_count; ++i)
    {
        if (only >= 0 && i != only) continue;
        const Entry& e = entries[i];
        ref::pattern p {sv {e.pat, e.len}};
        int          before = violations;
        each_word(families[e.fam], [&](sv w, int k) {
            if (only >= 0 && w != word) return true;
            one(mode, e, p, w, k);
            return violations == before; // the shortest word that fails is enough
        });
        if (violations >= max_violations) break;
    }
    if (mode == "optimized") { accepted = outcomes_of_quantifiers[1]; rejected = outcomes_of_quantifiers[0]; }
    printf("S\t%ld\t%ld\t%ld\t%ld\t%ld\t%zu\t%s\n", states, transitions, traces, accepted, rejected, outcomes.size(), sample.c_str());
    printf("E\n");
    return 0;
}
