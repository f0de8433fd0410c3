// Explores operation sequences on three results (or iterators of tokenizers).
// Slots 0 and 1 hold results of one pattern, slot 2 of the same or another one.
//   ops_main DEPTH         everything: all sequences up to DEPTH, and all
//                          reachable combinations of (query, steps)
//   ops_main K OTHER HEX   replay the operations HEX
#include "ops.hpp"
#include "run.hpp"

#include <algorithm>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <set>

using sv = std::string_view;

enum what { CONSTRUCT, COPY, MOVE, ASSIGN, MOVE_ASSIGN, TO_BEGIN, TO_END, NEXT, INC, WALK, READ, REUSE };
static const char* names[] = {"construct", "copy", "move", "assign", "move-assign", "assign begin()", "assign end()", "next", "++", "range-for", "read", "other queries where one was, with the type of"};
struct op
{
    unsigned char w, i, j;
};

constexpr int SLOTS = 3;
static int    types[SLOTS]; // entry of each slot

// A query in memory of its own, for each entry
static std::vector<std::array<std::string, 2>> queries;

struct history
{
    std::vector<Rec> r;  // per number of steps; the last one is rejected
    std::vector<View> walk;
};
static std::vector<std::array<history, 2>> alone; // per entry and query

static bool same(const View& a, const View& b) { return a.n == b.n && (a.n == 0 || a.p == b.p); }
static bool same(const Rec& a, const Rec& b)
{
    if (a.acc != b.acc || !same(a.all, b.all) || (a.acc && a.all.p != b.all.p)) return false;
    for (int g = 0; g < OBS_GROUPS; ++g)
        if (!same(a.caps[g], b.caps[g])) return false;
    return true;
}

// Queries of the same length, each in memory of its own, and what matching them gives
struct variant
{
    std::string q;
    history     h;
};
static std::vector<std::array<std::vector<variant>, 2>> variants;

static void steps(const OpsEntry& e, sv q, std::vector<Rec>& out)
{
    alignas(64) unsigned char m[4096] {};
    e.construct(m, q);
    while (out.size() < 40)
    {
        Rec r {};
        e.read(m, r);
        out.push_back(r);
        if (!r.acc) break;
        e.next(m);
    }
    e.destroy(m);
}
static bool same_at(const View& a, sv p, const View& b, sv q) { return a.n == b.n && (a.n == 0 || a.p == b.p || a.p - p.data() == b.p - q.data()); }
static bool same_at(const Rec& a, sv p, const Rec& b, sv q)
{
    if (a.acc != b.acc || !same_at(a.all, p, b.all, q)) return false;
    for (int g = 0; g < OBS_GROUPS; ++g)
        if (!same_at(a.caps[g], p, b.caps[g], q)) return false;
    return true;
}

struct slot
{
    signed char q = -1, k = 0; // q == -1: moved from, k == -1: an end() that knows no query
    auto operator<=>(const slot&) const = default;
};
struct world
{
    alignas(64) unsigned char mem[SLOTS][4096] {};
    slot s[SLOTS];
    std::string bad;
    char scratch[64] {};

    const OpsEntry& e(int i) const { return ops_entries[types[i]]; }
    sv              query(int i, int q) const { return queries[types[i]][q]; }
    const history&  h(int i) const { return alone[types[i]][(int) s[i].q]; }

    world()
    {
        for (int i = 0; i < SLOTS; ++i) { e(i).construct(mem[i], query(i, 0)); s[i] = {0, 0}; }
    }
    ~world()
    {
        for (int i = 0; i < SLOTS; ++i) e(i).destroy(mem[i]);
    }
    bool last(int i) const { return s[i].k < 0 || s[i].k == (int) h(i).r.size() - 1; }
    const Rec& want(int i) const { return s[i].k < 0 ? h(i).r.back() : h(i).r[s[i].k]; }

    bool enabled(op o) const
    {
        switch (o.w)
        {
            case CONSTRUCT: return true;
            case TO_BEGIN: case TO_END: return types[o.i] == types[o.j] && s[o.i].q >= 0 && s[o.j].q >= 0;
            case COPY: case MOVE: case ASSIGN: case MOVE_ASSIGN:
                return types[o.i] == types[o.j] && s[o.j].q >= 0 && (o.i != o.j || o.w == ASSIGN);
            default: return s[o.i].q >= 0;
        }
    }
    void step(op o)
    {
        auto& d = mem[o.i];
        auto& f = mem[o.j];
        ++run::transitions;
        switch (o.w)
        {
            case CONSTRUCT: e(o.i).destroy(d); e(o.i).construct(d, query(o.i, o.j)); s[o.i] = {(signed char) o.j, 0}; break;
            case COPY: e(o.i).destroy(d); e(o.i).copy(d, f); s[o.i] = s[o.j]; break;
            case MOVE: e(o.i).destroy(d); e(o.i).move(d, f); s[o.i] = s[o.j]; s[o.j] = {}; break;
            case ASSIGN: e(o.i).assign(d, f); s[o.i] = s[o.j]; break;
            case MOVE_ASSIGN: e(o.i).move_assign(d, f); s[o.i] = s[o.j]; s[o.j] = {}; break;
            case TO_BEGIN: e(o.i).to_begin(d, f); s[o.i] = {s[o.j].q, (signed char) (s[o.j].k < 0 ? -1 : 0)}; break;
            case TO_END: e(o.i).to_end(d, f); s[o.i] = {s[o.j].q, (signed char) (e(o.i).resumes ? h(o.j).r.size() - 1 : -1)}; break;
            case NEXT:
            {
                bool was = last(o.i);
                if (!was) ++s[o.i].k;
                bool more = !was && h(o.i).r[s[o.i].k].acc;
                if (e(o.i).next(d) != more) bad = std::string("next() does not answer ") + (more ? "true" : "false");
                break;
            }
            case INC:
                if (!last(o.i)) ++s[o.i].k;
                e(o.i).inc(d);
                break;
            case WALK:
            {
                View v[OBS_CAP];
                for (int c = 0; c < 2; ++c)
                {
                    int n = c ? e(o.i).walk_const(d, v, OBS_CAP) : e(o.i).walk(d, v, OBS_CAP);
                    bool ok = n == (s[o.i].k < 0 ? 0 : (int) h(o.i).walk.size());
                    for (int x = 0; ok && x < n; ++x) ok = same(v[x], h(o.i).walk[x]);
                    if (!ok) bad = c ? "begin() to end() does not visit every match" : "range-for does not visit every match";
                }
                break;
            }
            case REUSE:
                for (const variant& v : variants[types[o.i]][o.j])
                {
                    std::copy(v.q.begin(), v.q.end(), scratch);
                    sv               q {scratch, v.q.size()};
                    std::vector<Rec> r;
                    steps(e(o.i), q, r);
                    bool ok = r.size() == v.h.r.size();
                    for (size_t k = 0; ok && k < r.size(); ++k) ok = same_at(r[k], q, v.h.r[k], v.q);
                    if (!ok) bad = "matching '" + run::clean(v.q) + "' where another query was before gives something else";
                }
                break;
            case READ:
                for (int j = 0; j < SLOTS; ++j)
                {
                    if (s[j].q < 0 || types[j] != types[o.i]) continue;
                    if (e(o.i).before_end(d, mem[j]) != want(o.i).acc) bad = "it != end() is not whether there is a match";
                    if (e(o.i).equal && s[j].q == s[o.i].q && e(o.i).equal(d, mem[j]) != (s[j].k == s[o.i].k || (last(j) && last(o.i))))
                        bad = "== is not whether both are at the same token";
                }
                break;
        }
        for (int i = 0; i < SLOTS && bad.empty(); ++i)
        {
            if (s[i].q < 0) continue;
            ++run::states;
            const Rec& want = this->want(i);
            for (int way = 0; way < 2; ++way)
            {
                Rec r {};
                if (way) e(i).read_otherwise(mem[i], r); else e(i).read(mem[i], r);
                if (!same(r, want))
                    bad = "result " + std::to_string(i) + " is " + text(r, i) + ", expected " + text(want, i) + " after " + std::to_string(s[i].k) + " steps";
            }
        }
    }
    // What every slot will do from here: a copy of it is stepped to its end,
    // and it is gone through from its beginning
    void probe()
    {
        for (int i = 0; i < SLOTS && bad.empty(); ++i)
        {
            if (s[i].q < 0) continue;
            alignas(64) unsigned char m[4096];
            e(i).copy(m, mem[i]);
            for (int k = s[i].k < 0 ? h(i).r.size() - 1 : s[i].k;; ++k)
            {
                Rec r {};
                e(i).read(m, r);
                ++run::states;
                if (!same(r, h(i).r[k]))
                {
                    bad = "a copy of " + std::to_string(i) + ", stepped, is " + text(r, i) + ", expected " + text(h(i).r[k], i) + " after " + std::to_string(k) + " steps";
                    break;
                }
                if (k + 1 == (int) h(i).r.size()) break;
                ++run::transitions;
                e(i).inc(m);
            }
            e(i).destroy(m);
            View v[OBS_CAP];
            int  n  = bad.empty() ? e(i).walk(mem[i], v, OBS_CAP) : 0;
            bool ok = n == (s[i].k < 0 ? 0 : (int) h(i).walk.size());
            for (int x = 0; ok && x < n; ++x) ok = same(v[x], h(i).walk[x]);
            if (bad.empty() && !ok) bad = "range-for over " + std::to_string(i) + " does not visit every match";
        }
    }
    std::string text(const Rec& r, int i) const
    {
        sv   q = query(i, s[i].q);
        auto t = [&](const View& v) { return v.n == 0 ? std::string("''") : v.p >= q.data() && v.p + v.n <= q.data() + q.size() ? "'" + std::string(v.p, v.n) + "'@" + std::to_string(v.p - q.data()) : std::string("(elsewhere)"); };
        std::string x = r.acc ? t(r.all) : "no match" + (r.all.n ? " " + t(r.all) : "");
        if (!r.acc && std::all_of(r.caps, r.caps + OBS_GROUPS, [](const View& v) { return v.n == 0; })) return x;
        for (int g = 0; g < e(i).groups && g < OBS_GROUPS; ++g) x += " " + std::to_string(g + 1) + "=" + t(r.caps[g]);
        return run::clean(x);
    }
};

static std::vector<op> all_ops()
{
    std::vector<op> o;
    for (unsigned char i = 0; i < SLOTS; ++i)
    {
        for (unsigned char w : {NEXT, INC, WALK, READ}) o.push_back({w, i, 0});
        for (unsigned char q : {0, 1}) o.push_back({CONSTRUCT, i, q});
        if (i != 1)
            for (unsigned char q : {0, 1}) o.push_back({REUSE, i, q});
        for (unsigned char j = 0; j < SLOTS; ++j)
            for (unsigned char w : {COPY, ASSIGN, MOVE, MOVE_ASSIGN, TO_BEGIN, TO_END}) o.push_back({w, i, j});
    }
    return o;
}
static std::string encode(const std::vector<op>& p)
{
    std::string s;
    for (op o : p) { s += (char) o.w; s += (char) o.i; s += (char) o.j; }
    return s;
}
static std::string describe(const std::vector<op>& p)
{
    std::string s;
    for (op o : p)
    {
        s += std::string(names[o.w]) + " " + std::to_string(o.i);
        if (o.w <= TO_END) s += (o.w == CONSTRUCT ? " query " : " from ") + std::to_string(o.j);
        if (o.w == REUSE) s += ", query " + std::to_string(o.j);
        s += "; ";
    }
    return s;
}

// Runs a sequence from the start; false when it broke something
static bool execute(const std::vector<op>& p, std::array<slot, SLOTS>& end, bool& possible)
{
    run::begin(types[0] * 1000 + types[2], encode(p));
    std::string bad;
    possible = true;
    {
        world w;
        for (op o : p)
        {
            if (!w.enabled(o)) { possible = false; break; }
            w.step(o);
            if (!w.bad.empty()) break;
        }
        if (possible && w.bad.empty()) w.probe();
        bad = w.bad;
        std::copy(w.s, w.s + SLOTS, end.begin());
    }
    run::end();
    if (!possible) return true;
    ++run::traces;
    if (bad.empty()) return true;
    run::report(types[0] * 1000 + types[2], encode(p), describe(p) + bad);
    return false;
}

static bool from_slot(op o) { return o.w >= COPY && o.w <= TO_END; }
static bool uses_zero(op o) { return from_slot(o) && o.j == 0; }

static bool deep(std::vector<op>& p, const std::vector<op>& ops, int left)
{
    if (left == 0) return true;
    for (op o : ops)
    {
        if (from_slot(o) && (types[o.i] != types[o.j] || (o.i == o.j && (o.w == COPY || o.w == MOVE || o.w == MOVE_ASSIGN)))) continue; // never enabled
        // Slots 0 and 1 start the same: in the longest sequences, 0 is the first of them to be used
        if (p.size() + left >= 4 && std::all_of(p.begin(), p.end(), [](op b) { return b.i == 2 && !uses_zero(b); }) && (o.i == 1 || (o.i == 2 && from_slot(o) && o.j == 1))) continue;
        p.push_back(o);
        std::array<slot, SLOTS> end;
        bool                    possible;
        // the last level covers its prefixes too
        bool ok = left > 1 ? true : execute(p, end, possible);
        if (ok && left > 1) ok = deep(p, ops, left - 1);
        p.pop_back();
        if (!ok) return false;
    }
    return true;
}

static long reachable = 0;
static bool wide(const std::vector<op>& ops)
{
    std::map<std::array<slot, SLOTS>, std::vector<op>> seen;
    std::deque<std::array<slot, SLOTS>>               todo;
    std::array<slot, SLOTS>                           start;
    bool                                              possible;
    if (!execute({}, start, possible)) return false;
    seen[start] = {};
    todo.push_back(start);
    while (!todo.empty())
    {
        auto at = todo.front();
        todo.pop_front();
        auto path = seen[at];
        for (op o : ops)
        {
            path.push_back(o);
            std::array<slot, SLOTS> end;
            if (!execute(path, end, possible)) return false;
            if (possible && seen.emplace(end, path).second) todo.push_back(end);
            path.pop_back();
        }
    }
    reachable += seen.size();
    return true;
}

int main(int argc, char** argv)
{
    run::init();
    queries.resize(ops_count);
    alone.resize(ops_count);
    variants.resize(ops_count);
    for (int k = 0; k < ops_count; ++k)
    {
        const OpsEntry& e = ops_entries[k];
        if (e.size > 4096 || ops_queries[2 * k].size() > 60 || ops_queries[2 * k + 1].size() > 60) { fprintf(stderr, "results or queries are larger than expected\n"); return 9; }
        for (int q = 0; q < 2; ++q)
        {
            queries[k][q] = std::string(ops_queries[2 * k + q]);
            queries[k][q].reserve(64);
        }
    }
    for (int k = 0; k < ops_count; ++k)
        for (int q = 0; q < 2; ++q)
        {
            const OpsEntry& e = ops_entries[k];
            run::begin(k * 1000 + k, "");
            auto& h = alone[k][q];
            steps(e, queries[k][q], h.r);
            for (const Rec& r : h.r)
                if (r.acc) h.walk.push_back(r.all);
            auto& vs = variants[k][q];
            std::string w = queries[k][q];
            auto add = [&](std::string x) { vs.push_back({x, {}}); };
            add(w);
            std::reverse(w.begin(), w.end());
            add(w);
            if (!w.empty())
            {
                std::rotate(w.begin(), w.begin() + 1, w.end());
                add(w);
                add(std::string(w.size(), w[0]));
                add(std::string(w.size(), '~'));
                add(queries[k][q]);
            }
            for (variant& v : vs) v.q.reserve(64);
            for (variant& v : vs) steps(e, v.q, v.h.r);
            run::end();
        }
    if (argc >= 4)
    {
        types[0] = types[1] = atoi(argv[1]);
        types[2]            = atoi(argv[2]);
        std::string     s   = run::unhex(argv[3]);
        std::vector<op> p;
        for (size_t i = 0; i + 2 < s.size(); i += 3) p.push_back({(unsigned char) s[i], (unsigned char) s[i + 1], (unsigned char) s[i + 2]});
        std::array<slot, SLOTS> end;
        bool                    possible;
        execute(p, end, possible);
        run::finish();
        return 0;
    }
    int  depth = atoi(argv[1]);
    auto ops   = all_ops();
    for (int k = 0; k < ops_count && run::violations == 0; ++k)
        for (int other : {k, (k + 1) % ops_count})
        {
            types[0] = types[1] = k;
            types[2]            = other;
            std::vector<op> p;
            bool            ok = true;
            for (int d = 1; ok && d <= depth; ++d) ok = deep(p, ops, d);
            if (ok) ok = wide(ops);
            if (!ok) break;
            run::outcome(std::to_string(k), "abc");
        }
    printf("R\t%ld\n", reachable);
    run::finish();
    return 0;
}
