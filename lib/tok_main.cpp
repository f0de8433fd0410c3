// Explores every (tokenizer, input) of the linked translation unit.
//   tok_main              everything
//   tok_main K HEXWORD    one history
#include "ref.hpp"
#include "run.hpp"
#include "tok.hpp"

using sv = std::string_view;

static std::vector<Tok> expected(const std::vector<ref::pattern>& p, const TokEntry& e, sv q)
{
    std::vector<Tok> out;
    size_t           pos = 0;
    auto             longest = [&](char kind, int& which) {
        int best = 0;
        for (int i = 0; i < e.count; ++i)
        {
            if (e.defs[i].kind != kind) continue;
            auto m = ref::match_at(p[i], q.substr(pos), 0, ref::reading::REP);
            if (m.found && m.all.e > best) { best = m.all.e; which = i; }
        }
        return best;
    };
    while (true)
    {
        int which = -1;
        int s     = longest('s', which);
        if (s == 0 && pos != 0) break;
        pos += s;
        int t = longest('t', which);
        if (t == 0) break;
        out.push_back({q.data() + pos, t, e.defs[which].type});
        pos += t;
    }
    return out;
}

static std::string show(const Tok* t, int n, sv q)
{
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        long b = t[i].p - q.data();
        s += std::string(1, (char) ('A' + t[i].type)) + "[" + std::to_string(b) + "," + std::to_string(b + t[i].n) + ") ";
    }
    return s.empty() ? "nothing" : s;
}

int main(int argc, char** argv)
{
    run::init();
    int         only = argc >= 3 ? atoi(argv[1]) : -1;
    std::string word = argc >= 3 ? run::unhex(argv[2]) : "";
    for (int k = 0; k < tok_count; ++k)
    {
        if (only >= 0 && k != only) continue;
        const TokEntry&           e = tok_entries[k];
        std::vector<ref::pattern> p;
        for (int i = 0; i < e.count; ++i) p.emplace_back(sv {e.defs[i].re, e.defs[i].len});
        int before = run::violations, index = 0;
        run::each_word(tok_families[e.fam], [&](sv w) {
            int ix = index++;
            if (only >= 0 && w != word) return true;
            sv   q    = run::area.back(w);
            auto want = expected(p, e, q);
            auto check = [&](void (*f)(sv, Toks&), const char* how) {
                static Toks o;
                o.n = 0;
                run::begin(k, w);
                f(q, o);
                run::end();
                run::states += (o.n > 0 ? o.n : 0) + 1;
                run::transitions += (o.n > 0 ? o.n : 0) + 2;
                ++run::traces;
                bool ok = o.n == (int) want.size();
                for (int i = 0; ok && i < o.n; ++i)
                    ok = o.t[i].p == want[i].p && o.t[i].n == want[i].n && o.t[i].type == want[i].type;
                if (ok) return;
                std::string what = o.n == -1 ? "a copy's steps disturb the original" : o.n == -2 ? "iterators at different tokens are equal, or at the same one are not" : o.n == TOK_CAP + 2 ? "goes on after its end"
                                   : o.n > TOK_CAP ? "does not end" : show(o.t, o.n, q);
                run::report(k, w, std::string(how) + ": " + what + ", expected " + show(want.data(), (int) want.size(), q));
            };
            check(e.by_hand, "by hand");
            if (run::violations == before) check(e.by_range, "by range-for");
            if (run::violations == before) check(e.by_copies, "through copies");
            if (run::violations == before && ix < e.ctwords)
            {
                ++run::traces;
                const short* c  = e.ct + ix * CT_TOKS;
                bool         ok = c[0] == (short) want.size();
                for (int i = 0; ok && i < c[0] && i < CT_SEEN; ++i)
                    ok = c[1 + 3 * i] == want[i].p - q.data() && c[2 + 3 * i] == want[i].n && c[3 + 3 * i] == want[i].type;
                if (!ok) run::report(k, w, "at compile time: " + std::to_string(c[0]) + " tokens, expected " + show(want.data(), (int) want.size(), q));
            }
            run::outcome(show(want.data(), (int) want.size(), q), w);
            return run::violations == before;
        });
        if (run::violations >= 6) break;
    }
    run::finish();
    return 0;
}
