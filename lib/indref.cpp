// Per pattern (hex, one per line): the bytes that can begin a non-empty text
// it describes, found by trying texts (D) and by analysis (F), and flags
#include "ref.hpp"
#include <iostream>

static bool has(const ref::node& n, auto f)
{
    if (f(n)) return true;
    for (auto& k : n.kids)
        if (has(*k, f)) return true;
    return false;
}
static std::string hex(const ref::bytes& b)
{
    std::string s;
    for (int i = 0; i < 256; ++i) s += b[i] ? '1' : '0';
    return s;
}
int main()
{
    std::string alphabet = "ab1z \n", line;
    std::vector<std::string> tails {""};
    for (size_t i = 0, from = 0; i < 3; ++i)
    {
        size_t to = tails.size();
        for (size_t k = from; k < to; ++k) for (char c : alphabet) tails.push_back(tails[k] + c);
        from = to;
    }
    for (auto t : {"bcd", "bcde", "xyz", "aaaa", "aaaaaa", "0-1-2", "\xff\xff", "\xff", "\x80", "c", "cc", "y"}) tails.push_back(t);
    while (std::getline(std::cin, line))
    {
        std::string p;
        for (size_t i = 0; i + 1 < line.size(); i += 2) p += (char) std::stoi(line.substr(i, 2), nullptr, 16);
        ref::pattern pat {p};
        bool poss = has(*pat.root, [](const ref::node& n) { return n.k == ref::kind::REP && n.m == ref::mode::POSSESSIVE; });
        bool anch = has(*pat.root, [](const ref::node& n) { return n.k == ref::kind::BOL || n.k == ref::kind::EOL; });
        bool str  = has(*pat.root, [](const ref::node& n) { return n.k == ref::kind::STR && n.str.size() > 1; });
        ref::bytes d;
        for (int c = 0; c < 256; ++c)
            for (auto& t : tails)
            {
                std::string w = std::string(1, (char) c) + t;
                if (poss)
                {
                    auto m = ref::match_at(pat, w, 0, ref::reading::REP);
                    if (m.found && m.all.e > 0) { d.set(c); break; }
                    continue;
                }
                ref::language            l {w};
                ref::language::positions from;
                from.set(0);
                auto e = l.ends(*pat.root, from);
                e.reset(0);
                if (e.any()) { d.set(c); break; }
            }
        std::cout << hex(d) << " " << hex(ref::first(*pat.root).first) << " " << (poss ? 'p' : '-') << (anch ? 'a' : '-') << (str ? 's' : '-') << "\n";
    }
}
