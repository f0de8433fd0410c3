// Tokenizers: what generated translation units and tok_main.cpp agree on.
#pragma once
#include <string_view>

constexpr int TOK_CAP = 1200;
constexpr int CT_SEEN = 12, CT_TOKS = 1 + 3 * CT_SEEN; // of the tokens at compile time

struct Tok
{
    const char* p;
    long        n;
    int         type;
};
template<int CAP> struct ToksOf
{
    int n = 0; // CAP + 1: too many, TOK_CAP + 2: went on after the end
    Tok t[CAP];
};
using Toks = ToksOf<TOK_CAP>;
struct Def
{
    char        kind; // 't' or 's'
    int         type;
    const char* re;
    unsigned    len;
};
struct TokEntry
{
    const Def* defs;
    int        count;
    int        fam;
    void (*by_hand)(std::string_view, Toks&);
    void (*by_range)(std::string_view, Toks&);
    void (*by_copies)(std::string_view, Toks&); // stepping copies, then the original; n = -1 if a copy disturbs it, -2 if == or != is wrong
    const short* ct; // compile time: per word, n then (offset, size, type) of up to 4
    int          ctwords;
};
struct TokFamily
{
    const char* alphabet;
    unsigned    letters, max;
    const std::string_view* words;
    unsigned                count;
};
extern const TokEntry  tok_entries[];
extern const int       tok_count;
extern const TokFamily tok_families[];
