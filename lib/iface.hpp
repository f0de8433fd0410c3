// What a generated translation unit (which includes /repo) and the runner
// (which does not) agree on.
#pragma once
#include <cstddef>
#include <string_view>

constexpr int OBS_GROUPS = 12;
// At compile time, per word, CT_BYTES numbers: whether it is accepted, how many results are listed, and each as offsets
constexpr int CT_RESULTS = 9, CT_GROUPS = 6, CT_BYTES = 2 + CT_RESULTS * (2 + 2 * CT_GROUPS);
constexpr int OBS_CAP    = 48;

struct View
{
    const char* p = nullptr;
    long        n = 0;
};

struct Rec
{
    bool acc = false;
    View all;
    View caps[OBS_GROUPS];
};

// Everything a user sees of one history: construct, then next() until it
// answers false, then once more
struct Obs
{
    int  n    = 0;     // results seen, the first one and one per true next()
    bool full = false; // capped
    Rec  r[OBS_CAP];
    Rec  after;                    // the result once next() has answered false
    bool again      = false;       // a further next() answered true
    bool lied       = false;       // next() and is_accepted() disagreed
    Rec  after_again;
};

// One step of a history, or one value of a range-for; caps: all the groups.
// Answering false ends the walk
using Visit = bool (*)(void*, bool acc, View all, const View* caps);

struct Entry
{
    const char* pat;
    unsigned    len;
    int         fam;
    int         groups;
    void (*run)(std::string_view, Obs&);
    void (*alt)(std::string_view, Obs&); // another reading of the same pattern
    std::string_view (*altname)();
    unsigned (*api)(std::string_view);
    int (*range)(std::string_view, View* out, int cap);
    void (*walk)(std::string_view, Visit, void*);       // construct, next() until false, once more
    void (*range_walk)(std::string_view, Visit, void*); // range-for
    const unsigned* ctapi;     // what api answers at compile time, for the same words
    const int* ct;             // compile time observations, for the first ctwords words of fam
    int                ctwords;
};

struct Family
{
    const char*      alphabet; // all the words over alphabet, by length, up to max
    unsigned         letters;
    unsigned         max;
    const std::string_view* words; // or these words
    unsigned                count;
};

extern const Entry  entries[];
extern const int    entries_count;
extern const Family families[];
