// Operations on match results and tokenizers' iterators: what generated translation units and
// ops_main.cpp agree on.
#pragma once
#include <string_view>

#include "iface.hpp"

struct OpsEntry
{
    const char* pat;
    unsigned    len;
    int         groups;
    unsigned    size;
    void (*construct)(void*, std::string_view);
    void (*copy)(void*, const void*);
    void (*move)(void*, void*);
    void (*assign)(void*, const void*);
    void (*move_assign)(void*, void*);
    bool (*next)(void*);
    void (*inc)(void*);
    void (*destroy)(void*);
    void (*read)(const void*, Rec&);
    void (*read_otherwise)(const void*, Rec&);
    int (*walk)(void*, View*, int);      // range-for
    int (*walk_const)(const void*, View*, int); // begin(), ++, != end(), with copies on the way
    bool (*before_end)(const void*, const void*); // a != b.end()
    void (*to_begin)(void*, const void*);         // a = b.begin()
    void (*to_end)(void*, const void*);           // a = b.end()
    bool (*equal)(const void*, const void*);      // a == b, where there is such a thing
    bool resumes;                                 // whether begin() of end() is the first one again
};
struct OpsQueries
{
    const std::string_view* q;
    int                     count;
};
extern const OpsEntry         ops_entries[];
extern const int              ops_count;
extern const std::string_view ops_queries[]; // two per entry
