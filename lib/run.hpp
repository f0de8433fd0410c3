// What the runners of tokenizers, operations and independence share
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace run
{
using sv = std::string_view;
inline long states = 0, transitions = 0, traces = 0;
inline int  violations = 0, cur = -1;
inline char cur_word[1 << 18];
inline size_t cur_len = 0;
inline bool running = false;
inline std::unordered_set<std::string> outcomes;
inline std::string                     sample;

inline std::string hex(sv w)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    for (unsigned char c : w) { s += d[c >> 4]; s += d[c & 15]; }
    return s.empty() ? "-" : s;
}
inline std::string unhex(const char* h)
{
    std::string w, text;
    if (h[0] == '@')
    {
        FILE* f = fopen(h + 1, "r");
        if (!f) exit(9);
        for (int c; (c = fgetc(f)) > ' ';) text += (char) c;
        fclose(f);
        h = text.c_str();
    }
    if (strcmp(h, "-") != 0)
        for (; h[0] && h[1]; h += 2) w += (char) std::stoi(std::string(h, 2), nullptr, 16);
    return w;
}
inline std::string clean(sv s)
{
    std::string o;
    for (unsigned char c : s)
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char) c;
    return o;
}
inline void on_signal(int sig)
{
    std::string s = "V\t" + std::to_string(cur) + "\t" + hex({cur_word, cur_len}) + "\t" + (running ? "" : "(outside /repo) ")
                    + (sig == SIGVTALRM ? "does not end" : sig == SIGSEGV || sig == SIGBUS ? "reads outside the query (memory fault)" : "abnormal end") + "\nE\n";
    [[maybe_unused]] auto r = write(1, s.data(), s.size());
    _exit(running ? 0 : 9);
}
inline void init()
{
    static char stack[1 << 16];
    stack_t     ss {};
    ss.ss_sp   = stack;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
}
inline void arm(int s)
{
    itimerval t {};
    t.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
inline void begin(int k, sv w)
{
    cur     = k;
    cur_len = w.size();
    memcpy(cur_word, w.data(), w.size());
    running = true;
    arm(20);
}
inline void end()
{
    arm(0);
    running = false;
}
inline void report(int k, sv w, const std::string& what)
{
    printf("V\t%d\t%s\t%s\n", k, hex(w).c_str(), what.c_str());
    fflush(stdout);
    ++violations;
}
inline void outcome(const std::string& s, sv w)
{
    if (outcomes.size() < 20000 && outcomes.insert(s).second && w.size() > 2) sample = "'" + clean(w) + "': " + s;
}
inline void finish()
{
    printf("S\t%ld\t%ld\t%ld\t%zu\t%s\nE\n", states, transitions, traces, outcomes.size(), sample.c_str());
}
struct arena
{
    static constexpr size_t PAGE = 1 << 18;
    char*                   page;
    arena()
    {
        char* p = (char*) mmap(nullptr, 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p + PAGE, PAGE, PROT_READ | PROT_WRITE);
        page = p + PAGE;
        memset(page, '#', PAGE);
    }
    sv back(sv w)
    {
        char* b = page + PAGE - w.size();
        memcpy(b, w.data(), w.size());
        return {b, w.size()};
    }
};
inline arena area;

template<typename Fam, typename F> void each_word(const Fam& f, F fn)
{
    if (f.words)
    {
        for (unsigned i = 0; i < f.count; ++i)
            if (!fn(f.words[i])) return;
        return;
    }
    std::string w;
    for (unsigned n = 0; n <= f.max; ++n)
    {
        std::vector<unsigned> d(n, 0);
        w.assign(n, f.letters ? f.alphabet[0] : 'a');
        while (true)
        {
            if (!fn(sv {w})) return;
            int i = (int) n - 1;
            while (i >= 0 && d[i] == f.letters - 1) { d[i] = 0; w[i] = f.alphabet[0]; --i; }
            if (i < 0) break;
            w[i] = f.alphabet[++d[i]];
        }
    }
}
} // namespace run
