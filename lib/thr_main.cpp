// Explores the interleavings of threads that use the same regexes, tokenizers,
// results and iterators. The generated unit is compiled with -fsanitize=thread,
// and what that calls at every access to memory is here: a scheduler, that
// lets exactly one thread go on and switches between accesses as told. Every
// schedule runs in a process of its own, so that each one starts afresh.
//   thr_main BOUND THREADS SECONDS   everything
//   thr_main BOUND THREADS SECONDS HEX   one combination again
#include "ops.hpp"
#include "run.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <sys/wait.h>

using sv = std::string_view;
constexpr int THREADS = 3, ACCESSES = 1 << 15;

// -------------------------------------------------------------- scheduler

struct access_t
{
    unsigned long at;
    unsigned char size, thread, write, others; // others: those that could go on instead
};
struct output
{
    int  n;
    long v[8000];
    void add(long x) { if (n < 8000) v[n++] = x; }
    void add(const View& x, bool always)
    {
        add(x.n);
        add(x.n || always ? (long) x.p : 0);
    }
    void add(const Rec& r)
    {
        add(r.acc);
        add(r.all, r.acc);
        for (auto& c : r.caps) add(c, false);
    }
    bool operator==(const output& o) const { return n == o.n && std::equal(v, v + n, o.v); }
};
struct shared_t
{
    int      accesses, steps;
    bool     overflow, stuck;
    access_t log[ACCESSES];     // every access outside the own stack
    int      visible[ACCESSES]; // step -> access
    output   out[THREADS];
};
static shared_t* S;

struct switch_t
{
    int step, to;
};
struct plan_t
{
    std::vector<int>      order;    // who goes first, who is next when one has ended
    std::vector<switch_t> switches; // before these steps
};
static plan_t                      plan;
static bool                        everything = false;
static std::set<unsigned long>     conflicts; // 8 byte granules where order matters
static std::atomic<int>            turn {-1};
static std::atomic<bool>           ended[THREADS];
static int                         threads = 0;
static size_t                      next_switch = 0;
static thread_local int            me = -1;
static thread_local unsigned long  stack_lo, stack_hi;
static thread_local int            run_length = 0;

static void wait_turn(int id)
{
    for (int t; (t = turn.load()) != id;) turn.wait(t);
}
static void give(int to)
{
    int self = me;
    run_length = 0;
    turn.store(to);
    turn.notify_all();
    wait_turn(self);
}
static int another()
{
    for (int t : plan.order)
        if (t != me && !ended[t]) return t;
    return -1;
}
static bool visible(unsigned long a, unsigned size)
{
    if (everything) return true;
    if (conflicts.empty()) return false;
    auto i = conflicts.lower_bound(a >> 3);
    return i != conflicts.end() && *i <= (a + size - 1) >> 3;
}
static void point(const void* p, unsigned long size, bool write)
{
    if (me < 0 || size == 0) return;
    auto a = (unsigned long) p;
    if (a >= stack_lo && a < stack_hi) return;
    const int self = me;
    me             = -1; // nothing of this is an access
    if (S->accesses >= ACCESSES)
    {
        S->overflow = true;
        me          = self;
        return;
    }
    if (visible(a, size))
    {
        int step = S->steps++;
        me       = self;
        if (next_switch < plan.switches.size() && plan.switches[next_switch].step == step)
        {
            int to = plan.switches[next_switch++].to;
            if (!ended[to]) give(to);
        }
        else if (++run_length > 3000)
        {
            // Waits for something another thread has to do
            int to = another();
            if (to >= 0) give(to);
        }
        me = -1;
        unsigned char others = 0;
        for (int t = 0; t < threads; ++t)
            if (t != self && !ended[t]) others |= 1 << t;
        // the switch came before the access, so what could have been done instead is the same
        S->visible[step]      = S->accesses;
        S->log[S->accesses]   = {a, (unsigned char) std::min(size, 255ul), (unsigned char) self, write, others};
        ++S->accesses;
    }
    else
    {
        S->log[S->accesses++] = {a, (unsigned char) std::min(size, 255ul), (unsigned char) self, write, 0};
    }
    me = self;
}
static void blocked()
{
    int to = me < 0 ? -1 : another();
    if (to < 0)
    {
        S->stuck = true;
        _exit(0);
    }
    give(to);
}

// What instrumented code calls
#define P(n) \
    void __tsan_read##n(void* p) { point(p, n, false); } \
    void __tsan_write##n(void* p) { point(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { point(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { point(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { point(p, n, false); } \
    void __tsan_volatile_write##n(void* p) { point(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { point(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { point(p, n, true); } \
    void __tsan_read##n##_pc(void* p, void*) { point(p, n, false); } \
    void __tsan_write##n##_pc(void* p, void*) { point(p, n, true); }
#define A(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int) { point((const void*) p, sizeof *p, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { point((const void*) p, sizeof *p, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { point((const void*) p, sizeof *p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { point((const void*) p, sizeof *p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { point((const void*) p, sizeof *p, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
extern "C" {
P(1) P(2) P(4) P(8) P(16)
A(8, unsigned char) A(16, unsigned short) A(32, unsigned) A(64, unsigned long)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long n) { point(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { point(p, n, true); }
void __tsan_read_range_pc(void* p, unsigned long n, void*) { point(p, n, false); }
void __tsan_write_range_pc(void* p, unsigned long n, void*) { point(p, n, true); }
void __tsan_vptr_update(void** p, void*) { point(p, 8, true); }
void __tsan_vptr_read(void** p) { point(p, 8, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, unsigned long);
void* __real_memmove(void*, const void*, unsigned long);
void* __real_memset(void*, int, unsigned long);
int   __real_memcmp(const void*, const void*, unsigned long);
void* __real_memchr(const void*, int, unsigned long);
void* __wrap_memcpy(void* d, const void* s, unsigned long n) { point(s, n, false); point(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, unsigned long n) { point(s, n, false); point(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, unsigned long n) { point(d, n, true); return __real_memset(d, c, n); }
int   __wrap_memcmp(const void* a, const void* b, unsigned long n) { point(a, n, false); point(b, n, false); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, unsigned long n) { point(a, n, false); return __real_memchr(a, c, n); }

// Locks, and variables that are initialised once: whoever has to wait lets others go on
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (me < 0) return __real_pthread_mutex_lock(m);
    point(m, 4, true);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked();
    return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    point(m, 4, true);
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked();
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    point(m, 4, true);
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked();
    return r;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    point(o, 4, true);
    while (*o == 1) blocked();
    if (*o == 2) return 0;
    *o = 1;
    f();
    *o = 2;
    return 0;
}
int __wrap___cxa_guard_acquire(unsigned char* g)
{
    point(g, 1, true);
    while (true)
    {
        if (g[0]) return 0;
        if (!g[1]) { g[1] = 1; return 1; }
        blocked();
    }
}
void __wrap___cxa_guard_release(unsigned char* g)
{
    point(g, 1, true);
    g[1] = 0;
    g[0] = 1;
}
void __wrap___cxa_guard_abort(unsigned char* g) { g[1] = 0; }
}

// -------------------------------------------------------------- what threads do

enum what { MATCH, MATCH_OTHER, READ, COPY, WALK, ASSIGN, WHATS };
static const char* names[] = {"matches a query", "matches another query", "reads a result of all", "copies a result of all and steps the copy", "iterates over a result of all by range-for", "assigns a result of all, its begin() and its end()"};
struct job
{
    int entry, what;
    bool operator==(const job&) const = default;
};
static std::vector<std::array<std::string, 2>> queries;
static std::map<int, std::array<std::unique_ptr<unsigned char[]>, 3>> objects; // after 0, 1 and all steps

static void perform(job j, int state, output& o)
{
    const OpsEntry& e = ops_entries[j.entry];
    alignas(64) unsigned char m[4096];
    const void* s = objects[j.entry][state].get();
    auto steps = [&] {
        for (int i = 0; i < 40; ++i)
        {
            Rec r {};
            e.read(m, r);
            o.add(r);
            bool more = r.acc;
            Rec  t {};
            e.read_otherwise(m, t);
            o.add(t);
            if (!more) break;
            if (i % 2) e.inc(m); else o.add(e.next(m));
        }
    };
    switch (j.what)
    {
        case MATCH: case MATCH_OTHER:
            e.construct(m, queries[j.entry][j.what]);
            steps();
            e.destroy(m);
            break;
        case READ:
        {
            Rec r {}, t {};
            e.read(s, r);
            e.read_otherwise(s, t);
            o.add(r);
            o.add(t);
            o.add(e.before_end(s, s));
            if (e.equal) o.add(e.equal(s, s));
            break;
        }
        case COPY:
            e.copy(m, s);
            steps();
            e.destroy(m);
            break;
        case WALK:
        {
            View v[OBS_CAP];
            int  n = e.walk_const(s, v, OBS_CAP);
            o.add(n);
            for (int i = 0; i < n && i < OBS_CAP; ++i) o.add(v[i], true);
            break;
        }
        case ASSIGN:
            e.construct(m, queries[j.entry][1]);
            e.assign(m, s);
            steps();
            e.to_begin(m, s);
            steps();
            e.to_end(m, s);
            steps();
            e.destroy(m);
            break;
    }
}

// -------------------------------------------------------------- one schedule

static std::vector<job> jobs;
static int              state;
static long             schedules = 0, abandoned = 0, capped = 0, deadline = 0, all_accesses = 0;

static void* body(void* arg)
{
    int            id = (int) (long) arg;
    pthread_attr_t a;
    void*          lo;
    size_t         n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &lo, &n);
    pthread_attr_destroy(&a);
    stack_lo = (unsigned long) lo;
    stack_hi = stack_lo + n;
    static output out[THREADS];
    wait_turn(id);
    me = id;
    perform(jobs[id], state, out[id]);
    me = -1;
    std::copy(out[id].v, out[id].v + out[id].n, S->out[id].v);
    S->out[id].n = out[id].n;
    ended[id]  = true;
    for (int t : plan.order)
        if (!ended[t])
        {
            turn.store(t);
            turn.notify_all();
            break;
        }
    return nullptr;
}
// Results that all see; without need, nothing is used before the threads do
static void prepare(int k)
{
    const OpsEntry& e = ops_entries[k];
    auto&           o = objects[k][state];
    e.construct(o.get(), queries[k][0]);
    for (int i = 0; i < (state == 2 ? 40 : state); ++i) e.inc(o.get());
}
// Empty, or what went wrong other than the outputs
static std::string go(const std::vector<job>& js, const plan_t& p)
{
    S->accesses = S->steps = 0;
    S->overflow = S->stuck = false;
    for (auto& o : S->out) o.n = 0;
    ++schedules;
    fflush(stdout);
    pid_t c = fork();
    if (c == 0)
    {
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) signal(s, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        jobs    = js;
        plan    = p;
        threads = (int) js.size();
        std::set<int> needed;
        for (job j : js)
            if (j.what > MATCH_OTHER) needed.insert(j.entry);
        for (int k : needed) prepare(k);
        pthread_t      t[THREADS];
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, 16 << 20);
        for (long i = 0; i < threads; ++i)
            if (pthread_create(&t[i], &a, body, (void*) i)) _exit(9);
        turn.store(p.order[0]);
        turn.notify_all();
        for (int i = 0; i < threads; ++i) pthread_join(t[i], nullptr);
        _exit(0);
    }
    int status = 0;
    if (c < 0 || waitpid(c, &status, 0) != c) { fprintf(stderr, "no process\n"); exit(9); }
    all_accesses += S->accesses;
    run::transitions += S->accesses;
    run::states += S->accesses + 1;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !S->stuck) return {};
    if (WIFEXITED(status) && WEXITSTATUS(status) == 9) { fprintf(stderr, "no thread\n"); exit(9); }
    if (S->stuck || (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)) return "does not end";
    return "ends abnormally";
}

static std::string describe(const plan_t& p)
{
    std::string s = "thread " + std::to_string(p.order[0]) + " first";
    for (auto w : p.switches) s += ", then thread " + std::to_string(w.to) + " from step " + std::to_string(w.step);
    return s;
}
static std::string describe(const std::vector<job>& js)
{
    std::string s;
    for (size_t i = 0; i < js.size(); ++i)
        s += (i ? ", " : "") + std::string("thread ") + std::to_string(i) + " " + names[js[i].what] + (js[i].entry != js[0].entry ? " of the other one" : "");
    return s + " (after " + (state == 2 ? "all" : std::to_string(state)) + " steps)";
}

struct explorer
{
    std::vector<job>                                        js;
    std::vector<output>                                     alone;
    std::map<unsigned long, std::pair<unsigned, unsigned>>  touched; // granule -> threads that accessed, that wrote
    bool                                                    grew = false;
    std::string                                             bad;
    long                                                    left = 5000;
    bool                                                    over = false;
    int                                                     bound;

    void learn()
    {
        for (int i = 0; i < S->accesses; ++i)
        {
            auto& a = S->log[i];
            for (auto g = a.at >> 3; g <= (a.at + a.size - 1) >> 3; ++g)
            {
                auto& t = touched[g];
                t.first |= 1u << a.thread;
                if (a.write) t.second |= 1u << a.thread;
                // written by one, and accessed by another
                if (t.second && (t.first & (t.first - 1)) && conflicts.insert(g).second && !everything) grew = true;
            }
        }
    }
    bool check(const plan_t& p)
    {
        if (--left < 0 || time(nullptr) > deadline) { over = true; return false; }
        std::string why = go(js, p);
        if (S->overflow) { fprintf(stderr, "too many accesses\n"); exit(9); }
        if (why == "does not end")
        {
            ++abandoned; // waits for something that this schedule does not let happen
            return true;
        }
        ++run::traces;
        learn();
        for (size_t i = 0; i < js.size() && why.empty(); ++i)
            if (!(S->out[i] == alone[i])) why = "thread " + std::to_string(i) + " gets something else than alone";
        if (why.empty()) return true;
        bad = describe(js) + ": " + why + " with " + describe(p);
        return false;
    }
    bool deeper(const plan_t& p, int bound)
    {
        if (!check(p)) return false;
        if (bound == 0 || (grew && !everything)) return true;
        // what can be switched to, before which steps
        std::vector<std::pair<int, unsigned char>> where;
        for (int s = p.switches.empty() ? 0 : p.switches.back().step + 1; s < S->steps; ++s)
            if (S->log[S->visible[s]].others) where.push_back({s, S->log[S->visible[s]].others});
        for (auto [s, others] : where)
            for (int t = 0; t < (int) js.size(); ++t)
                if (others >> t & 1)
                {
                    plan_t q = p;
                    q.switches.push_back({s, t});
                    if (!deeper(q, bound - 1)) return false;
                    if (grew && !everything) return true;
                }
        return true;
    }
    bool orders()
    {
        std::vector<int> o;
        for (int i = 0; i < (int) js.size(); ++i) o.push_back(i);
        do
        {
            if (!deeper({o, {}}, bound)) return false;
        } while (std::next_permutation(o.begin(), o.end()));
        return true;
    }
    bool run(bool full)
    {
        everything = false;
        conflicts.clear();
        for (job j : js)
        {
            std::string why = go({j}, {{0}, {}});
            ++run::traces;
            if (!why.empty())
            {
                bad = describe({j}) + ": " + why + " alone";
                return false;
            }
            alone.push_back(S->out[0]);
        }
        const int most = bound;
        for (bound = 0; bound <= most; ++bound)
        {
            do grew = false;
            while (orders() && grew);
            if (!bad.empty() || conflicts.empty()) break;
        }
        if (!bad.empty() || !full) return bad.empty();
        everything = true;
        bound      = 1;
        left       = std::max(left, 3000l);
        bool ok    = orders();
        everything = false;
        return ok || bad.empty();
    }
};

static std::string encode(const std::vector<job>& js, bool full)
{
    std::string s {(char) state, (char) full};
    for (job j : js) { s += (char) j.entry; s += (char) j.what; }
    return s;
}
static bool explore(const std::vector<job>& js, int bound, bool full)
{
    explorer x;
    x.js    = js;
    x.bound = bound;
    bool ok = x.run(full);
    if (x.over) ++capped;
    if (!ok && !x.bad.empty())
    {
        run::report(js[0].entry * 1000 + js.back().entry, encode(js, full), x.bad);
        return false;
    }
    return true;
}

int main(int argc, char** argv)
{
    S = (shared_t*) mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED || argc < 4) return 9;
    const int  bound = atoi(argv[1]), T = atoi(argv[2]);
    const bool full = true;
    const long start = time(nullptr);
    deadline         = start + atoi(argv[3]);
    queries.resize(ops_count);
    for (int k = 0; k < ops_count; ++k)
    {
        const OpsEntry& e = ops_entries[k];
        if (e.size > 4096) { fprintf(stderr, "results are larger than expected\n"); return 9; }
        for (int q = 0; q < 2; ++q)
        {
            queries[k][q] = std::string(ops_queries[2 * k + q]);
            queries[k][q].reserve(64);
        }
        for (int s = 0; s < 3; ++s)
        {
            auto& o = objects[k][s];
            o.reset(new (std::align_val_t(64)) unsigned char[e.size + 64]);
        }
    }
    if (argc > 4)
    {
        std::string      h = run::unhex(argv[4]);
        std::vector<job> js;
        state = h[0];
        for (size_t i = 2; i + 1 < h.size(); i += 2) js.push_back({h[i], h[i + 1]});
        explore(js, bound, h[1]);
        run::finish();
        return 0;
    }
    for (int k = 0; k < ops_count && run::violations == 0; ++k)
    {
        const int other = (k + 1) % ops_count;
        deadline        = start + (long) atoi(argv[3]) * (k + 1) / ops_count;
        bool      ok    = true;
        for (state = 0; ok && state < 3; ++state)
            for (int a = 0; ok && a < WHATS; ++a)
                for (int b = a; ok && b < WHATS; ++b)
                {
                    if (state > 0 && a <= MATCH_OTHER && b <= MATCH_OTHER) continue;
                    ok = explore({{k, a}, {k, b}}, bound, full && state == 1 - (b <= MATCH_OTHER));
                    for (int c = b; ok && T > 2 && c < WHATS; ++c) ok = explore({{k, a}, {k, b}, {k, c}}, bound, false);
                }
        state = 0;
        for (int a = 0; ok && other != k && a < WHATS; ++a)
            for (int b = 0; ok && b < WHATS; ++b) ok = explore({{k, a}, {other, b}}, bound, false);
        run::outcome(std::to_string(k), "");
    }
    printf("R\t%ld\t%ld\t%ld\t%ld\n", schedules, all_accesses, abandoned, capped);
    run::finish();
    return 0;
}
