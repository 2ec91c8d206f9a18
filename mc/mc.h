// Harness API of the stateless model checker (see DESIGN.md).
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace mc {

struct Opts {
    int quick{ 2 };            // deviation bound of the quick tier
    int thorough{ 3 };         // deviation bound of the thorough tier
    bool delay{ false };       // non-default choice at a blocking point costs 1 (delay bounding)
    bool spurious{ false };    // OS condition variables may wake spuriously (cost 1)
    bool weak{ false };        // relaxed/acquire loads may return stale values (cost 1)
    bool timedev{ false };     // the clock may jump to the next milestone at a clock read (cost 1)
    bool leak{ true };         // every allocation must be released at the end
    int max_steps{ 60000 };    // livelock horizon
    int quantum{ 3000 };       // forced fair switch after that many consecutive steps
    bool expect_deadlock{ false };
    bool thorough_only{ false };
    bool nocut{ false };
    bool nojump{ false };      // time passes only when nobody can run
};

struct Scenario {
    char const* prop; char const* name; char const* what; void (*body)(); Opts opts; Scenario* next;
    static Scenario* head;
    Scenario(char const* p, char const* n, char const* w, void (*b)(), Opts o)
        : prop(p), name(n), what(w), body(b), opts(o), next(head) { head = this; }
};

// data choice in [0,n): every value is explored; free of charge
int choose(int n);
// data choice whose non-zero values cost one deviation each
int deviate(int n);
// hint: OS level yield of a polling loop (model: others run first)
void yield();
// idle polling until the given steady-clock nanoseconds (INT64_MAX = for ever) or something changes
void idle(int64_t deadline_ns);
// the polling thread found work (its writes count as changes again)
void busy();
// report a violation
[[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf,1,2)));
inline void check(bool ok, char const* what) { if (!ok) fail("%s", what); }
#define MC_CHECK(c) do { if (!(c)) ::mc::fail("%s:%d: %s", __FILE_NAME__, __LINE__, #c); } while (0)
#define MC_CHECKF(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)
// part of the observable outcome (distinct outcomes are counted)
void outcome(char const* fmt, ...) __attribute__((format(printf,1,2)));
// trace line, shown on replay only
void log(char const* fmt, ...) __attribute__((format(printf,1,2)));
// virtual time
int64_t now_ns();
void advance_ns(int64_t d);           // the clock moves on (the calling thread was busy that long)
void milestone_ns(int64_t t);         // an interesting absolute instant for `timedev`
// model thread id
int tid();
// abandon this execution silently (infeasible choice)
[[noreturn]] void discard();
// operation log: begin/end events in execution order (part of the pruning state, so every order of
// the events that the explored schedules can produce is seen); for linearizability checks
struct Op { int tid; int kind; long arg; long res; long val; int inv; int resp; };
int op_begin(int kind, long arg = 0);
void op_end(int id, long res, long val = 0);
int op_count(); Op op_get(int i);
// All completed operations must be linearizable with respect to the sequential specification `step`:
// it applies operation `op` to the state (array of n longs) and returns false if the recorded result is impossible there.
bool linearizable(long const* init, int n, bool (*step)(long* state, Op const& op, void* ctx), void* ctx = nullptr);
// declared explored-operation history (runtime owned memory: not instrumented)
struct Ev { int tid; int fib; int op; int a; int b; };
void ev(int fib, int op, int a = 0, int b = 0);
int ev_count(); Ev ev_get(int i);
// runtime-owned scratch counters (invisible to race detection)
int64_t& reg(int i);   // i < 256
// number of live heap allocations of the execution
long live_allocs(); long live_bytes(); bool is_live(void const* p);
// allocation fault injection: the k-th (0-based) following allocation of this execution throws/returns null
void fail_alloc(int k); bool alloc_failed(); long alloc_count();
// whether the library code ran pthread_setaffinity_np; recorded calls
struct Affinity { uint64_t thread; int cpus, cpu; };   // number of CPUs in the set, lowest one (-1 none)
int affinity_count(); Affinity affinity_get(int i); void affinity_fail(int err);
void expect_terminate(bool on);       // std::terminate ends the execution as a success with outcome
bool thorough();
void seed(int k);                     // std::random_device yields values derived from k and the calling thread
void no_preempt(int d);               // +1/-1: suppress scheduling alternatives (harness internal bookkeeping)
}

#define MC_SCENARIO(prop, name, what, ...) \
    static void mc_body_##prop##_##name(); \
    static ::mc::Scenario mc_scn_##prop##_##name( #prop, #name, what, &mc_body_##prop##_##name, []{ ::mc::Opts o; __VA_ARGS__; return o; }() ); \
    static void mc_body_##prop##_##name()
#endif
