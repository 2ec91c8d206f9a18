// Runtime of the stateless model checker: controlled scheduler, __tsan_* interface, pthread/clock/
// futex/malloc interposition, happens-before race detector, use-after-free detector, explorer.
// Compiled WITHOUT instrumentation. See DESIGN.md.
#include "mc.h"
#include <chrono>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64; typedef unsigned __int128 u128;

mc::Scenario* mc::Scenario::head = nullptr;

namespace {

constexpr int MAXT = 8;
constexpr u64 ARENA = 0x100000000000ull;
constexpr u64 T_SPAN = 64ull << 20;             // per model thread
constexpr u64 SMALL = 8ull << 20;               // small objects at the start of the span
constexpr u64 ARENA_SIZE = T_SPAN * MAXT;
constexpr int LOCS = 1 << 14;
constexpr int MAXDEV = 62;
constexpr int OWN = 1 << 15;
constexpr int NHIST = 4;
constexpr int MASKN = 1 << 20;
constexpr i64 FOREVER = INT64_MAX;

struct VC { u32 c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(VC const& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

struct Hist { u64 val; u32 idx; u32 clk; u8 tid; u8 sc; VC sync; u64 h; };
struct Loc {
    u64 addr; u32 gen; u32 ver; VC sync; u64 hW;
    int owner; int rec;                         // pthread mutex
    u32 nstore; int nh; Hist hist[NHIST]; u32 seen[MAXT]; // weak memory
};

enum St : u8 { RUN, B_MUTEX, B_COND, B_JOIN, B_FUTEX, B_SLEEP, B_GUARD, DONE, UNUSED };
char const* st_name[] = { "runnable", "mutex", "condition variable", "join", "futex", "sleep", "static guard", "done", "unused" };

struct TlsDtor { void (*fn)(void*); void* obj; };
struct Tx { u64 addr; u64 size; u64 regs[8]; };
struct Thread {
    int tx; Tx txl[4]; // hardware transactions (see rtm below)
    int id; St st; void* sp; void* (*fn)(void*); void* arg; void* ret;
    VC clk, acq, rel, vis; u64 h; u32 vsc;
    u64 waddr; i64 deadline; bool signalled, timedout, spur; u64 wmutex; u64 wseq; int wjoin;
    // spinning
    u64 sp_addr; u32 sp_ver; int sp_cnt; u64 rm_addr; u32 rm_ver; int rm_cnt;
    u64 spin_wait; u32 spin_wait_ver; bool yielded; bool idle; u32 idle_steps;
    void* tls[256]; TlsDtor td[64]; int ntd;
    u64 small, large; u64 eh[2]; bool joined, detached, polling;
};

struct Dev { u32 step; u32 alt; u32 h; u32 cost; };
struct Item { u32 n; u32 cost; Dev d[MAXDEV]; };

struct Ent { u32 clk; u32 pc; u8 tid, mask, type, pad; };
struct Cell { u32 gen; u32 n; Ent e[6]; };
struct Large { u64 addr; u64 size; };

enum Status { OK_END, CUT, DISCARD, VIOL, TERMINATED };

struct Shared {
    volatile int lock; volatile int active; volatile int stop; volatile int nglob; volatile int viol; volatile int capped; volatile int err;
    Item glob[4096];
    volatile u64 execs, full, cut, steps, states, points, discards, maxsteps, plain, replays_checked, known;
    volatile int grew; u8 mask[MASKN]; u8 next[MASKN];
    u64 outs[1 << 14]; volatile u64 nouts; char sample[64][512]; volatile int nsample;
    Item vitem; char vmsg[4096]; u32 vpc[2]; char errmsg[1024];
    u64 tbl_mask;
};

struct RT {
    bool active; int in_rt; bool replay_log; bool verbose;
    mc::Scenario* sc; int bound; int tier; bool single;
    void* main_sp; Thread t[MAXT]; int nt; Thread* cur; Status status;
    u64 S; u32 step; u32 lastdev_step; Item* item; u32 nextdev; u32 used; u64 npoints;
    u32 quantum; u32 qcount; i64 now; u64 clkh; u32 clkver; VC clkvc; u64 seq; u32 nopre; u32 stuck; u32 idle_advances;
    VC scf;
    i64 miles[32]; int nmiles;
    u32 gen; Loc* locs; Loc* loclist[LOCS]; int nlocs;
    u8* live; u8* pagest; u32* pagegen; Cell* cells; Cell* gcells; 
    long nlive, blive, nalloc, failat; bool failed; u64 plain;
    u64* memsz;          // not used for large
    char* snap; u64 snap_n; char* dlo; char* dhi;
    char msg[4096]; u32 pcs[2]; char out[512]; int nout;
    mc::Ev evs[512]; int nev; mc::Op ops[48]; int nops, opclk; u64 oph; i64 regs[256];
    mc::Affinity aff[32]; int naff; int afferr; bool expect_term;
    u64 own[OWN]; u32 owngen[OWN]; u32 nown;
    Shared* sh; u64* vkey; u8* vbud;
    sigjmp_buf jb; int wid; Item* local; u64 nlocal, clocal;
    int tlsn, tlsn0; u64 seed_rd; void* linmemo;
    double deadline_wall;
    int guard_owner;
    char* tr; u64 ntr, ctr;  // trace buffer on replay
};
RT* g;

inline double wall() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

void die(char const* fmt, ...) __attribute__((format(printf,1,2), noreturn));
void die(char const* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    char b[1000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(stderr, "MC-INTERNAL: %s\n", b);
    if (g && g->sh) { snprintf(g->sh->errmsg, sizeof g->sh->errmsg, "%s", b); g->sh->err = 1; g->sh->stop = 1; }
    _exit(3);
}

extern "C" void* __real_realloc(void*, size_t);
extern "C" void mc_switch(void** save, void* to);
extern "C" void mc_rtm_promote();
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

void trace(char const* fmt, ...) __attribute__((format(printf,1,2)));
void trace(char const* fmt, ...) {
    if (!g->replay_log) return;
    va_list ap; va_start(ap, fmt); char b[512]; int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (g->ntr + n > g->ctr) { g->ctr = (g->ctr + n) * 2 + 4096; g->tr = (char*)__real_realloc(g->tr, g->ctr); }
    memcpy(g->tr + g->ntr, b, n); g->ntr += n;
}

[[noreturn]] void finish(Status s) {
    g->status = s; void* d; g->active = false;
    mc_switch(&d, g->main_sp);
    __builtin_unreachable();
}
[[noreturn]] void violation(char const* fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void violation(char const* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(g->msg, sizeof g->msg, fmt, ap); va_end(ap);
    trace("t%d VIOLATION %s", g->cur ? g->cur->id : -1, g->msg);
    finish(VIOL);
}

inline u64 fin(Thread* t) { return mix(mix(0x1234567 + t->id, t->h), t->id * 77); }
inline void thop(Thread* t, u64 code, u64 x) { g->S -= fin(t); t->h = mix(mix(t->h, code), x); g->S += fin(t); }

Loc* loc(u64 addr) {
    u64 i = (addr * 0x9e3779b97f4a7c15ull) >> 50;
    for (int n = 0; n < LOCS; ++n, i = (i + 1) & (LOCS - 1)) {
        Loc* l = g->locs + i;
        if (l->gen != g->gen) {
            l->gen = g->gen; l->addr = addr; l->ver = 1; l->sync.clear(); l->hW = mix(addr, 5); l->owner = -1; l->rec = 0; l->nstore = 0; l->nh = 0;
            memset(l->seen, 0, sizeof l->seen);
            return l;
        }
        if (l->addr == addr) return l;
    }
    die("too many synchronisation locations");
}

// ---------------------------------------------------------------- memory
inline bool in_arena(u64 a) { return a - ARENA < ARENA_SIZE; }
inline bool in_glob(u64 a) { return a >= (u64)g->dlo && a < (u64)g->dhi; }

// objects of the program under test; anything else belongs to uninstrumented libraries, whose
// internal critical sections are atomic here because no switch can happen inside them
inline bool ours(u64 a) { return in_arena(a) || in_glob(a); }

inline int mem_state(u64 a) { // 0 never allocated, 1 live, 2 freed
    u64 o = a - ARENA; u64 in = o & (T_SPAN - 1);
    if (in < SMALL) { u64 p = o >> 12; if (g->pagegen[p] != g->gen) return 0; return g->live[o >> 3]; }
    u64 p = o >> 12; if (g->pagegen[p] != g->gen) return 0; return g->pagest[p];
}

void* arena_alloc(size_t n, size_t al = 16) {
    Thread* t = g->cur; if (n == 0) n = 1;
    if (n > T_SPAN) return nullptr;
    u64 base = ARENA + t->id * T_SPAN; u64 a;
    if (n <= 16384) {
        u64 o = (t->small + 16 + al - 1) & ~(u64)(al - 1); // 16 bytes: size header + red zone
        u64 end = o + ((n + 7) & ~7ull) + 16;
        if (end > SMALL) die("arena exhausted (small)");
        // page bookkeeping: first use of a page in this execution clears its granules
        for (u64 p = (base - ARENA + t->small) >> 12; p <= (base - ARENA + end) >> 12; ++p)
            if (g->pagegen[p] != g->gen) { g->pagegen[p] = g->gen; g->pagest[p] = 3; memset(g->live + (p << 9), 0, 512); }
        a = base + o; t->small = end;
        *(u64*)(a - 8) = n;
        memset(g->live + ((a - ARENA) >> 3), 1, (n + 7) >> 3);
        memset((void*)a, 0xCD, n);
    } else {
        u64 sz = (n + 4095) & ~4095ull; u64 o = t->large + 4096;
        if (o + sz + 4096 > T_SPAN) die("arena exhausted (large)");
        a = base + o; t->large = o + sz;
        for (u64 p = (a - ARENA) >> 12, e = (a - ARENA + sz) >> 12; p < e; ++p) { g->pagegen[p] = g->gen; g->pagest[p] = 1; }
        u64 pp = ((a - ARENA) >> 12) - 1; g->pagegen[pp] = g->gen; g->pagest[pp] = 0; 
        g->memsz[(a - ARENA) >> 12] = n;
    }
    return (void*)a;
}
size_t arena_size(u64 a) {
    u64 in = (a - ARENA) & (T_SPAN - 1);
    return in < SMALL ? *(u64*)(a - 8) : g->memsz[(a - ARENA) >> 12];
}
void acc(u64 addr, u32 size, bool w, bool atomic, u32 pc);
void arena_free(void* p, u32 pc) {
    u64 a = (u64)p; 
    int s = mem_state(a);
    if (s == 2) violation("double free of %p", p);
    if (s == 0) violation("free of invalid pointer %p", p);
    size_t n = arena_size(a);
    // releasing conflicts with every unordered access (checked on the first bytes; big blocks: both ends)
    if (g->active) {
        u64 lim = n < 512 ? n : 512;
        for (u64 i = 0; i < lim; i += 8) acc(a + i, (lim - i) < 8 ? (lim - i) : 8, true, false, pc);
        if (n > 512) for (u64 i = (n - 512) & ~7ull; i + 8 <= n; i += 8) acc(a + i, 8, true, false, pc);
    }
    u64 in = (a - ARENA) & (T_SPAN - 1);
    if (in < SMALL) { memset(g->live + ((a - ARENA) >> 3), 2, (n + 7) >> 3); memset(p, 0xDD, n); }
    else for (u64 q = (a - ARENA) >> 12, e = (a - ARENA + n + 4095) >> 12; q < e; ++q) g->pagest[q] = 2;
}

// race detector ----------------------------------------------------------------
[[noreturn]] void race(u64 addr, u32 size, bool w, bool at, u32 pc, Ent const& e) {
    g->pcs[0] = pc; g->pcs[1] = e.pc;
    violation("data race: %s%s of %u bytes by thread %d (pc 0x%x) is unordered with earlier %s%s by thread %d (pc 0x%x)",
        at ? "atomic " : "", w ? "write" : "read", size, g->cur->id, pc, e.type & 2 ? "atomic " : "", e.type & 1 ? "write" : "read", e.tid, e.pc);
}
inline void acc1(Cell* c, u64 addr, u32 size, u8 mask, bool w, bool at, u32 pc) {
    Thread* t = g->cur;
    if (c->gen != g->gen) { c->gen = g->gen; c->n = 0; }
    u8 ty = (w ? 1 : 0) | (at ? 2 : 0);
    u32 me = t->clk.c[t->id];
    u32 n = c->n;
    for (u32 i = 0; i < n; ++i) { // same epoch fast path
        Ent& e = c->e[i];
        if (e.tid == t->id && e.clk == me && (e.mask & mask) == mask && e.type == ty) return;
    }
    for (u32 i = 0; i < n; ) {
        Ent& e = c->e[i];
        if (e.mask & mask) {
            if (e.tid != t->id && ((e.type | ty) & 1) && !((e.type & ty) & 2) && e.clk > t->clk.c[e.tid]) race(addr, size, w, at, pc, e);
            bool cover = (e.mask & ~mask) == 0;
            bool drop = false;
            if (cover) {
                if (e.tid == t->id) drop = e.type == ty || (w && !at);       // same thread: newer, at least as strong
                else drop = w && !at && e.clk <= t->clk.c[e.tid];
            }
            if (drop) { e = c->e[--n]; c->n = n; continue; }
        }
        ++i;
    }
    if (n == 6) { memmove(c->e, c->e + 1, sizeof(Ent) * 5); n = 5; }
    c->e[n] = Ent{ me, pc, (u8)t->id, mask, ty, 0 }; c->n = n + 1;
}
inline void acc(u64 a, u32 size, bool w, bool at, u32 pc) {
    Cell* base;
    if (in_arena(a)) {
        int s = mem_state(a);
        if (s != 1) { g->pcs[0] = pc; g->pcs[1] = 0; violation("%s of %u bytes at %p, which %s (thread %d, pc 0x%x)", w ? "write" : "read", size, (void*)a, s == 2 ? "has been released" : "is not allocated", g->cur->id, pc); }
        base = g->cells + ((a - ARENA) >> 3);
    } else if (in_glob(a)) base = g->gcells + ((a - (u64)g->dlo) >> 3);
    else return;
    u32 off = a & 7;
    if (off + size <= 8) acc1(base, a, size, (u8)(((1u << size) - 1) << off), w, at, pc);
    else {
        u32 f = 8 - off; acc1(base, a, size, (u8)(0xffu << off), w, at, pc);
        u32 rest = size - f; ++base;
        while (rest >= 8) { acc1(base, a, size, 0xff, w, at, pc); rest -= 8; ++base; }
        if (rest) acc1(base, a, size, (u8)((1u << rest) - 1), w, at, pc);
    }
}

#define PC ((u32)(u64)__builtin_return_address(0))
inline void plain(u64 a, u32 size, bool w, u32 pc) {
    if (!g || !g->active) return;
    if (++g->plain > 40000000) violation("no progress: execution does not terminate (plain accesses)");
    acc(a, size, w, false, pc);
}

// ---------------------------------------------------------------- scheduling
struct Cand { u8 tid; u8 mode; u8 cost; }; // mode 0 run, 1 expire (jump the clock), 2 spurious
enum { K_SCHED = 1, K_BLOCK, K_CHOOSE, K_DEV, K_TIME, K_WEAK, K_SIG };

inline bool table_visit(u64 key, u32 rem) { // true: already explored with at least this budget
    RT* r = g; u64 m = r->sh->tbl_mask; if (key == 0) key = 1;
    u64 i = key & m;
    for (int n = 0; n < 64; ++n, i = (i + 1) & m) {
        u64 k = __atomic_load_n(&r->vkey[i], __ATOMIC_RELAXED);
        if (k == 0) {
            u64 z = 0;
            if (__atomic_compare_exchange_n(&r->vkey[i], &z, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_store_n(&r->vbud[i], rem + 1, __ATOMIC_RELAXED);
                __atomic_fetch_add(&r->sh->states, 1, __ATOMIC_RELAXED);
                return false;
            }
            k = z;
        }
        if (k == key) {
            u8 b = __atomic_load_n(&r->vbud[i], __ATOMIC_RELAXED);
            if (b >= rem + 1) return true;
            __atomic_store_n(&r->vbud[i], rem + 1, __ATOMIC_RELAXED);
            return false;
        }
    }
    r->sh->capped |= 2; // table full: only loses pruning
    return false;
}

void push_local(Item const& it) {
    if (g->nlocal == g->clocal) { g->clocal = g->clocal ? g->clocal * 2 : 1024; g->local = (Item*)__real_realloc(g->local, g->clocal * sizeof(Item)); }
    Item& d = g->local[g->nlocal++]; d.n = it.n; d.cost = it.cost; memcpy(d.d, it.d, it.n * sizeof(Dev));
}

// a choice among n alternatives; cost[i] of alternative i (cost[0]==0). Returns the alternative to take.
int decide(int n, u8 const* cost, int kind) {
    RT* r = g; ++r->npoints;
    u32 hh = (u32)mix(mix(mix(r->S, r->now), r->cur->id * 16 + kind), n);
    if (r->nextdev < r->item->n) {
        Dev& d = r->item->d[r->nextdev];
        // several decisions may share a step (no operation in between): the state hash tells them apart
        if (d.step == r->step && d.h == hh && (int)d.alt < n) { ++r->nextdev; return d.alt; }
        if (r->step > d.step) die("divergence: missed deviation at step %u (now %u, scenario %s)", d.step, r->step, r->sc->name);
        return 0;
    }
    if (r->bound < 0) return 0; // plain replay
    u32 rem = (u32)r->bound - r->item->cost;
    u64 key = mix(mix(mix(r->S, r->now), r->cur->id * 16 + kind), n);
    for (u64 i = key & (OWN - 1);; i = (i + 1) & (OWN - 1)) { // met before in this very execution: a cycle, or two points without an operation in between
        if (r->owngen[i] != r->gen) { if (r->nown < OWN / 2) { r->owngen[i] = r->gen; r->own[i] = key; ++r->nown; } break; }
        if (r->own[i] == key) return 0;
    }
    if (!r->sc->opts.nocut && table_visit(key, rem)) finish(CUT);
    __atomic_fetch_add(&r->sh->points, 1, __ATOMIC_RELAXED);
    for (int a = n - 1; a >= 1; --a) {
        if (cost[a] > rem) continue;
        if (r->item->n >= MAXDEV) { r->sh->capped |= 4; continue; }
        Item it; it.n = r->item->n + 1; it.cost = r->item->cost + cost[a];
        memcpy(it.d, r->item->d, r->item->n * sizeof(Dev));
        it.d[r->item->n] = Dev{ r->step, (u32)a, hh, cost[a] };
        push_local(it);
    }
    return 0;
}

inline bool spin_blocked(Thread* t) { return t->spin_wait && loc(t->spin_wait)->ver == t->spin_wait_ver; }

// 1 enabled, 2 enabled only by expiry of its deadline, 0 disabled
int enabled(Thread* t) {
    switch (t->st) {
    case RUN: return 1;
    case B_MUTEX: return loc(t->waddr)->owner < 0 ? 1 : 0;
    case B_COND: if (t->signalled || t->timedout || t->spur) return 1; break;
    case B_FUTEX: if (t->signalled) return 1; break;
    case B_JOIN: return g->t[t->wjoin].st == DONE;
    case B_GUARD: return *(volatile u8*)(t->waddr + 1) == 0;
    case B_SLEEP: break;
    default: return 0;
    }
    if (t->deadline != FOREVER) return g->now >= t->deadline ? 1 : 2;
    return 0;
}

void advance(i64 to) {
    if (to <= g->now) return;
    g->now = to; g->clkver++; g->clkh = mix(g->clkh, to);
}

void describe(char* b, size_t n) {
    size_t p = 0; b[0] = 0;
    for (int i = 0; i < g->nt; ++i) { Thread* t = &g->t[i]; if (t->st == DONE) continue;
        p += snprintf(b + p, n - p, " [t%d: %s%s%s]", i, st_name[t->st], t->spin_wait ? " spinning" : "", t->idle ? " idle" : ""); if (p >= n) break; }
}

// Switch away from the current thread (or not). `self_ok`: the current thread could continue.
void pick(bool preemptive, bool self_ok) {
    RT* r = g; Thread* c = r->cur;
    if (c->tx) { if (preemptive) return; mc_rtm_promote(); }
    Cand cd[MAXT * 2]; int n = 0; 
    for (;;) {
        n = 0;
        Cand late[MAXT * 2]; int nl = 0; int fallback = 0;
        for (int k = 0; k < r->nt; ++k) {
            // canonical order: current first, then ascending ids
            int id = k == 0 ? c->id : (k <= c->id ? k - 1 : k);
            Thread* t = &r->t[id];
            if (t == c && !self_ok && t->st == RUN) continue;
            int e = enabled(t);
            if (e == 1) {
                if (t->st == RUN && (t->yielded || spin_blocked(t))) { ++fallback; continue; }
                if (t->st == RUN && t->idle) { ++fallback; continue; }
                cd[n++] = Cand{ (u8)id, 0, 0 };
            } else if (e == 2 && !r->sc->opts.nojump) late[nl++] = Cand{ (u8)id, 1, 1 };
            if (t->st == B_COND && !e && r->sc->opts.spurious) late[nl++] = Cand{ (u8)id, 2, 1 };
            if (t->st == B_COND && e == 2 && r->sc->opts.spurious) late[nl++] = Cand{ (u8)id, 2, 1 };
        }
        if (n == 0) {
            // nobody can run normally: let time pass (earliest deadline), else wake pollers
            i64 dl = FOREVER;
            for (int i = 0; i < r->nt; ++i) { Thread* t = &r->t[i];
                if (enabled(t) == 2 && t->deadline < dl) dl = t->deadline;
                if (t->st == RUN && t->idle && t->deadline < dl) dl = t->deadline; }
            bool anyfb = false; bool onlyidle = true;
            for (int i = 0; i < r->nt; ++i) { Thread* t = &r->t[i]; if (t->st == RUN) { anyfb = true; if (!t->idle) onlyidle = false; } }
            // spinners/yielders first get one more round each (they may be in bounded loops)
            if (anyfb && !onlyidle && r->stuck < 60) {
                ++r->stuck; bool any = false;
                for (int i = 0; i < r->nt; ++i) { Thread* t = &r->t[i]; if (t->st == RUN && !t->idle) { if (t->yielded || t->spin_wait) any = true; t->yielded = false; t->spin_wait = 0; t->sp_cnt = t->rm_cnt = 0; } }
                if (any) { self_ok = self_ok || c->st == RUN; 
                    // fair: start with the next thread after the current one
                    for (int k = 1; k <= r->nt; ++k) { Thread* t = &r->t[(c->id + k) % r->nt]; if (t->st == RUN && !t->idle) { cd[0] = Cand{ (u8)t->id, 0, 0 }; n = 1; break; } }
                    break; }
            }
            if (dl != FOREVER) {
                r->stuck = 0;
                trace("   time advances to +%lld us", (long long)((dl - 1000000000000ll) / 1000));
                advance(dl);
                for (int i = 0; i < r->nt; ++i) { Thread* t = &r->t[i]; if (t->st == RUN && t->idle && t->deadline <= r->now) { t->idle = false; } t->yielded = false; t->spin_wait = 0; }
                self_ok = true;
                continue;
            }
            // milestones (polling loops that watch the clock)
            i64 ml = FOREVER; for (int i = 0; i < r->nmiles; ++i) if (r->miles[i] > r->now && r->miles[i] < ml) ml = r->miles[i];
            if (anyfb && ml != FOREVER) { advance(ml); r->stuck = 0; for (int i = 0; i < r->nt; ++i) { r->t[i].idle = false; r->t[i].yielded = false; r->t[i].spin_wait = 0; } self_ok = true; continue; }
            bool alldone = true; for (int i = 0; i < r->nt; ++i) if (r->t[i].st != DONE && r->t[i].st != UNUSED) alldone = false;
            if (alldone) return; // handled by the caller
            if (anyfb && r->idle_advances++ < 3) { // idle pollers: let each look once more before calling it a deadlock
                for (int i = 0; i < r->nt; ++i) { r->t[i].idle = false; r->t[i].yielded = false; r->t[i].spin_wait = 0; } self_ok = true; continue; }
            if (r->sc->opts.expect_deadlock) { finish(OK_END); }
            char b[1024]; describe(b, sizeof b);
            violation("deadlock: no thread can ever continue:%s", b);
        }
        for (int i = 0; i < nl; ++i) cd[n++] = late[i];
        break;
    }
    int take = 0;
    if (n > 1) {
        u8 cost[MAXT * 2];
        bool cur_first = cd[0].tid == c->id && cd[0].mode == 0 && preemptive && c->st == RUN;
        for (int i = 0; i < n; ++i) cost[i] = i == 0 ? 0 : (cd[i].mode ? 1 : (cur_first || r->sc->opts.delay) ? 1 : 0);
        if (r->nopre && cur_first) take = 0;
        else take = decide(n, cost, preemptive ? K_SCHED : K_BLOCK);
    }
    Thread* t = &r->t[cd[take].tid];
    if (cd[take].mode == 1) { trace("   time jumps to +%lld us", (long long)((t->deadline - 1000000000000ll) / 1000)); advance(t->deadline); }
    if (cd[take].mode == 2) { t->spur = true; trace("   spurious wake-up of t%d", t->id); }
    if (t != c) {
        r->quantum = 0;
        for (int i = 0; i < r->nt; ++i) r->t[i].yielded = false;
        trace("-- t%d -> t%d%s (step %u)", c->id, t->id, preemptive ? " (preempted)" : "", r->step);
        void** eg = (void**)abi::__cxa_get_globals();
        memcpy(c->eh, eg, 16); memcpy(eg, t->eh, 16);
        r->cur = t;
        mc_switch(&c->sp, t->sp);
    }
}

inline void tick() {
    RT* r = g; ++r->step;
    if (r->step > (u32)r->sc->opts.max_steps) { char b[1024]; describe(b, sizeof b); violation("livelock: no termination within %d steps:%s", r->sc->opts.max_steps, b); }
    ++r->quantum;
}

inline bool shared_addr(u64 addr) {
    u32 i = (u32)((addr >> 2) * 0x9e3779b1u) & (MASKN - 1);
    u8 me = (u8)(1u << g->cur->id);
    u8 nx = g->sh->next[i];
    if (!(nx & me)) {
        u8 old = __atomic_fetch_or(&g->sh->next[i], me, __ATOMIC_RELAXED);
        if (old && old != me && !(__builtin_popcount(g->sh->mask[i]) > 1)) g->sh->grew = 1;
    }
    return __builtin_popcount(g->sh->mask[i]) > 1;
}

// scheduling point before a synchronisation operation
inline void point(bool shared) {
    RT* r = g; tick();
    Thread* c = r->cur;
    if (r->quantum > (u32)r->sc->opts.quantum && !c->tx) {
        r->quantum = 0; c->yielded = true;
        bool other = false; for (int i = 0; i < r->nt; ++i) if (&r->t[i] != c && enabled(&r->t[i]) == 1) other = true;
        if (!other || ++r->qcount % 4 == 0) { // everybody runnable is busy: the clock must move
            i64 ml = FOREVER; for (int i = 0; i < r->nmiles; ++i) if (r->miles[i] > r->now && r->miles[i] < ml) ml = r->miles[i];
            for (int i = 0; i < r->nt; ++i) if (enabled(&r->t[i]) == 2 && r->t[i].deadline < ml) ml = r->t[i].deadline;
            advance(ml != FOREVER ? ml : r->now + 1000000);
        }
        if (!other) { c->yielded = false; return; }
        pick(false, true); c->yielded = false; return;
    }
    if (!shared && !(r->replay_log && r->nextdev < r->item->n && r->item->d[r->nextdev].step == r->step)) return;
    pick(true, true);
}

void block(St st) { // current thread blocks; returns when scheduled again with its condition true
    Thread* c = g->cur; c->st = st; c->sp_addr = c->rm_addr = 0; c->sp_cnt = c->rm_cnt = 0;
    g->stuck = 0;
    pick(false, false);
    c->st = RUN;
}

void yield_now() {
    Thread* c = g->cur; c->yielded = true; pick(false, true); c->yielded = false;
}
void spin_on(Loc* l) {
    Thread* c = g->cur; c->spin_wait = l->addr; c->spin_wait_ver = l->ver;
    c->sp_cnt = c->rm_cnt = 0;
    pick(false, true); c->spin_wait = 0;
}

// ---------------------------------------------------------------- atomics
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
inline bool isacq(int mo) { return mo == MO_CONS || mo == MO_ACQ || mo == MO_AR || mo == MO_SC; }
inline bool isrel(int mo) { return mo == MO_REL || mo == MO_AR || mo == MO_SC; }

inline void acq_from(Thread* t, VC const& s, int mo) { if (isacq(mo)) { t->clk.join(s); t->vis.join(s); } else t->acq.join(s); }
void wake_idle() { if (g->cur->polling) return; for (int i = 0; i < g->nt; ++i) if (g->t[i].idle && &g->t[i] != g->cur) { g->t[i].idle = false; } g->stuck = 0; g->idle_advances = 0; }

inline void sc_op(Thread* t) { t->vis.join(t->clk); t->vis.join(g->scf); g->scf.join(t->vis); }

inline void hist_push(Thread* t, Loc* l, u64 val, int mo) {
    if (!g->sc->opts.weak) return;
    if (l->nh == NHIST) { memmove(l->hist, l->hist + 1, sizeof(Hist) * (NHIST - 1)); l->nh--; }
    Hist& h = l->hist[l->nh++]; h.val = val; h.idx = ++l->nstore; h.clk = t->clk.c[t->id]; h.tid = (u8)t->id; h.sc = mo == MO_SC; h.sync = l->sync; h.h = l->hW;
    l->seen[t->id] = l->nstore;
}

template <class T> T a_load(T const volatile* p, int mo, u32 pc) {
    if (!g || !g->active || !ours((u64)p)) return *p;
    Loc* l; u64 a = (u64)p;
    point(shared_addr(a));
    Thread* t = g->cur; l = loc(a);
    // spin detection
    if (t->tx && !t->txl[t->tx - 1].addr) t->sp_addr = 0; // takes the elided lock
    if (t->sp_addr == a && t->sp_ver == l->ver) {
        if (++t->sp_cnt >= 3) { spin_on(l); t = g->cur; t->sp_addr = a; t->sp_cnt = 0; }
    } else { t->sp_addr = a; t->sp_cnt = 1; }
    t->sp_ver = l->ver;
    acc(a, sizeof(T), false, true, pc);
    T v = *p;
    if (t->tx && !t->txl[t->tx - 1].addr) { // the elided lock becomes part of the transaction's read set
        t->txl[t->tx - 1].addr = a; t->txl[t->tx - 1].size = sizeof(T); acq_from(t, l->sync, MO_ACQ); thop(t, 0x12, l->hW); l->hW = mix(t->h, 12); if (g->sc->opts.weak) l->seen[t->id] = l->nstore; return v;
    }
    if (g->sc->opts.weak) {
        if (mo == MO_SC) sc_op(t);
        if (l->nh > 1) {
            int c = 0; int idx[NHIST];
            for (int i = l->nh - 1; i >= 0; --i) {
                idx[c++] = i;
                Hist& h = l->hist[i];
                if (h.idx <= l->seen[t->id]) break;                       // read-read coherence
                if (t->vis.c[h.tid] >= h.clk || t->clk.c[h.tid] >= h.clk) break;  // happens-before: nothing older
            }
            if (c > 1) {
                u8 cost[NHIST]; for (int i = 0; i < c; ++i) cost[i] = i ? 1 : 0;
                int k = decide(c, cost, K_WEAK);
                if (k) {
                    Hist& h = l->hist[idx[k]];
                    trace("t%d   stale load of %p: %llx instead of %llx", t->id, (void*)a, (unsigned long long)h.val, (unsigned long long)v);
                    if (h.idx > l->seen[t->id]) l->seen[t->id] = h.idx;
                    acq_from(t, h.sync, mo); thop(t, 0x11, h.h);
                    t->sp_cnt = 0;
                    return (T)h.val;
                }
            }
        }
        l->seen[t->id] = l->nstore;
    }
    acq_from(t, l->sync, mo);
    if (t->sp_cnt <= 1) thop(t, 0x11, l->hW);
    return v;
}
inline void released(Thread* t) { t->clk.c[t->id]++; t->vis.c[t->id] = t->clk.c[t->id]; }

template <class T> void a_store(T volatile* p, T v, int mo, u32 pc) {
    if (!g || !g->active || !ours((u64)p)) { *p = v; return; }
    u64 a = (u64)p; point(shared_addr(a));
    Thread* t = g->cur; Loc* l = loc(a); t->sp_addr = 0;
    acc(a, sizeof(T), true, true, pc);
    if (g->sc->opts.weak) { if (mo == MO_SC) sc_op(t);
        if (l->nh == 0) { // remember the initial value
            Hist& h = l->hist[l->nh++]; h.val = (u64)*p; h.idx = ++l->nstore; h.clk = 0; h.tid = (u8)t->id; h.sc = 0; h.sync = l->sync; h.h = l->hW; } }
    if (*p != v) l->ver++;
    *p = v;
    if (isrel(mo)) l->sync = t->clk; else l->sync = t->rel;
    thop(t, 0x22, l->hW); l->hW = mix(t->h, 3);
    hist_push(t, l, (u64)v, mo);
    if (isrel(mo)) released(t);
    else if (g->sc->opts.weak) released(t);
    wake_idle();
}
template <class T, class F> T a_rmw(T volatile* p, int mo, u32 pc, F f) {
    if (!g || !g->active || !ours((u64)p)) { T o = *p; *p = f(o); return o; }
    u64 a = (u64)p; point(shared_addr(a));
    Thread* t = g->cur; Loc* l = loc(a); t->sp_addr = 0;
    T o = *p; T nv = f(o);
    if (nv == o) {
        if (t->rm_addr == a && t->rm_ver == l->ver) { if (++t->rm_cnt >= 3) { spin_on(l); t = g->cur; t->rm_cnt = 0; o = *p; nv = f(o); } }
        else { t->rm_addr = a; t->rm_cnt = 1; }
        t->rm_ver = l->ver;
    } else if (t->rm_addr == a) t->rm_addr = 0;
    acc(a, sizeof(T), true, true, pc);
    if (g->sc->opts.weak) { if (mo == MO_SC) sc_op(t);
        if (l->nh == 0) { Hist& h = l->hist[l->nh++]; h.val = (u64)o; h.idx = ++l->nstore; h.clk = 0; h.tid = (u8)t->id; h.sc = 0; h.sync = l->sync; h.h = l->hW; } }
    acq_from(t, l->sync, mo);
    if (nv != o) l->ver++;
    *p = nv;
    if (isrel(mo)) l->sync.join(t->clk); else l->sync.join(t->rel);
    if (nv == o) thop(t, 0x33, l->hW); 
    else { thop(t, 0x34, l->hW); l->hW = mix(t->h, 4); wake_idle(); }
    hist_push(t, l, (u64)nv, mo);
    if (isrel(mo) || g->sc->opts.weak) released(t);
    return o;
}
template <class T> T a_cas(T volatile* p, T exp, T des, int mo, int fmo, u32 pc) {
    if (!g || !g->active || !ours((u64)p)) { T o = *p; if (o == exp) *p = des; return o; }
    u64 a = (u64)p; point(shared_addr(a));
    Thread* t = g->cur; Loc* l = loc(a); t->sp_addr = 0;
    T o = *p;
    if (o != exp) {
        if (t->rm_addr == a && t->rm_ver == l->ver) { if (++t->rm_cnt >= 3) { spin_on(l); t = g->cur; t->rm_cnt = 0; o = *p; } }
        else { t->rm_addr = a; t->rm_cnt = 1; }
        t->rm_ver = l->ver;
    } else if (t->rm_addr == a) t->rm_addr = 0;
    if (o == exp) {
        acc(a, sizeof(T), true, true, pc);
        if (g->sc->opts.weak) { if (mo == MO_SC) sc_op(t);
            if (l->nh == 0) { Hist& h = l->hist[l->nh++]; h.val = (u64)o; h.idx = ++l->nstore; h.clk = 0; h.tid = (u8)t->id; h.sc = 0; h.sync = l->sync; h.h = l->hW; } }
        acq_from(t, l->sync, mo);
        if (o != des) l->ver++;
        *p = des;
        if (isrel(mo)) l->sync.join(t->clk); else l->sync.join(t->rel);
        thop(t, 0x44, l->hW); l->hW = mix(t->h, 5);
        hist_push(t, l, (u64)des, mo);
        if (isrel(mo) || g->sc->opts.weak) released(t);
        wake_idle();
    } else {
        acc(a, sizeof(T), false, true, pc);
        if (g->sc->opts.weak) { if (fmo == MO_SC) sc_op(t); l->seen[t->id] = l->nstore; }
        acq_from(t, l->sync, fmo); thop(t, 0x45, l->hW);
    }
    return o;
}

} // namespace

extern "C" {
#define ATOM(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); }); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { return a_cas<T>(a, e, d, mo, fmo, PC); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { T o = a_cas<T>(a, *e, d, mo, fmo, PC); if (o == *e) return 1; *e = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { T o = a_cas<T>(a, *e, d, mo, fmo, PC); if (o == *e) return 1; *e = o; return 0; }
ATOM(8, u8)
ATOM(16, uint16_t)
ATOM(32, u32)
ATOM(64, u64)

void __tsan_atomic_thread_fence(int mo) {
    if (!g || !g->active) return;
    Thread* t = g->cur;
    if (g->sc->opts.weak && mo == MO_SC) { point(true); t = g->cur; }
    if (isacq(mo)) { t->clk.join(t->acq); t->vis.join(t->acq); }
    if (isrel(mo)) { t->rel = t->clk; released(t); }
    if (mo == MO_SC) { sc_op(t); if (g->sc->opts.weak) { thop(t, 0x77, g->seq); } }
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { plain((u64)p, N, false, PC); } \
void __tsan_write##N(void* p) { plain((u64)p, N, true, PC); } \
void __tsan_unaligned_read##N(void* p) { plain((u64)p, N, false, PC); } \
void __tsan_unaligned_write##N(void* p) { plain((u64)p, N, true, PC); } \
void __tsan_read_write##N(void* p) { plain((u64)p, N, false, PC); plain((u64)p, N, true, PC); } \
void __tsan_unaligned_read_write##N(void* p) { plain((u64)p, N, false, PC); plain((u64)p, N, true, PC); } \
void __tsan_volatile_read##N(void* p) { plain((u64)p, N, false, PC); } \
void __tsan_volatile_write##N(void* p) { plain((u64)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { plain((u64)p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain((u64)p, 8, true, PC); }
void __tsan_read_range(void* p, unsigned long n) { if (n) plain((u64)p, (u32)n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) plain((u64)p, (u32)n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plain((u64)s, (u32)n, false, PC); plain((u64)d, (u32)n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plain((u64)s, (u32)n, false, PC); plain((u64)d, (u32)n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plain((u64)d, (u32)n, true, PC); return memset(d, c, n); }

// ---------------------------------------------------------------- allocation
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static bool inject() {
    RT* r = g; long k = r->nalloc++;
    if (r->failat >= 0 && k == r->failat) { r->failed = true; r->failat = -1; trace("t%d   injected allocation failure", r->cur->id); return true; }
    return false;
}
static void* xalloc(size_t n, size_t al = 16) {
    if (!g || !g->active || g->in_rt) { void* p = nullptr; if (al <= 16) return __real_malloc(n ? n : 1); if (posix_memalign(&p, al, n)) return nullptr; return p; }
    if (inject()) return nullptr;
    void* p = arena_alloc(n, al); if (p) { ++g->nlive; g->blive += (long)n; }
    return p;
}
static void xfree(void* p, u32 pc) {
    if (!p) return;
    if (in_arena((u64)p)) { if (!g->active) return; arena_free(p, pc); --g->nlive; g->blive -= (long)arena_size((u64)p); return; }
    if (g && g->active && !g->in_rt && in_glob((u64)p)) violation("free of a static object %p", p);
    __real_free(p);
}
void* __wrap_malloc(size_t n) { return xalloc(n); }
void __wrap_free(void* p) { xfree(p, PC); }
void* __wrap_calloc(size_t a, size_t b) { void* p = xalloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* o, size_t n) {
    if (!o) return xalloc(n);
    if (!in_arena((u64)o)) return __real_realloc(o, n);
    void* p = xalloc(n); if (!p) return p; size_t on = arena_size((u64)o); memcpy(p, o, on < n ? on : n); xfree(o, PC); return p;
}
}
void* operator new(size_t n) { void* p = xalloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = xalloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return xalloc(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return xalloc(n); }
void* operator new(size_t n, std::align_val_t al) { void* p = xalloc(n, (size_t)al); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t al) { void* p = xalloc(n, (size_t)al); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { xfree(p, PC); }
void operator delete[](void* p) noexcept { xfree(p, PC); }
void operator delete(void* p, size_t n) noexcept {
    if (p && in_arena((u64)p) && g->active && mem_state((u64)p) == 1 && arena_size((u64)p) != n && n != 0) violation("sized delete of %p with size %zu, allocated %zu", p, n, arena_size((u64)p));
    xfree(p, PC); }
void operator delete[](void* p, size_t) noexcept { xfree(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { xfree(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { xfree(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xfree(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xfree(p, PC); }

// ---------------------------------------------------------------- TLS (emulated), guards, once
struct emutls_object { size_t size, align; void* loc; void* templ; };
extern "C" {
void* __emutls_get_address(emutls_object* o) {
    if (!o->loc) { if (g->tlsn >= 255) die("too many thread_locals"); o->loc = (void*)(u64)++g->tlsn; }
    u64 i = (u64)o->loc;
    if (!g->active) { // static initialisation / explorer: process-wide instance
        static void* outside[256]; if (!outside[i]) { outside[i] = __real_calloc(1, o->size < 16 ? 16 : o->size); if (o->templ) memcpy(outside[i], o->templ, o->size); } return outside[i]; }
    Thread* t = g->cur;
    if (!t->tls[i]) { void* p = arena_alloc(o->size, o->align < 16 ? 16 : o->align); if (o->templ) memcpy(p, o->templ, o->size); else memset(p, 0, o->size); t->tls[i] = p; }
    return t->tls[i];
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
    if (!g->active) return 0;
    Thread* t = g->cur; if (t->ntd >= 64) die("too many thread_local destructors"); t->td[t->ntd++] = TlsDtor{ fn, obj }; return 0;
}
extern emutls_object ec_callable asm("__emutls_v._ZSt15__once_callable");
extern emutls_object ec_call asm("__emutls_v._ZSt11__once_call");
emutls_object ec_callable = { 8, 8, nullptr, nullptr };
emutls_object ec_call = { 8, 8, nullptr, nullptr };
void __once_proxy() { auto f = *(void (**)())__emutls_get_address(&ec_call); f(); }
int __cxa_guard_acquire(u64* gu) {
    volatile u8* b = (volatile u8*)gu;
    if (!g || !g->active || !ours((u64)gu)) { if (b[0]) return 0; b[1] = 1; return 1; }
    for (;;) {
        Thread* t = g->cur; Loc* l = loc((u64)gu);
        if (b[0]) { t->clk.join(l->sync); t->vis.join(l->sync); thop(t, 0x51, l->hW); return 0; }
        if (!b[1]) { b[1] = 1; thop(t, 0x52, l->hW); return 1; }
        t->waddr = (u64)gu; block(B_GUARD);
    }
}
void __cxa_guard_release(u64* gu) {
    volatile u8* b = (volatile u8*)gu; b[0] = 1; b[1] = 0;
    if (!g || !g->active || !ours((u64)gu)) return;
    Thread* t = g->cur; Loc* l = loc((u64)gu); l->sync.join(t->clk); thop(t, 0x53, l->hW); l->hW = mix(t->h, 9); l->ver++; released(t);
}
// an assertion of the library ("assert" variant)
void __assert_fail(char const* e, char const* f, unsigned line, char const*) { char const* b = strrchr(f, '/'); violation("assertion failed: %s:%u: %s", b ? b + 1 : f, line, e); }
void __cxa_guard_abort(u64* gu) { volatile u8* b = (volatile u8*)gu; b[1] = 0; if (g && g->active) { Thread* t = g->cur; Loc* l = loc((u64)gu); thop(t, 0x54, l->hW); l->hW = mix(t->h, 9); } }
int pthread_once(pthread_once_t* o, void (*f)()) {
    int volatile* b = (int volatile*)o;
    if (!g || !g->active || !ours((u64)o)) { if (!*b) { *b = 2; f(); } return 0; }
    // use a guard keyed by the address (state: 0 new, 1 running, 2 done)
    for (;;) {
        Thread* t = g->cur; Loc* l = loc((u64)o);
        if (*b == 2) { t->clk.join(l->sync); t->vis.join(l->sync); thop(t, 0x55, l->hW); return 0; }
        if (*b == 0) { *b = 1; f(); t = g->cur; *b = 2; l = loc((u64)o); l->sync.join(t->clk); thop(t, 0x56, l->hW); l->hW = mix(t->h, 9); l->ver++; released(t); return 0; }
        spin_on(l);
    }
}

// ---------------------------------------------------------------- hardware transactional memory (variants "tsx...")
// h/tsx/rtm.hpp replaces the instructions.  A transaction that commits is atomic: it runs without preemption.  An abort
// rolls everything back, hence equals an abort at the begin.  What a transaction cannot contain (blocking, waiting, system
// calls) aborts it, and the lock takes its fallback path: as nobody else ran since the begin, that equals owning the
// fallback lock since then (mc_rtm_promote).
u64 mc_rtm_buf[8];
void mc_rtm_promote() {
    if (!g || !g->active) return;
    Thread* t = g->cur; int n = t->tx; t->tx = 0; if (!n) return;
    for (int i = 0; i < n; ++i) { Tx& x = t->txl[i]; if (!x.addr) continue; Loc* l = loc(x.addr);
        // (both values of the word of either lock are 0 and 1)
        if (x.size == 4 && *(u32 volatile*)x.addr < 2) *(u32 volatile*)x.addr = 1 - *(u32 volatile*)x.addr; else finish(DISCARD);
        l->ver++; l->sync.join(t->rel); thop(t, 0x44, l->hW); l->hW = mix(t->h, 5); hist_push(t, l, *(u32 volatile*)x.addr, MO_ACQ); }
    released(t); trace("t%d   transaction aborts, falls back to the lock", t->id); wake_idle();
}
u32 mc_rtm_begin2() {
    if (!g || !g->active) return 0;
    u64 regs[8]; memcpy(regs, mc_rtm_buf, sizeof regs);
    point(true); Thread* t = g->cur;
    u8 cost[3] = { 0, 1, 1 }; int k = decide(3, cost, K_DEV); thop(t, 0x83, k);
    if (k || t->tx == 4) { mc_rtm_promote(); trace("t%d   transaction aborted (%d)", t->id, k); return k == 1 ? 2u | 4u : 0u; }
    Tx& x = t->txl[t->tx++]; x.addr = 0; memcpy(x.regs, regs, sizeof x.regs); trace("t%d   transaction begins", t->id); return ~0u;
}
void mc_rtm_end() {
    Thread* t = g->cur; if (!t->tx) violation("general protection fault: end of a transaction outside of any");
    Tx& x = t->txl[--t->tx]; if (x.addr) { Loc* l = loc(x.addr); l->sync.join(t->clk); thop(t, 0x13, l->hW); l->hW = mix(t->h, 13); released(t); }
    t->sp_addr = 0; trace("t%d   transaction ends", t->id);
    // nobody could observe the inner part alone
    if (!t->tx) point(true);
}
void mc_rtm_restore(u64*, u32);
void mc_rtm_abort() { // explicit abort
    Thread* t = g->cur; if (!t->tx) return; // no effect outside of a transaction
    Tx x = t->txl[--t->tx]; mc_rtm_promote(); trace("t%d   transaction aborts: lock not free", t->id); memcpy(mc_rtm_buf, x.regs, sizeof x.regs); mc_rtm_restore(mc_rtm_buf, 1u | 0xff000000u);
}
asm(R"(
.globl mc_rtm_begin
mc_rtm_begin:
    movabs $mc_rtm_buf, %rax
    mov %rbx, (%rax)
    mov %rbp, 8(%rax)
    mov %r12, 16(%rax)
    mov %r13, 24(%rax)
    mov %r14, 32(%rax)
    mov %r15, 40(%rax)
    lea 8(%rsp), %rdx
    mov %rdx, 48(%rax)
    mov (%rsp), %rdx
    mov %rdx, 56(%rax)
    jmp mc_rtm_begin2
.globl mc_rtm_restore
mc_rtm_restore:
    mov %esi, %eax
    mov (%rdi), %rbx
    mov 8(%rdi), %rbp
    mov 16(%rdi), %r12
    mov 24(%rdi), %r13
    mov 32(%rdi), %r14
    mov 40(%rdi), %r15
    mov 48(%rdi), %rsp
    jmp *56(%rdi)
)");

// ---------------------------------------------------------------- pthread
static void m_lock(u64 a, bool pt) {
    mc_rtm_promote();
    if (pt) point(shared_addr(a));
    for (;;) {
        Loc* l = loc(a); Thread* t = g->cur;
        if (l->owner < 0) { l->owner = t->id; t->clk.join(l->sync); t->vis.join(l->sync); thop(t, 0x61, l->hW); l->hW = mix(t->h, 6); return; }
        if (l->owner == t->id) violation("deadlock: thread %d locks an OS mutex it already owns", t->id);
        t->waddr = a; block(B_MUTEX);
    }
}
static void m_unlock(u64 a) {
    Loc* l = loc(a); Thread* t = g->cur;
    if (l->owner != t->id) violation("OS mutex unlocked by a thread that does not own it");
    l->owner = -1; l->sync = t->clk; thop(t, 0x62, l->hW); l->hW = mix(t->h, 6); l->ver++; released(t);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!g || !g->active || !ours((u64)m)) return 0; acc((u64)m, 8, false, true, PC); m_lock((u64)m, true); acc((u64)m, 8, true, true, PC); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!g || !g->active || !ours((u64)m)) return 0;
    acc((u64)m, 8, false, true, PC); point(shared_addr((u64)m)); acc((u64)m, 8, true, true, PC); Loc* l = loc((u64)m); Thread* t = g->cur;
    if (l->owner < 0) { l->owner = t->id; t->clk.join(l->sync); t->vis.join(l->sync); thop(t, 0x61, l->hW); l->hW = mix(t->h, 6); t->rm_addr = 0; return 0; }
    thop(t, 0x63, l->hW);
    if (t->rm_addr == (u64)m && t->rm_ver == l->ver) { if (++t->rm_cnt >= 3) spin_on(l); } else { t->rm_addr = (u64)m; t->rm_cnt = 1; } t->rm_ver = l->ver;
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g || !g->active || !ours((u64)m)) return 0; point(shared_addr((u64)m)); acc((u64)m, 8, true, true, PC); m_unlock((u64)m); return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const*) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static int c_wait(u64 c, u64 m, i64 deadline, u32 pc) {
    point(true);
    acc(c, 8, true, true, pc);
    Thread* t = g->cur; Loc* l = loc(c);
    t->signalled = t->timedout = t->spur = false; t->waddr = c; t->wseq = ++g->seq; t->deadline = deadline;
    thop(t, 0x64, l->hW);
    m_unlock(m); wake_idle();
    block(B_COND);
    bool to = !t->signalled && !t->spur; t->deadline = FOREVER; t->waddr = 0;
    if (to) thop(t, 0x65, g->clkh); else if (t->spur && !t->signalled) thop(t, 0x66, 1);
    m_lock(m, false);
    acc(m, 8, true, true, pc);
    return to ? ETIMEDOUT : 0;
}
static i64 ts2ns(timespec const* ts) { 
    if (ts->tv_sec >= 9000000000ll) return FOREVER; 
    return ts->tv_sec * 1000000000ll + ts->tv_nsec; }
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (g && g->active) { acc((u64)c, 8, true, false, PC);
        for (int i = 0; i < g->nt; ++i) if (g->t[i].st == B_COND && g->t[i].waddr == (u64)c && !g->t[i].signalled) violation("OS condition variable destroyed while a thread waits on it"); }
    return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g || !g->active) die("cond_wait outside"); return c_wait((u64)c, (u64)m, FOREVER, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) { return c_wait((u64)c, (u64)m, ts2ns(ts), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* ts) { return c_wait((u64)c, (u64)m, ts2ns(ts), PC); }
static int c_signal(u64 c, bool all, u32 pc) {
    mc_rtm_promote();
    if (!g || !g->active || !ours(c)) return 0;
    point(shared_addr(c));
    acc(c, 8, true, true, pc);
    Thread* t = g->cur; Loc* l = loc(c); thop(t, 0x67, l->hW); l->hW = mix(t->h, 7);
    int w[MAXT], n = 0;
    for (int i = 0; i < g->nt; ++i) { Thread* o = &g->t[i]; if (o->st == B_COND && o->waddr == c && !o->signalled && !o->timedout && !o->spur) w[n++] = i; }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (g->t[w[j]].wseq < g->t[w[i]].wseq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
    if (all) { for (int i = 0; i < n; ++i) { g->t[w[i]].signalled = true; thop(&g->t[w[i]], 0x68, t->h); } }
    else if (n) { u8 cost[MAXT] = {}; int k = n > 1 ? decide(n, cost, K_SIG) : 0; g->t[w[k]].signalled = true; thop(&g->t[w[k]], 0x68, t->h); }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return c_signal((u64)c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t* c) { return c_signal((u64)c, true, PC); }

static void thread_end(Thread* t) {
    while (t->ntd) { TlsDtor d = t->td[--t->ntd]; d.fn(d.obj); }
    for (int i = 0; i < 256; ++i) if (t->tls[i]) { // thread_local storage goes away
        u64 a = (u64)t->tls[i]; if (mem_state(a) == 1) arena_free((void*)a, 0); }
    trace("t%d exits", t->id);
}
static void thread_main() {
    Thread* t = g->cur;
    if (t->fn) t->ret = t->fn(t->arg); else g->sc->body();
    t = g->cur;
    if (t->detached) {}
    thread_end(t);
    t->st = DONE; thop(t, 0x69, 0); released(t); wake_idle();
    bool all = true; for (int i = 0; i < g->nt; ++i) if (g->t[i].st != DONE) all = false;
    if (all) finish(OK_END);
    pick(false, false);
    die("resumed a finished thread");
}
static Thread* new_thread(void* (*fn)(void*), void* arg) {
    if (g->nt) mc_rtm_promote();
    if (g->nt >= MAXT) die("too many threads");
    Thread* t = &g->t[g->nt]; memset((void*)t, 0, sizeof *t); t->id = g->nt++;
    t->st = RUN; t->fn = fn; t->arg = arg; t->h = t->id * 1000 + 7; t->deadline = FOREVER; t->large = SMALL; 
    t->clk.c[t->id] = 1;
    Thread* save = g->cur; g->cur = t;
    char* st = (char*)arena_alloc(256 * 1024); g->cur = save;
    u64* sp = (u64*)(st + 256 * 1024 - 64); sp = (u64*)((u64)sp & ~15ull);
    *--sp = 0; *--sp = (u64)&thread_main; for (int i = 0; i < 6; ++i) *--sp = 0;
    t->sp = sp; g->S += fin(t);
    return t;
}
int pthread_create(pthread_t* out, pthread_attr_t const*, void* (*fn)(void*), void* arg) {
    if (!g || !g->active) die("pthread_create outside an execution");
    if (g->single) finish(DISCARD);   // only executions with one thread are of interest
    point(true);
    Thread* c = g->cur; Thread* t = new_thread(fn, arg);
    t->clk.join(c->clk); t->vis = t->clk; released(c); thop(c, 0x6a, t->id); thop(t, 0x6b, c->h);
    *out = (pthread_t)(u64)(t->id + 1);
    trace("t%d creates t%d", c->id, t->id);
    point(true);
    return 0;
}
int pthread_join(pthread_t p, void** r) {
    int id = (int)(u64)p - 1; point(true);
    Thread* c = g->cur; if (id < 0 || id >= g->nt) violation("join of an invalid thread");
    if (g->t[id].st != DONE) { c->wjoin = id; block(B_JOIN); }
    c->clk.join(g->t[id].clk); c->vis.join(g->t[id].clk); thop(c, 0x6c, g->t[id].h);
    if (r) *r = g->t[id].ret; g->t[id].joined = true;
    return 0;
}
int pthread_detach(pthread_t p) { int id = (int)(u64)p - 1; if (g && g->active && id >= 0 && id < g->nt) g->t[id].detached = true; return 0; }
pthread_t pthread_self() { if (!g || !g->active) return (pthread_t)1; return (pthread_t)(u64)(g->cur->id + 1); }
int pthread_setaffinity_np(pthread_t t, size_t n, cpu_set_t const* s) {
    if (!g || !g->active) return 0;
    mc::Affinity a{ (u64)t, 0, -1 };
    for (size_t i = 0; i < n * 8; ++i) if (((unsigned char const*)s)[i / 8] >> (i % 8) & 1) { if (!a.cpus++) a.cpu = (int)i; }
    if (g->naff < 32) g->aff[g->naff++] = a;
    return g->afferr ? g->afferr : a.cpus ? 0 : EINVAL;
}
int sched_yield() { if (!g || !g->active) return 0; point(false); yield_now(); return 0; }
static void do_sleep(i64 until) {
    point(false); Thread* t = g->cur; t->deadline = until;
    if (g->now >= until) { yield_now(); }
    else block(B_SLEEP);
    t->deadline = FOREVER; thop(t, 0x6d, g->clkh);
}
int nanosleep(timespec const* ts, timespec*) { if (!g || !g->active) return 0; i64 d = ts->tv_sec * 1000000000ll + ts->tv_nsec; do_sleep(g->now + d); return 0; }
int clock_nanosleep(clockid_t, int fl, timespec const* ts, timespec*) { if (!g || !g->active) return 0; i64 d = ts2ns(ts); do_sleep(fl & TIMER_ABSTIME ? d : g->now + d); return 0; }
int usleep(useconds_t us) { if (!g || !g->active) return 0; do_sleep(g->now + us * 1000ll); return 0; }
static i64 read_clock() {
    RT* r = g; tick();
    if (r->sc->opts.timedev && !r->nopre) {
        i64 ml = FOREVER; for (int i = 0; i < r->nmiles; ++i) if (r->miles[i] > r->now && r->miles[i] < ml) ml = r->miles[i];
        if (ml != FOREVER) { u8 cost[2] = { 0, 1 }; if (decide(2, cost, K_TIME)) { advance(ml); trace("   time passes to +%lld us", (long long)((ml - 1000000000000ll) / 1000)); } }
    }
    if (r->quantum > (u32)r->sc->opts.quantum) point(false);
    thop(r->cur, 0x6e, r->clkh);
    return r->now;
}
int clock_gettime(clockid_t id, timespec* ts) {
    if (!g || !g->active) return (int)syscall(SYS_clock_gettime, id, ts);
    i64 n = read_clock(); ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll; return 0;
}
int gettimeofday(timeval* tv, void*) __THROW;
int gettimeofday(timeval* tv, void*) __THROW { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

long syscall(long nr, ...) __THROW;
char const* mc_rewrite_path(char const* p, char* buf) __attribute__((weak));   // defined by harnesses with a fake file system
long syscall(long nr, ...) __THROW {
    va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (g && g->active && nr == SYS_futex) {
        u64 addr = (u64)a[0]; int op = (int)a[1] & 127; u32 val = (u32)a[2]; mc_rtm_promote();
        point(shared_addr(addr));
        acc(addr, 4, false, true, PC);
        Thread* t = g->cur; Loc* l = loc(addr);
        if (op == FUTEX_WAIT) {
            if (*(volatile u32*)addr != val) { thop(t, 0x71, l->hW); errno = EAGAIN; return -1; }
            t->signalled = false; t->waddr = addr; t->wseq = ++g->seq; t->deadline = FOREVER;
            if (a[3]) { timespec* ts = (timespec*)a[3]; t->deadline = g->now + ts2ns(ts); }
            thop(t, 0x72, l->hW); block(B_FUTEX); t->waddr = 0;
            bool to = !t->signalled; t->deadline = FOREVER;
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        } else if (op == FUTEX_WAKE) {
            int n = 0; thop(t, 0x73, l->hW);
            for (;;) { Thread* b = nullptr; for (int i = 0; i < g->nt; ++i) { Thread* o = &g->t[i]; if (o->st == B_FUTEX && o->waddr == addr && !o->signalled && (!b || o->wseq < b->wseq)) b = o; }
                if (!b || n >= (int)val) break; b->signalled = true; thop(b, 0x74, t->h); ++n; }
            return n;
        }
        die("unsupported futex op %d", op);
    }
    char path[4096];
    if (mc_rewrite_path) { if (nr == SYS_openat || nr == SYS_statx || nr == SYS_newfstatat || nr == SYS_readlinkat || nr == SYS_faccessat) a[1] = (long)mc_rewrite_path((char const*)a[1], path);
        else if (nr == SYS_open || nr == SYS_stat || nr == SYS_lstat || nr == SYS_readlink || nr == SYS_access) a[0] = (long)mc_rewrite_path((char const*)a[0], path); }
    register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; long ret;
    asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
    return ret;
}
}

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    if (!g || !g->active) { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
    return time_point(duration(read_clock()));
}
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
    if (!g || !g->active) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
    return time_point(duration(read_clock() + 700000000000000000ll));
}
void std::random_device::_M_init(std::string const&) {}
void std::random_device::_M_init_pretr1(std::string const&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() { return (u32)(12345 + 7919 * (g->seed_rd * 16 + (g->active ? g->cur->id : 0))); }

// ---------------------------------------------------------------- harness API
namespace mc {
int choose(int n) {
    if (n <= 1) return 0;
    if (!g->active) return 0;
    tick(); u8 cost[256] = {}; if (n > 256) die("choose too wide");
    int k = decide(n, cost, K_CHOOSE); thop(g->cur, 0x81, k); trace("t%d   choose(%d) = %d", g->cur->id, n, k); return k;
}
int deviate(int n) {
    if (n <= 1) return 0;
    tick(); u8 cost[256]; for (int i = 0; i < n; ++i) cost[i] = i ? 1 : 0;
    int k = decide(n, cost, K_DEV); thop(g->cur, 0x82, k); if (k) trace("t%d   deviate(%d) = %d", g->cur->id, n, k); return k;
}
void yield() { point(false); yield_now(); }
void idle(int64_t dl) {
    point(false); Thread* c = g->cur;
    if (g->now >= dl) return;
    c->deadline = dl; c->idle = true; pick(false, true); c->idle = false; c->polling = true; c->deadline = FOREVER;
    thop(c, 0x6d, g->clkh);
}
void busy() { g->cur->polling = false; wake_idle(); }
void fail(char const* fmt, ...) { va_list ap; va_start(ap, fmt); char b[2000]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); violation("%s", b); }
void outcome(char const* fmt, ...) { va_list ap; va_start(ap, fmt); int n = vsnprintf(g->out + g->nout, sizeof g->out - g->nout - 1, fmt, ap); va_end(ap); g->nout += n; if (g->nout > (int)sizeof g->out - 2) g->nout = sizeof g->out - 2; }
void log(char const* fmt, ...) { if (!g->replay_log) return; va_list ap; va_start(ap, fmt); char b[400]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); trace("t%d   %s", g->cur->id, b); }
int64_t now_ns() { return g->now; }
void advance_ns(int64_t d) { ::advance(g->now + d); thop(g->cur, 0x6f, d); }
void milestone_ns(int64_t t) { if (g->nmiles < 32) g->miles[g->nmiles++] = t; }
int tid() { return g->cur->id; }
void discard() { finish(DISCARD); }
void ev(int fib, int op, int a, int b) { if (g->nev < 512) g->evs[g->nev++] = Ev{ g->cur->id, fib, op, a, b }; trace("t%d   ev fib=%d op=%d a=%d b=%d", g->cur->id, fib, op, a, b); }
static void opmark(u64 code) { Thread* t = g->cur; thop(t, code, g->oph); g->oph = mix(t->h, 11); }
int op_begin(int kind, long arg) {
    if (g->nops >= 48) die("too many logged operations");
    opmark(0x91); Op& o = g->ops[g->nops]; o = Op{ g->cur->id, kind, arg, 0, 0, g->opclk++, -1 };
    trace("t%d   op %d: kind %d arg %ld begins", g->cur->id, g->nops, kind, arg);
    return g->nops++;
}
void op_end(int id, long res, long val) { opmark(0x92); Op& o = g->ops[id]; o.res = res; o.val = val; o.resp = g->opclk++; trace("t%d   op %d: kind %d arg %ld -> %ld value %ld", g->cur->id, id, o.kind, o.arg, res, val); }
int op_count() { return g->nops; }
Op op_get(int i) { return g->ops[i]; }
struct LinMemo { u64 k[1 << 14]; u32 gen[1 << 14]; u32 cur; };
#define lm (*(LinMemo**)&g->linmemo)
static bool lin_rec(u64 done, int nd, long* st, int n, bool (*step)(long*, Op const&, void*), void* ctx) {
    RT* r = g; if (nd == r->nops) return true;
    u64 h = done * 0x9e3779b97f4a7c15ull; for (int i = 0; i < n; ++i) h = mix(h, (u64)st[i]);
    for (u64 i = h & 16383, q = 0; q < 64; i = (i + 1) & 16383, ++q) { if (lm->gen[i] != lm->cur) { lm->gen[i] = lm->cur; lm->k[i] = h; break; } if (lm->k[i] == h) return false; }
    int minresp = INT32_MAX; for (int i = 0; i < r->nops; ++i) if (!(done >> i & 1) && r->ops[i].resp >= 0 && r->ops[i].resp < minresp) minresp = r->ops[i].resp;
    for (int i = 0; i < r->nops; ++i) {
        if ((done >> i & 1) || r->ops[i].inv > minresp) continue;
        long s2[64]; memcpy(s2, st, n * sizeof(long));
        if (!step(s2, r->ops[i], ctx)) continue;
        if (lin_rec(done | 1ull << i, nd + 1, s2, n, step, ctx)) return true;
    }
    return false;
}
bool linearizable(long const* init, int n, bool (*step)(long*, Op const&, void*), void* ctx) {
    if (n > 64) die("linearizable: state too big");
    if (!lm) { lm = (LinMemo*)mmap(nullptr, sizeof(LinMemo), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    lm->cur++; bool act = g->active; g->active = false; // the specification runs unobserved
    long st[64]; memcpy(st, init, n * sizeof(long));
    bool ok = lin_rec(0, 0, st, n, step, ctx);
    g->active = act; return ok;
}
int ev_count() { return g->nev; }
Ev ev_get(int i) { return g->evs[i]; }
int64_t& reg(int i) { return g->regs[i]; }
long live_allocs() { return g->nlive; }
long live_bytes() { return g->blive; }
bool is_live(void const* p) { return !in_arena((u64)p) || mem_state((u64)p) == 1; }
void fail_alloc(int k) { g->failat = k < 0 ? -1 : g->nalloc + k; g->failed = false; }
bool alloc_failed() { return g->failed; }
long alloc_count() { return g->nalloc; }
int affinity_count() { return g->naff; }
void seed(int k) { g->seed_rd = (u64)k; }
Affinity affinity_get(int i) { return g->aff[i]; }
void affinity_fail(int e) { g->afferr = e; }
void expect_terminate(bool on) { g->expect_term = on; }
bool thorough() { return g->tier == 1; }
void no_preempt(int d) { g->nopre += d; }
}

// ---------------------------------------------------------------- explorer
namespace {

void on_terminate() {
    if (g->active) {
        if (g->expect_term) { mc::outcome("terminated;"); finish(TERMINATED); }
        char const* w = ""; char b[256] = "";
        if (auto* ti = abi::__cxa_current_exception_type()) { snprintf(b, sizeof b, " with exception %s", ti->name()); w = b; }
        violation("std::terminate called%s", w);
    }
    _exit(3);
}
void on_signal(int sig, siginfo_t* si, void* uc) {
    if (g && g->active) {
        ucontext_t* u = (ucontext_t*)uc; g->pcs[0] = (u32)u->uc_mcontext.gregs[REG_RIP]; g->pcs[1] = 0;
        snprintf(g->msg, sizeof g->msg, "crash: signal %d at address %p (pc 0x%llx)", sig, si->si_addr, (unsigned long long)u->uc_mcontext.gregs[REG_RIP]);
        g->active = false; siglongjmp(g->jb, 1);
    }
    _exit(3);
}

void run(Item* it) {
    RT* r = g;
    memcpy(r->dlo, r->snap, r->snap_n);
    r->gen++; r->nt = 0; r->cur = nullptr; r->S = 0; r->step = 0; r->item = it; r->nextdev = 0; r->npoints = 0; r->quantum = 0; r->qcount = 0; r->nown = 0; r->tlsn = r->tlsn0;
    r->now = 1000000000000ll; r->clkh = 99; r->clkver = 0; r->seq = 0; r->nopre = 0; r->stuck = 0; r->idle_advances = 0; r->nmiles = 0; r->scf.clear();
    r->nlive = r->blive = r->nalloc = 0; r->failat = -1; r->failed = false; r->plain = 0; r->nout = 0; r->nev = 0; r->nops = 0; r->opclk = 0; r->oph = 5; memset(r->regs, 0, sizeof r->regs);
    r->naff = 0; r->afferr = 0; r->expect_term = false; r->seed_rd = 0; r->msg[0] = 0; r->in_rt = 0; r->pcs[0] = r->pcs[1] = 0;
    memset(abi::__cxa_get_globals(), 0, 16);
    if (sigsetjmp(r->jb, 1) == 0) {
        Thread* t = new_thread(nullptr, nullptr); r->cur = t; t->vis = t->clk;
        r->active = true;
        mc_switch(&r->main_sp, t->sp);
        r->active = false;
    } else { r->active = false; r->status = VIOL; }
    memset(abi::__cxa_get_globals(), 0, 16);
    if (r->status == OK_END) {
        if (r->nextdev < it->n) die("divergence: execution ended before deviation at step %u", it->d[r->nextdev].step);
        if (r->sc->opts.leak && r->nlive != 0) { r->status = VIOL; snprintf(r->msg, sizeof r->msg, "%ld allocation(s) (%ld bytes) never released", r->nlive, r->blive); trace("VIOLATION %s", r->msg); }
    }
}

void lock(Shared* s) { while (__atomic_exchange_n(&s->lock, 1, __ATOMIC_ACQUIRE)) { timespec ts{ 0, 20000 }; ::syscall(SYS_nanosleep, &ts, nullptr); } }
void unlock(Shared* s) { __atomic_store_n(&s->lock, 0, __ATOMIC_RELEASE); }

void record_outcome() {
    Shared* s = g->sh; g->out[g->nout] = 0; u64 h = 14695981039346656037ull; for (int i = 0; i < g->nout; ++i) h = (h ^ (u8)g->out[i]) * 1099511628211ull; if (!h) h = 1;
    u64 i = h & ((1 << 14) - 1);
    for (int n = 0; n < 256; ++n, i = (i + 1) & ((1 << 14) - 1)) {
        u64 z = 0; if (s->outs[i] == h) return;
        if (s->outs[i] == 0 && __atomic_compare_exchange_n(&s->outs[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
            __atomic_fetch_add(&s->nouts, 1, __ATOMIC_RELAXED);
            int k = __atomic_fetch_add(&s->nsample, 1, __ATOMIC_RELAXED); if (k < 64) snprintf(s->sample[k], 512, "%s", g->out);
            return; }
    }
}

void worker() {
    Shared* s = g->sh; Item cur; u64 cnt = 0; int nact = 1;
    for (;;) {
        if (s->stop) break;
        if (g->nlocal == 0) {
            lock(s);
            if (s->nglob) { int k = --s->nglob; Item& it = s->glob[k]; cur.n = it.n; cur.cost = it.cost; memcpy(cur.d, it.d, it.n * sizeof(Dev)); if (!nact) { s->active++; nact = 1; } unlock(s); }
            else { if (nact) { s->active--; nact = 0; } bool done = s->active == 0; unlock(s); if (done) break; timespec ts{ 0, 100000 }; ::syscall(SYS_nanosleep, &ts, nullptr); continue; }
        } else { Item& it = g->local[--g->nlocal]; cur.n = it.n; cur.cost = it.cost; memcpy(cur.d, it.d, it.n * sizeof(Dev)); }
        run(&cur);
        ++cnt;
        __atomic_fetch_add(&s->execs, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&s->steps, g->step, __ATOMIC_RELAXED); __atomic_fetch_add(&s->plain, g->plain, __ATOMIC_RELAXED);
        if (g->step > s->maxsteps) s->maxsteps = g->step;
        switch (g->status) {
        case CUT: __atomic_fetch_add(&s->cut, 1, __ATOMIC_RELAXED); break;
        case DISCARD: __atomic_fetch_add(&s->discards, 1, __ATOMIC_RELAXED); break;
        case OK_END: case TERMINATED: __atomic_fetch_add(&s->full, 1, __ATOMIC_RELAXED); record_outcome();
            if ((cnt & 63) == 1) { // determinism self-check: replay once more, same end
                int b = g->bound; g->bound = -1; u32 st = g->step; u64 S = g->S; Status so = g->status; char o[512]; memcpy(o, g->out, 512); int no = g->nout; run(&cur);
                if (g->step != st || g->S != S || g->status != so || no != g->nout || memcmp(o, g->out, no)) die("nondeterministic execution (scenario %s): steps %u/%u status %d/%d", g->sc->name, st, g->step, so, g->status);
                g->bound = b; __atomic_fetch_add(&s->replays_checked, 1, __ATOMIC_RELAXED); }
            break;
        case VIOL:
            lock(s);
            if (!s->viol) { s->viol = 1; s->vitem = cur; memcpy(s->vmsg, g->msg, sizeof s->vmsg); s->vpc[0] = g->pcs[0]; s->vpc[1] = g->pcs[1]; }
            unlock(s); s->stop = 1; break;
        }
        if (g->nlocal > 1 && s->nglob < 64) {
            lock(s);
            int want = (int)(g->nlocal / 2); if (want > 64) want = 64; 
            // give away the oldest (shallowest) items
            int k = 0; for (; k < want && s->nglob < 4096; ++k) { Item& d = s->glob[s->nglob++]; Item& it = g->local[k]; d.n = it.n; d.cost = it.cost; memcpy(d.d, it.d, it.n * sizeof(Dev)); }
            memmove((void*)g->local, (void*)(g->local + k), (g->nlocal - k) * sizeof(Item)); g->nlocal -= k;
            unlock(s);
        }
        if ((cnt & 15) == 0 && wall() > g->deadline_wall) { s->capped |= 1; s->stop = 1; }
    }
    _exit(0);
}

char* esc(char const* s, char* b, size_t n) { size_t j = 0; for (; *s && j + 8 < n; ++s) { u8 c = (u8)*s; if (c == '"' || c == '\\') { b[j++] = '\\'; b[j++] = c; } else if (c < 32) j += snprintf(b + j, 8, "\\u%04x", c); else b[j++] = c; } b[j] = 0; return b; }

template <class T> T* map(u64 n, bool shared = false) {
    void* p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (T*)p;
}

extern "C" char __data_start, _end;

void setup() {
    g = map<RT>(1);
    g->locs = map<Loc>(LOCS);
    void* p = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) { perror("arena"); _exit(3); }
    g->live = map<u8>(ARENA_SIZE >> 3); g->pagest = map<u8>(ARENA_SIZE >> 12); g->pagegen = map<u32>(ARENA_SIZE >> 12); g->memsz = map<u64>(ARENA_SIZE >> 12);
    g->cells = map<Cell>(ARENA_SIZE >> 3);
    g->dlo = &__data_start; g->dhi = &_end; g->gcells = map<Cell>(((u64)(g->dhi - g->dlo) >> 3) + 2);
    g->failat = -1;
}

struct Res { u64 execs, full, cut, states, points, steps, nouts, discards, maxsteps, checked; int bound; int capped; bool viol; double secs; };

int run_scenario(mc::Scenario* sc, int bound, int jobs, double cap, FILE* js, bool& first) {
    Shared* s = g->sh; g->sc = sc; double t0 = wall(); g->deadline_wall = t0 + cap;
    memset(s->mask, 0, sizeof s->mask); memset(s->next, 0, sizeof s->next);
    Res tot{}; int done = -1; bool viol = false; int capped = 0; u64 tot_execs = 0, tot_steps = 0; 
    u64 bexec[16] = {}, bstates[16] = {};
    for (int b = 0; b <= bound && !viol; ++b) {
        for (int round = 0; round < 20; ++round) {
            memcpy(s->mask, s->next, sizeof s->mask); s->grew = 0;
            madvise(g->vkey, (s->tbl_mask + 1) * 8, MADV_REMOVE); madvise(g->vbud, s->tbl_mask + 1, MADV_REMOVE);
            s->lock = 0; s->stop = 0; s->nglob = 1; s->glob[0].n = 0; s->glob[0].cost = 0; s->viol = 0; s->capped = 0; s->err = 0;
            s->execs = s->full = s->cut = s->steps = s->states = s->points = s->discards = s->maxsteps = s->plain = 0; memset(s->outs, 0, sizeof s->outs); s->nouts = 0; s->nsample = 0;
            g->bound = b;
            int J = jobs; s->active = J;
            pid_t pid[64];
            for (int i = 0; i < J; ++i) { pid[i] = fork(); if (pid[i] == 0) { g->wid = i; worker(); } if (pid[i] < 0) { perror("fork"); _exit(3); } }
            bool bad = false;
            for (int i = 0; i < J; ++i) { int st; waitpid(pid[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; if (bad) s->stop = 1; }
            if (s->err || bad) { fprintf(stderr, "MC-INTERNAL in scenario %s: %s\n", sc->name, s->errmsg); return 3; }
            tot_execs += s->execs; tot_steps += s->steps; capped |= s->capped & ~1;
            if (s->viol) { viol = true; break; }
            if (s->capped & 1) { capped |= 1; break; }
            if (!s->grew) break;
        }
        tot.states = s->states; tot.full = s->full; tot.cut = s->cut; tot.nouts = s->nouts; tot.points = s->points; if (s->maxsteps > tot.maxsteps) tot.maxsteps = s->maxsteps; tot.discards = s->discards;
        if (b < 16) { bexec[b] = s->execs; bstates[b] = s->states; }
        if (viol || (capped & 1)) break;
        done = b;
    }
    char eb[8192];
    fprintf(js, "%s\n  {\"scenario\":\"%s\",\"prop\":\"%s\",\"what\":\"%s\",\"bound\":%d,\"bound_completed\":%d,\"capped\":%d,\"executions\":%llu,\"complete\":%llu,\"pruned\":%llu,\"states\":%llu,\"choice_points\":%llu,\"steps\":%llu,\"max_steps\":%llu,\"outcomes\":%llu,\"discarded\":%llu,\"replays_checked\":%llu,\"seconds\":%.2f,\"violation\":%s",
        first ? "" : ",", sc->name, sc->prop, esc(sc->what, eb, sizeof eb), bound, done, capped, (unsigned long long)tot_execs, (unsigned long long)tot.full, (unsigned long long)tot.cut, (unsigned long long)tot.states, (unsigned long long)tot.points, (unsigned long long)tot_steps, (unsigned long long)tot.maxsteps, (unsigned long long)tot.nouts, (unsigned long long)tot.discards, (unsigned long long)s->replays_checked, wall() - t0, viol ? "true" : "false");
    first = false;
    s->replays_checked = 0;
    fprintf(js, ",\"per_bound\":["); for (int b = 0; b <= done && b < 16; ++b) fprintf(js, "%s[%llu,%llu]", b ? "," : "", (unsigned long long)bexec[b], (unsigned long long)bstates[b]); fprintf(js, "]");
    fprintf(js, ",\"samples\":["); for (int i = 0; i < s->nsample && i < 64; ++i) fprintf(js, "%s\"%s\"", i ? "," : "", esc(s->sample[i], eb, sizeof eb)); fprintf(js, "]");
    if (viol) {
        fprintf(js, ",\"message\":\"%s\",\"pcs\":[%u,%u],\"deviations\":[", esc(s->vmsg, eb, sizeof eb), s->vpc[0], s->vpc[1]);
        for (u32 i = 0; i < s->vitem.n; ++i) fprintf(js, "%s[%u,%u,%u,%u]", i ? "," : "", s->vitem.d[i].step, s->vitem.d[i].alt, s->vitem.d[i].h, s->vitem.d[i].cost);
        fprintf(js, "]");
    }
    fprintf(js, "}");
    fflush(js);
    return viol ? 1 : 0;
}

int replay(char const* name, char const* devs, FILE* out, int tier) {
    mc::Scenario* sc = mc::Scenario::head; while (sc && strcmp(sc->name, name)) sc = sc->next;
    if (!sc) { fprintf(stderr, "no scenario %s\n", name); return 3; }
    g->sc = sc; g->tier = tier; g->bound = -1; g->replay_log = true; Item it; it.n = 0; it.cost = 0;
    char const* p = devs; while (*p && it.n < MAXDEV) { unsigned a, b, c, d; int k; if (sscanf(p, "%u:%u:%u:%u%n", &a, &b, &c, &d, &k) != 4) break; it.d[it.n++] = Dev{ a, b, c, d }; p += k; if (*p == ',') ++p; }
    run(&it);
    g->out[g->nout] = 0;
    fwrite(g->tr, 1, g->ntr, out);
    fprintf(out, "REPLAY status=%s steps=%u outcome=%s message=%s pcs=%u,%u\n", g->status == VIOL ? "VIOLATION" : "ok", g->step, g->out, g->msg, g->pcs[0], g->pcs[1]);
    return g->status == VIOL ? 1 : 0;
}
} // namespace

struct RtInit { RtInit() { setup(); } };
static RtInit rt_init __attribute__((init_priority(101)));

int main(int argc, char** argv) {
    int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs > 16) jobs = 16; int bound = -1, tier = 0; double cap = 600, total = 1e9; char const* out = nullptr; char const* only = nullptr; char const* prop = nullptr; bool list = false; char const* rep = nullptr; char const* devs = ""; int vbits = 26, less = 0; bool keep = false;
    for (int i = 1; i < argc; ++i) {
        auto is = [&](char const* o) { return !strcmp(argv[i], o); };
        if (is("--jobs")) jobs = atoi(argv[++i]); else if (is("--less")) less = atoi(argv[++i]); else if (is("--total")) total = atof(argv[++i]); else if (is("--bound")) bound = atoi(argv[++i]); else if (is("--thorough")) tier = 1; else if (is("--cap")) cap = atof(argv[++i]);
        else if (is("--out")) out = argv[++i]; else if (is("--only")) only = argv[++i]; else if (is("--prop")) prop = argv[++i]; else if (is("--list")) list = true; else if (is("--replay")) { rep = argv[++i]; } else if (is("--devs")) devs = argv[++i];
        else if (is("--vbits")) vbits = atoi(argv[++i]); else if (is("--keep-going")) keep = true; else if (is("--single")) g->single = true; else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
    // scenarios in source order
    mc::Scenario* rev = nullptr; for (mc::Scenario* s = mc::Scenario::head; s;) { mc::Scenario* n = s->next; s->next = rev; rev = s; s = n; } mc::Scenario::head = rev;
    if (list) { for (auto* s = rev; s; s = s->next) printf("%s %s %s\n", s->prop, s->name, s->what); return 0; }
    g->tier = tier;
    g->sh = map<Shared>(1, true); g->sh->tbl_mask = (1ull << vbits) - 1; g->vkey = map<u64>(g->sh->tbl_mask + 1, true); g->vbud = map<u8>(g->sh->tbl_mask + 1, true);
    stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int sg : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) sigaction(sg, &sa, nullptr);
    std::set_terminate(on_terminate);
    for (int i = 0; i < 2; ++i) try { throw i; } catch (int) {} // one-time initialisation inside libgcc
    // assign TLS indices before the snapshot is taken is not needed: indices are stored in the data
    // segment and restored, so reserve a stable region
    g->tlsn0 = g->tlsn;
    g->snap_n = (u64)(g->dhi - g->dlo); g->snap = map<char>(g->snap_n + 16); memcpy(g->snap, g->dlo, g->snap_n);
    if (rep) return replay(rep, devs, stdout, tier);
    FILE* js = out ? fopen(out, "w") : stdout; if (!js) { perror(out); return 3; }
    fprintf(js, "["); bool first = true; int rc = 0; double t00 = wall();
    for (auto* s = rev; s; s = s->next) {
        if (only && strcmp(only, s->name)) continue;
        if (prop && strcmp(prop, s->prop)) continue;
        if (s->opts.thorough_only && !tier && !only) continue;
        int b = bound >= 0 ? bound : tier ? s->opts.thorough : s->opts.quick;
        for (int k = 0; k < less && b > 1; ++k) --b;
        double left = total - (wall() - t00); if (left < 0.4) left = 0.4; // the whole run stays within its time on a slow machine
        int r = run_scenario(s, b, jobs, left < cap ? left : cap, js, first);
        if (r == 3) { fprintf(js, "]\n"); fclose(js); return 3; }
        if (r) { rc = 1; if (!keep) break; }
    }
    fprintf(js, "\n]\n"); fclose(js);
    return rc;
}
