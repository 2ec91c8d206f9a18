// C06 recursive mutexes are free only at the outermost unlock
#include "common.h"

template<typename M> bool acquire(M& m, int how);
template<> bool acquire(bf::recursive_mutex& m, int how) { if (how % 2) return m.try_lock(); m.lock(); return true; }
template<> bool acquire(bf::recursive_timed_mutex& m, int how) {
    switch (how) { case 0: m.lock(); return true; case 1: return m.try_lock(); case 2: return m.try_lock_for(ms(5)); default: return m.try_lock_until(in_ms(7)); } }
template<typename M> constexpr int hows() { return is_timed<M>::value ? 4 : 2; }

// one fiber nests to a depth by every mix of operations; another thread locks, tries and misuses meanwhile
template<typename M> void nest() {
    M m; int depth = 0, visits = 0;
    int N = mc::thorough() ? 4 : 3;
    std::thread t([&] {
        int e = err_of([&] { m.unlock(); });
        MC_CHECKF(is_err(e, std::errc::operation_not_permitted), "foreign unlock: error %d", e);
        m.lock(); MC_CHECKF(depth == 0, "locked by another fiber at nesting depth %d", depth); visits++; m.unlock();
    });
    std::thread u([&] {
        if (m.try_lock()) { MC_CHECKF(depth == 0, "try_lock by another fiber at nesting depth %d", depth); visits++; m.unlock(); }
    });
    m.lock(); depth = 1;
    for (int i = 1; i < N; ++i) { bool r = acquire(m, mc::choose(hows<M>())); MC_CHECKF(r, "recursive acquisition failed"); depth++; }
    while (depth > 1) { depth--; m.unlock(); }
    depth = 0; m.unlock();
    int e = err_of([&] { m.unlock(); });
    MC_CHECKF(is_err(e, std::errc::operation_not_permitted), "unlock beyond the outermost: error %d", e);
    t.join(); u.join();
    MC_CHECK(m.try_lock()); m.unlock();
    mc::outcome("%d", visits);
}
FORALL_REC(C06, nest, "nested acquisition by any mix of operations against two other threads", nest, o.quick = 2; o.thorough = 4)

// fibers of one thread: all sequences of acquisitions/releases/yields against a counting oracle
template<typename M> void rseq() {
    M m; int owner = 0, cnt = 0, inflight = 0, timed = 0; int depth = mc::thorough() ? 5 : 4;
    auto body = [&](int me, int d) {
        for (int i = 0; i < d; ++i) {
            int op = mc::choose(hows<M>() + 2);
            if (op == hows<M>()) { tf::yield(); continue; }
            if (op == hows<M>() + 1) {
                if (owner == me) { if (--cnt == 0) owner = 0; MC_CHECK(err_of([&] { m.unlock(); }) == 0); }
                else MC_CHECK(is_err(err_of([&] { m.unlock(); }), std::errc::operation_not_permitted));
                continue;
            }
            bool mine = owner == me, free = owner == 0 && !inflight && !timed; int64_t t0 = mc::now_ns();
            (op == 1 ? inflight : timed)++;
            bool r = acquire(m, op);
            (op == 1 ? inflight : timed)--;
            if (mine) { MC_CHECKF(r && owner == me, "own acquisition failed"); cnt++; continue; }
            if (free) MC_CHECKF(r, "acquisition of a free mutex failed");
            if (r) { MC_CHECKF(owner == 0, "fiber %d acquired while %d owns (%d levels)", me, owner, cnt); owner = me; cnt = 1; }
            else if (op >= 2) MC_CHECKF(mc::now_ns() >= t0 + (op == 2 ? 5 : 7) * 1000000, "timed attempt gave up early");
        }
        while (owner == me) { if (--cnt == 0) owner = 0; m.unlock(); }
    };
    bf::fiber a([&] { body(1, depth); }), b([&] { body(2, 3); });
    a.join(); b.join();
    MC_CHECK(owner == 0 && m.try_lock()); m.unlock();
}
FORALL_REC(C06, rseq, "all operation sequences of two fibers against a counting oracle", rseq, o.quick = 0; o.thorough = 0)

MC_SCENARIO(C06, deep_rec, "six levels, contender gets it only after the last unlock", o.quick = 2; o.thorough = 4) {
    bf::recursive_mutex m; int lvl = 0;
    std::thread t([&] { m.lock(); MC_CHECKF(lvl == 0 || lvl == -1, "handed over at level %d", lvl); m.unlock(); });
    for (int i = 0; i < 6; ++i) { m.lock(); lvl = i + 1; }
    for (int i = 5; i >= 0; --i) { lvl = i; m.unlock(); }
    t.join();
}
MC_SCENARIO(C06, deep_rectimed, "six levels with timed contender", o.quick = 2; o.thorough = 4; o.timedev = true) {
    bf::recursive_timed_mutex m; int lvl = 0;
    std::thread t([&] { if (m.try_lock_for(ms(3))) { MC_CHECKF(lvl == 0, "handed over at level %d", lvl); m.unlock(); } });
    for (int i = 0; i < 6; ++i) { m.lock(); lvl = i + 1; }
    for (int i = 5; i >= 0; --i) { lvl = i; m.unlock(); }
    t.join();
}

// size: anything that depends on how deep the nesting is
template<typename M> void depths() {
    M m; int n = 1 + mc::choose(256), k = mc::choose(3), extra = k == 0 ? 0 : k == 1 ? 1000 : 70000; n += extra; bool got = false;
    for (int i = 0; i < n; ++i) if (i & 1) m.lock(); else MC_CHECK(m.try_lock());
    bf::fiber f([&] { MC_CHECKF(!m.try_lock(), "free at depth %d", n); m.lock(); got = true; m.unlock(); }); tf::yield();
    for (int i = 0; i < n; ++i) { if (i == n - 1) { tf::yield(); MC_CHECKF(!got, "acquired at depth 1 of %d", n); } m.unlock(); }
    f.join(); MC_CHECK(got); MC_CHECKF(err_of([&] { m.unlock(); }) != 0, "one unlock too many at depth %d accepted", n);
}
FORALL_REC(C06, depths, "nesting depths 1..256, 1001..1256, 70001..70256", depths, o.quick = 0; o.thorough = 0; o.max_steps = 2000000)
