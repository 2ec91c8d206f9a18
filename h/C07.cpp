// C07 a timed lock attempt either owns the lock or leaves no trace
#include "common.h"

// owner on one thread unlocks once; a timed and an untimed waiter on two other threads
template<typename M> void swallow_mt() {
    M m; Guarded g; bool got2 = false;
    m.lock(); g.enter(1);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1);
    std::thread a([&] {
        bool r = m.try_lock_until(at_ns(tp));
        if (r) { g.enter(2); g.leave(2); m.unlock(); }
        else MC_CHECKF(mc::now_ns() >= tp, "timed lock attempt gave up before its time point");
        mc::outcome("%d", r);
    });
    std::thread b([&] { m.lock(); g.enter(3); got2 = true; g.leave(3); m.unlock(); });
    g.leave(1); m.unlock();
    a.join(); b.join();
    MC_CHECK(got2);
}
FORALL_TIMED(C07, swallow_mt, "owner unlocks while a timed waiter times out and an untimed waiter waits (3 threads)", swallow_mt, o.quick = 4; o.thorough = 5; o.timedev = true)

// the same within one thread: the owner is busy past the deadline before/after the unlock
template<typename M> void swallow_st() {
    M m; Guarded g; int64_t tp = mc::now_ns() + 5000000;
    int64_t busy[4] = { 0, 4999999, 5000000, 6000000 };
    bf::fiber own([&] {
        m.lock(); g.enter(1);
        int y = mc::choose(3); for (int i = 0; i < y; ++i) tf::yield();
        mc::advance_ns(busy[mc::choose(4)]);
        g.leave(1); m.unlock();
        mc::advance_ns(busy[mc::choose(4)]);
        if (mc::choose(2)) tf::yield();
        mc::advance_ns(busy[mc::choose(4)]);
    });
    auto timed = [&](int me) {
        bool r = mc::choose(2) ? m.try_lock_until(at_ns(tp)) : m.try_lock_for(ns(tp - mc::now_ns()));
        if (r) { g.enter(me); if (mc::choose(2)) tf::yield(); g.leave(me); m.unlock(); }
        else MC_CHECKF(mc::now_ns() >= tp, "timed lock attempt gave up before its time point");
        mc::outcome("%d", r);
    };
    bool first = mc::choose(2); bool two = mc::choose(2);
    auto untimed = [&] { m.lock(); g.enter(4); g.leave(4); m.unlock(); };
    bf::fiber f1([&] { if (first) timed(2); else untimed(); });
    bf::fiber f2([&] { if (first) untimed(); else timed(2); });
    bf::fiber f3([&] { if (two) timed(3); });
    own.join(); f1.join(); f2.join(); f3.join();
    MC_CHECK(g.owner == 0);
}
FORALL_TIMED(C07, swallow_st, "owner, timed and untimed waiters on one thread, time passing at every step", swallow_st, o.quick = 0; o.thorough = 1)

// result and time point, single and past deadlines
template<typename M> void deadline() {
    M m; Guarded g;
    // free mutex: obtained whatever the time point (a past one behaves as try_lock)
    int64_t d[5] = { -1000000, -1, 0, 1, 1000000 };
    int64_t dl = mc::now_ns() + d[mc::choose(5)];
    bool r = m.try_lock_until(at_ns(dl));
    MC_CHECKF(r, "timed attempt on a free mutex failed");
    // owned mutex: false, not before the time point, and without blocking when it is past
    std::thread t([&] {
        int64_t n = mc::now_ns(); int64_t dl = n + d[mc::choose(5)]; mc::milestone_ns(dl);
        bool q = mc::choose(2) ? m.try_lock_until(at_ns(dl)) : m.try_lock_for(ns(dl - n));
        MC_CHECKF(!q, "timed attempt on an owned mutex succeeded");
        MC_CHECKF(mc::now_ns() >= dl, "gave up early");
        // and once more: the state is untouched
        int e = err_of([&] { m.unlock(); }); MC_CHECK(is_err(e, std::errc::operation_not_permitted));
    });
    t.join();
    m.unlock();
    MC_CHECK(m.try_lock_for(ns(1))); m.unlock();
}
FORALL_TIMED(C07, deadline, "result and time point on free and owned mutexes, also past deadlines", deadline, o.quick = 5; o.thorough = 6; o.timedev = true)

// two timed waiters with different deadlines and an owner that re-locks
template<typename M> void twotimed() {
    M m; Guarded g; int64_t t1 = mc::now_ns() + 5000000, t2 = t1 + 2000000; mc::milestone_ns(t1); mc::milestone_ns(t2);
    auto w = [&](int me, int64_t tp) {
        bool r = m.try_lock_until(at_ns(tp));
        if (r) { g.enter(me); g.leave(me); m.unlock(); } else MC_CHECKF(mc::now_ns() >= tp, "gave up early");
        mc::outcome("%d%d;", me, r);
    };
    m.lock(); g.enter(1);
    std::thread a([&] { bf::fiber x([&] { w(2, t1); }), y([&] { w(3, t2); }); x.join(); y.join(); });
    g.leave(1); m.unlock();
    m.lock(); g.enter(1); g.leave(1); m.unlock();
    a.join();
}
FORALL_TIMED(C07, twotimed, "two timed waiters of one thread, owner on another thread re-locks", twotimed, o.quick = 4; o.thorough = 5; o.timedev = true)

// the time points are far away: nobody gives up, whatever the schedule
template<typename M> void far() {
    M m; Guarded g; int n = 0; int64_t tp = mc::now_ns() + 3600000000000ll; bool fibers = mc::choose(2), rel = mc::choose(2);
    auto w = [&](int me) { MC_CHECKF(rel ? m.try_lock_for(ns(3600000000000ll)) : m.try_lock_until(at_ns(tp)), "gave up although the mutex becomes free"); g.enter(me); ++n; if (fibers) tf::yield(); g.leave(me); m.unlock(); };
    std::thread a([&] { w(2); }), b([&] { if (fibers) { bf::fiber x([&] { w(3); }), y([&] { w(4); }); x.join(); y.join(); } else { w(3); w(4); } });
    w(1); a.join(); b.join(); MC_CHECK(n == 4);
}
FORALL_TIMED(C07, far, "timed attempts with distant time points on three threads: all of them succeed", far, o.quick = 3; o.thorough = 4; o.spurious = true; o.nojump = true)

// size: anything that depends on how many there are
template<typename M> void many() {
    M m; int n = 1 + mc::choose(30), order = mc::choose(3), rel = mc::choose(n + 2), got = 0, out = 0; int64_t t0 = mc::now_ns(), T = t0 + 1000000 * rel + 500000; bool until = mc::choose(2); std::vector<bf::fiber> f; m.lock();
    for (int i = 0; i < n; ++i) { int d = 1 + (order == 0 ? i : order == 1 ? n - 1 - i : i * 11 % 31 % n); int64_t dl = t0 + 1000000 * d;
        f.emplace_back([&, dl] { bool r = until ? m.try_lock_until(at_ns(dl)) : m.try_lock_for(ns(dl - mc::now_ns())); int64_t now = mc::now_ns(); MC_CHECKF(r == (dl > T), "time point at %+lld us of the unlock: %s", (long long)(dl - T) / 1000, r ? "locked" : "timeout"); if (r) { ++got; tf::yield(); m.unlock(); } else { MC_CHECKF(now >= dl && now < dl + 200000, "timeout at %+lld ns", (long long)(now - dl)); ++out; } }); }
    tf::sleep_until(at_ns(T)); m.unlock(); for (auto& x : f) x.join(); MC_CHECK(got + out == n); MC_CHECK(m.try_lock()); m.unlock();
}
FORALL_TIMED(C07, many, "1..30 timed lockers with every spread of time points, unlock at every point in between", many, o.quick = 0; o.thorough = 0; o.nojump = true)
