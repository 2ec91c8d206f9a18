// C05 mutexes: mutual exclusion, no stuck waiter, documented errors
#include "common.h"

template<typename M> void mt2() {            // 2 threads, two critical sections each
    M m; Guarded g;
    auto body = [&](int me) { for (int i = 0; i < 2; ++i) { m.lock(); g.enter(me); g.leave(me); m.unlock(); } };
    std::thread t([&] { body(2); });
    body(1);
    t.join();
    MC_CHECK(g.value == 4);
}
FORALL_MUTEX(C05, mt2, "two threads, two critical sections each", mt2, o.quick = 5; o.thorough = 7)

template<typename M> void mt3() {
    M m; Guarded g;
    auto body = [&](int me) { m.lock(); g.enter(me); g.leave(me); m.unlock(); };
    std::thread t([&] { body(2); }), u([&] { body(3); });
    body(1);
    t.join(); u.join();
    MC_CHECK(g.value == 3);
}
FORALL_MUTEX(C05, mt3, "three threads, one critical section each", mt3, o.quick = 3; o.thorough = 5)

template<typename M> void mtf() {            // two fibers against another thread, yielding inside
    M m; Guarded g;
    auto body = [&](int me, bool y) { m.lock(); g.enter(me); if (y) tf::yield(); g.leave(me); m.unlock(); };
    std::thread t([&] { body(3, true); body(4, false); });
    bool y = mc::choose(2);
    bf::fiber a([&] { body(1, y); }), b([&] { body(2, true); });
    a.join(); b.join(); t.join();
    MC_CHECK(g.value == 4);
}
FORALL_MUTEX(C05, mtf, "two fibers of one thread against another thread, switching inside the section", mtf, o.quick = 4; o.thorough = 5)

template<typename M> void tryl() {           // try_lock against lock on other threads
    M m; Guarded g;
    std::thread t([&] { m.lock(); g.enter(2); g.leave(2); m.unlock(); });
    std::thread u([&] { if (m.try_lock()) { g.enter(3); g.leave(3); m.unlock(); } });
    bool got = m.try_lock();
    if (got) { g.enter(1); g.leave(1); m.unlock(); }
    t.join(); u.join();
    mc::outcome("%d", (int)got);
    // quiescent and free: must succeed, and be exclusive
    MC_CHECK(m.try_lock());
    std::thread v([&] { MC_CHECKF(!m.try_lock(), "try_lock succeeded on an owned lock"); });
    v.join();
    m.unlock();
    MC_CHECK(g.owner == 0);
}
FORALL_MUTEX(C05, tryl, "try_lock against lock and try_lock of other threads", tryl, o.quick = 4; o.thorough = 5)

template<typename M> void errs() {           // misuse while other threads contend: nothing changes
    M m; Guarded g;
    std::thread t([&] {
        // not the owner, whatever the state
        int e = err_of([&] { m.unlock(); });
        MC_CHECKF(is_err(e, std::errc::operation_not_permitted), "unlock by a non-owner: error %d", e);
        m.lock(); g.enter(2); g.leave(2); m.unlock();
        e = err_of([&] { m.unlock(); });
        MC_CHECKF(is_err(e, std::errc::operation_not_permitted), "second unlock: error %d", e);
    });
    m.lock(); g.enter(1);
    if (!is_rec<M>::value) {
        int e = err_of([&] { m.lock(); });
        MC_CHECKF(is_err(e, std::errc::resource_deadlock_would_occur), "relock: error %d", e);
        e = err_of([&] { m.try_lock(); });
        MC_CHECKF(is_err(e, std::errc::resource_deadlock_would_occur), "try_lock of own lock: error %d", e);
    }
    g.leave(1); m.unlock();
    t.join();
    MC_CHECK(g.value == 2);
}
FORALL_MUTEX(C05, errs, "misuse errors under contention leave the lock unchanged", errs, o.quick = 5; o.thorough = 7)

// every sequence of operations up to a depth, three fibers of one thread, against an ownership oracle
template<typename M> void seq() {
    constexpr bool rec = is_rec<M>::value;
    M m; int owner = 0, cnt = 0, inflight = 0; int depth = mc::thorough() ? 5 : 4;
    auto body = [&](int me) {
        for (int i = 0; i < depth; ++i) switch (mc::choose(4)) {
        case 0: {                                    // lock
            bool mine = owner == me;
            int e = err_of([&] { m.lock(); });
            if (mine && !rec) { MC_CHECKF(is_err(e, std::errc::resource_deadlock_would_occur), "relock: %d", e); MC_CHECK(owner == me); break; }
            MC_CHECKF(e == 0, "lock failed with %d", e);
            if (mine) { MC_CHECK(owner == me); cnt++; break; }
            MC_CHECKF(owner == 0, "lock() of %d returned while %d owns", me, owner);
            owner = me; cnt = 1; break; }
        case 1: {                                    // try_lock
            bool mine = owner == me, free = owner == 0 && inflight == 0; bool r = false;
            inflight++;
            int e = err_of([&] { r = m.try_lock(); });
            inflight--;
            if (mine && !rec) { MC_CHECKF(is_err(e, std::errc::resource_deadlock_would_occur), "try_lock of own lock: %d", e); MC_CHECK(owner == me); break; }
            MC_CHECK(e == 0);
            if (mine) { MC_CHECKF(r, "recursive try_lock failed"); cnt++; break; }
            if (free) MC_CHECKF(r, "try_lock failed on a free lock");
            if (r) { MC_CHECKF(owner == 0, "try_lock of %d succeeded while %d owns", me, owner); owner = me; cnt = 1; }
            break; }
        case 2: {                                    // unlock
            if (owner == me) { bool last = --cnt == 0; if (last) owner = 0; int e = err_of([&] { m.unlock(); }); MC_CHECKF(e == 0, "unlock by the owner failed with %d", e); }
            else { int e = err_of([&] { m.unlock(); }); MC_CHECKF(is_err(e, std::errc::operation_not_permitted), "unlock by a non-owner: %d", e); }
            break; }
        case 3: tf::yield(); break;
        }
        while (owner == me) { if (--cnt == 0) owner = 0; m.unlock(); }
    };
    bf::fiber a([&] { body(1); }), b([&] { body(2); });
    if (mc::thorough()) { bf::fiber c([&] { m.lock(); MC_CHECK(owner == 0); owner = 3; cnt = 1; tf::yield(); owner = 0; m.unlock(); }); c.join(); }
    a.join(); b.join();
    MC_CHECK(owner == 0);
    MC_CHECK(m.try_lock()); m.unlock();
}
FORALL_MUTEX(C05, seq, "all operation sequences of two/three fibers against the ownership oracle", seq, o.quick = 0; o.thorough = 0)

// size: anything that depends on how many there are
template<typename M> void many() {
    M m; Guarded g; int n = 1 + mc::choose(40), rounds = 1 + mc::choose(3), total = 0; bool again = mc::choose(2); std::vector<bf::fiber> f; m.lock();
    for (int i = 0; i < n; ++i) f.emplace_back([&, i] { for (int k = 0; k < rounds; ++k) { m.lock(); g.enter(i + 1); if (again) tf::yield(); ++total; g.leave(i + 1); m.unlock(); } });
    tf::yield(); m.unlock(); for (auto& x : f) x.join(); MC_CHECK(total == n * rounds); MC_CHECK(m.try_lock()); m.unlock();
}
FORALL_MUTEX(C05, many, "1..40 waiters", many, o.quick = 0; o.thorough = 0)
