// C09 timed condition waits report what happened and do not eat notifications
#include "common.h"

template<int K> struct Kit;
template<> struct Kit<0> { using CV = bf::condition_variable; using M = bf::mutex; using L = std::unique_lock<bf::mutex>; };
template<> struct Kit<1> { using CV = bf::condition_variable_any; using M = bf::recursive_mutex; using L = std::unique_lock<bf::recursive_mutex>; };
#define FORALL_CV(name, what, tmpl, ...) \
    MC_SCENARIO(C09, name##_cv, what " (condition_variable)", __VA_ARGS__) { tmpl<Kit<0>>(); } \
    MC_SCENARIO(C09, name##_any, what " (condition_variable_any)", __VA_ARGS__) { tmpl<Kit<1>>(); }

template<typename K> bf::cv_status twait(typename K::CV& cv, typename K::L& lk, int64_t tp, bool rel) {
    return rel ? cv.wait_for(lk, ns(tp - mc::now_ns())) : cv.wait_until(lk, at_ns(tp));
}

// one timed waiter, one untimed waiter, one notify_one: the notification reaches exactly one of them
template<typename K> void share_mt() {
    typename K::CV cv; typename K::M m; Guarded g; int waiting = 0, notes = 0; bool w1done = false, w2done = false; bf::cv_status st = bf::cv_status::no_timeout; bool rel = mc::choose(2);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1);
    std::thread a([&] {
        typename K::L lk(m); waiting |= 1;
        st = twait<K>(cv, lk, tp, rel);
        g.enter(2); if (st == bf::cv_status::timeout) { MC_CHECKF(mc::now_ns() >= tp, "timeout reported before the time point"); if (!notes) waiting &= ~1; }
        else MC_CHECKF(notes > 0, "no_timeout without a notification");
        w1done = true; g.leave(2);
    });
    std::thread b([&] {
        typename K::L lk(m); waiting |= 2;
        cv.wait(lk);
        g.enter(3); MC_CHECKF(notes > 0, "untimed wait returned without notification"); w2done = true; g.leave(3);
    });
    int seen;
    for (;;) { typename K::L lk(m); if (waiting & 2) { seen = waiting; notes = 1; cv.notify_one(); break; } lk.unlock(); tf::yield(); mc::yield(); }
    a.join();   // the timed waiter always returns by itself
    bool must; { typename K::L lk(m); must = st == bf::cv_status::timeout || !(seen & 1); mc::outcome("%d%d", (int)st, seen); }
    if (must && !(seen & 1) && st == bf::cv_status::no_timeout) MC_CHECKF(false, "a later waiter consumed the notification");
    if (!must) { typename K::L lk(m); MC_CHECKF(!w2done, "one notify_one released two waiters"); notes = 2; cv.notify_one(); }
    b.join();   // hangs if the notification was swallowed
}
FORALL_CV(share_mt, "timed and untimed waiter, one notify_one, time passing at every step (3 threads)", share_mt, o.quick = 2; o.thorough = 3; o.timedev = true; o.spurious = true)

// the same with fibers of one thread; the notifier is busy across the deadline
template<typename K> void share_st() {
    typename K::CV cv; typename K::M m; Guarded g; int notes = 0; bool w2 = false; bf::cv_status st{}; bool w1done = false; bool reg1 = false;
    int64_t tp = mc::now_ns() + 5000000; int64_t busy[4] = { 0, 4999999, 5000000, 7000000 }; bool rel = mc::choose(2), first = mc::choose(2);
    auto timed = [&] { typename K::L lk(m); reg1 = true; st = twait<K>(cv, lk, tp, rel); g.enter(2); if (st == bf::cv_status::timeout) MC_CHECKF(mc::now_ns() >= tp, "early timeout"); else MC_CHECKF(notes, "no_timeout without notification"); w1done = true; g.leave(2); };
    auto untimed = [&] { typename K::L lk(m); cv.wait(lk); g.enter(3); MC_CHECKF(notes, "returned without notification"); w2 = true; g.leave(3); };
    bf::fiber a([&] { if (first) timed(); else untimed(); });
    bf::fiber b([&] { if (first) untimed(); else timed(); });
    tf::yield(); tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    if (mc::choose(2)) { tf::yield(); mc::advance_ns(busy[mc::choose(4)]); }
    { typename K::L lk(m); notes = 1; cv.notify_one(); }
    mc::advance_ns(busy[mc::choose(4)]);
    for (int i = 0; i < 3; ++i) { if (mc::choose(2)) mc::advance_ns(1000000); tf::yield(); }
    tf::sleep_until(at_ns(std::max<int64_t>(tp, mc::now_ns()) + 1000000));
    MC_CHECKF(w1done, "timed waiter did not return after its time point");
    if (st == bf::cv_status::timeout) { MC_CHECKF(w2, "notification swallowed by a waiter that reported timeout"); }
    else { MC_CHECKF(!w2, "one notify_one released two waiters"); typename K::L lk(m); notes = 2; cv.notify_one(); }
    a.join(); b.join();
    mc::outcome("%d", (int)st);
}
FORALL_CV(share_st, "timed and untimed waiter of one thread, notifier busy across the deadline", share_st, o.quick = 0; o.thorough = 0)

// predicate forms return the predicate; the mutex is owned; past time points do not block
template<typename K> void pred() {
    typename K::CV cv; typename K::M m; Guarded g; bool flag = false; int64_t d[4] = { -1000, 0, 1, 3000000 };
    int64_t tp = mc::now_ns() + d[mc::choose(4)]; mc::milestone_ns(tp); bool rel = mc::choose(2);
    std::thread t([&] { { typename K::L lk(m); g.enter(2); flag = true; g.leave(2); } cv.notify_one(); });
    {
        typename K::L lk(m);
        int64_t t0 = mc::now_ns();
        bool r = rel ? cv.wait_for(lk, ns(tp - mc::now_ns()), [&] { return flag; }) : cv.wait_until(lk, at_ns(tp), [&] { return flag; });
        g.enter(1);
        MC_CHECKF(r == flag, "predicate wait returned %d while the predicate is %d", r, flag);
        if (!r) MC_CHECKF(mc::now_ns() >= tp, "returned false before the time point");
        g.leave(1);
        mc::outcome("%d", r); (void)t0;
    }
    t.join();
}
FORALL_CV(pred, "predicate forms with a notifier on another thread, also past time points", pred, o.quick = 4; o.thorough = 5; o.timedev = true; o.spurious = true)

// only timed waiters, no notification: all time out, at their own time points, nobody else needed
template<typename K> void lonely() {
    typename K::CV cv; typename K::M m; Guarded g; int64_t now = mc::now_ns(); int n = 0;
    auto w = [&](int me, int64_t tp) { typename K::L lk(m); auto s = twait<K>(cv, lk, tp, me & 1); g.enter(me); MC_CHECKF(s == bf::cv_status::timeout, "no_timeout without notification"); MC_CHECK(mc::now_ns() >= tp); n++; g.leave(me); };
    std::thread t([&] { w(3, now + 2000000); });
    bf::fiber a([&] { w(1, now + 3000000); }), b([&] { w(2, now + 1000000 * mc::choose(4)); });
    a.join(); b.join(); t.join();
    MC_CHECK(n == 3);
    cv.notify_all(); cv.notify_one();
}
FORALL_CV(lonely, "timed waiters without notification", lonely, o.quick = 3; o.thorough = 4; o.spurious = true)

// the time points are far away: nobody times out, whatever the schedule
template<typename K> void far() {
    typename K::CV cv; typename K::M m; Guarded g; int tokens = 0, n = 0; int64_t tp = mc::now_ns() + 3600000000000ll; bool pred = mc::choose(2), inside = mc::choose(2), all = mc::choose(2), rel = mc::choose(2);
    auto w = [&](int me) { typename K::L lk(m); if (pred) MC_CHECKF(rel ? cv.wait_for(lk, ns(3600000000000ll), [&] { return tokens > 0; }) : cv.wait_until(lk, at_ns(tp), [&] { return tokens > 0; }), "timed out although notified"); else while (!tokens) MC_CHECKF(twait<K>(cv, lk, tp, rel) == bf::cv_status::no_timeout, "timed out although notified"); g.enter(me); --tokens; ++n; g.leave(me); };
    std::thread a([&] { w(2); }), b([&] { w(3); });
    for (int i = 0; i < 2; ++i) { typename K::L lk(m); ++tokens; if (!inside) lk.unlock(); if (all) cv.notify_all(); else cv.notify_one(); }
    a.join(); b.join(); MC_CHECK(n == 2 && tokens == 0);
}
FORALL_CV(far, "timed waiters with distant time points on two threads: every notification arrives", far, o.quick = 2; o.thorough = 4; o.spurious = true; o.nojump = true)

// size: anything that depends on how many there are
template<typename CV> void many() {
    CV cv; bf::mutex m; int n = 1 + mc::choose(16), order = mc::choose(2), rel = mc::choose(n + 2), k = mc::choose(n + 2), got = 0, out = 0, alive = 0; int64_t t0 = mc::now_ns(), T = t0 + 1000000 * rel + 500000; std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) { int64_t dl = t0 + 1000000 * (1 + (order == 0 ? i : n - 1 - i)); alive += dl > T;
        f.emplace_back([&, dl] { std::unique_lock<bf::mutex> l(m); auto r = cv.wait_until(l, at_ns(dl)); int64_t now = mc::now_ns(); MC_CHECK(l.owns_lock()); if (r == bf::cv_status::no_timeout) { MC_CHECKF(now >= T && dl > T, "no_timeout although nobody notified in time"); ++got; } else { MC_CHECKF(now >= dl && now < dl + 200000, "timeout at %+lld ns", (long long)(now - dl)); ++out; } }); }
    tf::sleep_until(at_ns(T)); if (k > n) { std::unique_lock<bf::mutex> l(m); cv.notify_all(); } else for (int i = 0; i < k; ++i) { std::unique_lock<bf::mutex> l(m); cv.notify_one(); }
    for (auto& x : f) x.join(); int want = k < alive ? k : alive; MC_CHECKF(got == want && out == n - want, "%d notifications, %d waiting: %d no_timeout, %d timeout", k, alive, got, out);
}
MC_SCENARIO(C09, many_cv, "1..16 timed waiters, every number of notifications at every point in between (condition_variable)", o.quick = 0; o.thorough = 0; o.nojump = true) { many<bf::condition_variable>(); }
MC_SCENARIO(C09, many_any, "1..16 timed waiters, every number of notifications at every point in between (condition_variable_any)", o.quick = 0; o.thorough = 0; o.nojump = true) { many<bf::condition_variable_any>(); }
