// C08 condition variables lose no notification and hold the lock on return
#include "common.h"

// a user-defined lock for condition_variable_any
struct MyLock { bf::mutex& m; bool held{ false }; explicit MyLock(bf::mutex& x) : m(x) { lock(); }
    void lock() { m.lock(); MC_CHECK(!held); held = true; } void unlock() { MC_CHECK(held); held = false; m.unlock(); } ~MyLock() { if (held) unlock(); } };
template<int K> struct Kit;
template<> struct Kit<0> { using CV = bf::condition_variable; using M = bf::mutex; using L = std::unique_lock<bf::mutex>; static constexpr char const* n = "condition_variable"; };
template<> struct Kit<1> { using CV = bf::condition_variable_any; using M = bf::mutex; using L = std::unique_lock<bf::mutex>; };
template<> struct Kit<2> { using CV = bf::condition_variable_any; using M = bf::timed_mutex; using L = std::unique_lock<bf::timed_mutex>; };
template<> struct Kit<3> { using CV = bf::condition_variable_any; using M = bf::mutex; using L = MyLock; };
#define FORALL_CV(name, what, tmpl, ...) \
    MC_SCENARIO(C08, name##_cv, what " (condition_variable)", __VA_ARGS__) { tmpl<Kit<0>>(); } \
    MC_SCENARIO(C08, name##_any, what " (condition_variable_any, mutex)", __VA_ARGS__) { tmpl<Kit<1>>(); } \
    MC_SCENARIO(C08, name##_anytimed, what " (condition_variable_any, timed_mutex)", __VA_ARGS__) { tmpl<Kit<2>>(); } \
    MC_SCENARIO(C08, name##_anyuser, what " (condition_variable_any, user lock)", __VA_ARGS__) { tmpl<Kit<3>>(); }

// notifier sees the waiter has announced itself (under the mutex) and notifies once: the waiter must return
template<typename K> void one() {
    typename K::CV cv; typename K::M m; Guarded g; int announced = 0, notes = 0;
    bool after = mc::choose(2);
    std::thread t([&] {
        typename K::L lk(m); g.enter(2); announced = 1; g.leave(2);
        cv.wait(lk);
        g.enter(2); MC_CHECKF(notes == 1, "returned from an untimed wait without a notification"); g.leave(2);
    });
    for (;;) {
        typename K::L lk(m); g.enter(1); bool a = announced; g.leave(1);
        if (a) { notes = 1; if (after) { lk.unlock(); cv.notify_one(); } else cv.notify_one(); break; }
        lk.unlock(); tf::yield(); mc::yield();
    }
    t.join();
}
FORALL_CV(one, "single waiter on another thread, notified once under or after the lock", one, o.quick = 4; o.thorough = 6; o.spurious = true)

// two waiters (threads), two notify_one: both must return, none before its notification
template<typename K> void two() {
    typename K::CV cv; typename K::M m; Guarded g; int waiting = 0, notes = 0, woken = 0;
    auto w = [&](int me) {
        typename K::L lk(m); waiting++;
        cv.wait(lk);
        g.enter(me); woken++; MC_CHECKF(woken <= notes, "more waiters returned (%d) than notifications were issued (%d)", woken, notes); g.leave(me);
    };
    std::thread a([&] { w(2); }), b([&] { w(3); });
    int sent = 0;
    while (sent < 2) {
        typename K::L lk(m);
        if (waiting > sent) { notes++; cv.notify_one(); sent++; }
        lk.unlock(); tf::yield(); mc::yield();
    }
    a.join(); b.join();
}
FORALL_CV(two, "two waiting threads, one notify_one per registered waiter", two, o.quick = 2; o.thorough = 3; o.spurious = true)

// notify_all releases everybody already waiting: fibers of two threads
template<typename K> void all() {
    typename K::CV cv; typename K::M m; Guarded g; int waiting = 0; bool go = false; int woken = 0;
    auto w = [&](int me) {
        typename K::L lk(m); waiting++;
        cv.wait(lk);
        g.enter(me); MC_CHECKF(go, "returned without notification"); woken++; g.leave(me);
    };
    std::thread t([&] { bf::fiber x([&] { w(2); }), y([&] { w(3); }); x.join(); y.join(); });
    bf::fiber z([&] { w(4); });
    for (;;) {
        typename K::L lk(m); if (waiting == 3) { go = true; cv.notify_all(); break; }
        lk.unlock(); tf::yield(); mc::yield();
    }
    t.join(); z.join();
    MC_CHECK(woken == 3);
}
FORALL_CV(all, "notify_all with waiters on two threads", all, o.quick = 3; o.thorough = 4; o.spurious = true)

// predicate loop, producer/consumer style, notify_one per item, two consumers
template<typename K> void items() {
    typename K::CV cv; typename K::M m; int items = 0; int eaten = 0;
    auto c = [&] { typename K::L lk(m); cv.wait(lk, [&] { return items > 0; }); MC_CHECK(items > 0); items--; eaten++; };
    std::thread a([&] { c(); });
    std::thread b([&] { bf::fiber x([&] { c(); }); x.join(); });
    for (int i = 0; i < 2; ++i) { bool in = mc::choose(2); { typename K::L lk(m); items++; if (in) cv.notify_one(); } if (!in) cv.notify_one(); }
    a.join(); b.join();
    MC_CHECK(items == 0 && eaten == 2);
}
FORALL_CV(items, "two consumers with predicate, one notify_one per item", items, o.quick = 3; o.thorough = 4)

// one thread: every interleaving of waits, notify_one and notify_all by fibers against a counting oracle
template<typename K> void st() {
    typename K::CV cv; typename K::M m; Guarded g; int waiting = 0, tokens = 0, woken = 0; bool done = false;
    auto w = [&](int me) {
        for (int r = 0; r < 2; ++r) {
            if (mc::choose(2)) tf::yield();
            typename K::L lk(m); waiting++;
            cv.wait(lk);
            g.enter(me); MC_CHECKF(tokens > 0, "returned without notification"); tokens--; woken++; g.leave(me);
        }
    };
    bf::fiber a([&] { w(2); }), b([&] { w(3); });
    auto n = [&] {
        for (int r = 0; r < 3; ++r) {
            switch (mc::choose(4)) {
            case 0: { typename K::L lk(m); if (waiting) { waiting--; tokens++; } cv.notify_one(); break; }
            case 1: { typename K::L lk(m); tokens += waiting; waiting = 0; cv.notify_all(); break; }
            case 2: { typename K::L lk(m); if (waiting) { waiting--; tokens++; } lk.unlock(); cv.notify_one(); break; }
            case 3: tf::yield(); break;
            }
        }
    };
    bf::fiber c([&] { n(); }), d([&] { if (mc::thorough()) n(); });
    c.join(); d.join();
    // everything notified so far must come back without further help
    while (tokens) { int before = tokens; tf::yield(); tf::yield(); tf::yield(); MC_CHECKF(tokens < before, "a notified waiter did not return"); }
    // release the rest
    while (woken < 4) { typename K::L lk(m); tokens += waiting; waiting = 0; cv.notify_all(); lk.unlock(); tf::yield(); }
    a.join(); b.join();
}
FORALL_CV(st, "waits and notifications of fibers of one thread in every order", st, o.quick = 0; o.thorough = 0)

// size: anything that depends on how many there are
template<typename K> void many() {
    typename K::CV cv; typename K::M m; int n = 1 + mc::choose(40), first = mc::choose(41), released = 0, done = 0; if (first > n) first = n; std::vector<bf::fiber> f; bool inside = mc::choose(2);
    for (int i = 0; i < n; ++i) f.emplace_back([&] { typename K::L lk(m); cv.wait(lk); MC_CHECKF(done < released, "a waiter returned without a notification"); ++done; });
    tf::yield();
    for (int i = 0; i < first; ++i) { typename K::L lk(m); ++released; if (!inside) lk.unlock(); cv.notify_one(); }
    for (int i = 0; i < 4; ++i) tf::yield();
    MC_CHECKF(done == first, "%d notifications released %d of %d waiters", first, done, n);
    released = n; cv.notify_all(); for (auto& x : f) x.join(); MC_CHECK(done == n);
}
FORALL_CV(many, "1..40 waiters, every number of notify_one, then notify_all", many, o.quick = 0; o.thorough = 0)

// re-acquiring the user's lock fails: wait() does not return as if nothing had happened
struct SickLock { bf::mutex& m; bool held{ false }, sick{ false }; explicit SickLock(bf::mutex& x) : m(x) { lock(); }
    void lock() { if (sick) throw std::runtime_error("sick"); m.lock(); held = true; } void unlock() { held = false; m.unlock(); } ~SickLock() { if (held) unlock(); } };
MC_SCENARIO(C08, relock_fails, "the lock given to condition_variable_any cannot be re-acquired", o.quick = 0; o.thorough = 0) {
    bf::condition_variable_any cv; bf::mutex m; int form = mc::choose(4); bool go = false, notify = form == 0 || mc::choose(2);
    bf::fiber f([&] { SickLock l(m); l.sick = true; try { if (form == 0) cv.wait(l); else if (form == 1) cv.wait_for(l, ms(5)); else if (form == 2) cv.wait_until(l, at_ns(mc::now_ns() + 5000000)); else cv.wait_for(l, ms(5), [&] { return go; }); } catch (std::runtime_error const&) { mc::outcome("exception"); return; }
        MC_CHECKF(l.held, "wait returned without the lock"); });
    tf::yield(); mc::outcome("terminate"); mc::expect_terminate(true); if (notify) { go = true; cv.notify_one(); } f.join(); mc::expect_terminate(false);
}
