// C17 abandoned promises break, shared and timed future waits agree
#include "fut.h"
#define FORALL_KIT(prop, name, what, tmpl, ...) \
    MC_SCENARIO(prop, name##_value, what " (value)", __VA_ARGS__) { tmpl<KVal>(); } \
    MC_SCENARIO(prop, name##_moveonly, what " (move-only)", __VA_ARGS__) { tmpl<KPtr>(); } \
    MC_SCENARIO(prop, name##_ref, what " (reference)", __VA_ARGS__) { tmpl<KRef>(); } \
    MC_SCENARIO(prop, name##_void, what " (void)", __VA_ARGS__) { tmpl<KVoid>(); }

template<typename K> void programs() {
    FBal bal; FutModel<K> m; static int const ops[] = { 0, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 15 }; int n = mc::thorough() ? 5 : 4;
    m.step(0, 0);
    for (int k = 0; k < n; ++k) { int c = mc::choose(24); m.step(ops[c % 12], c / 12); }
}
FORALL_KIT(C17, programs, "every sequence of share, copy, move, abandon, set and get after get_future", programs, o.quick = 0; o.thorough = 0)

template<typename R> void give_up(bf::promise<R>&& p, int how) {
    switch (how) { case 0: { bf::promise<R> q(std::move(p)); break; } case 1: { p = bf::promise<R>(); break; } case 2: { bf::promise<R> q; q.swap(p); break; } case 3: { bf::promise<R> q, r; q = std::move(p); q = std::move(r); break; } }
}
// abandoned on another thread while somebody waits
template<typename K> void broken() {
    FBal bal; using R = typename K::R; bf::promise<R> p; auto f = p.get_future(); int how = mc::choose(4), wait = mc::choose(4);
    std::thread t([&, q = std::move(p)]() mutable { give_up<R>(std::move(q), how); });
    int r;
    if (wait == 0) r = res([&] { return K::get(f); });
    else if (wait == 1) { f.wait(); r = res([&] { return K::get(f); }); }
    else if (wait == 2) { while (f.wait_for(ms(10000)) != bf::future_status::ready) {} r = eptr(f.get_exception_ptr()); }
    else { auto s = f.share(); r = res([&] { return K::sget(s); }); MC_CHECK(res([&] { return K::sget(s); }) == r); }
    MC_CHECKF(r == BROKEN, "an abandoned promise yields %d", r);
    t.join();
}
FORALL_KIT(C17, broken, "promise abandoned on another thread in every way", broken, o.quick = 3; o.thorough = 5)

// two waiters with copies of a shared_future, setter/breaker
template<typename K> void shared() {
    FBal bal; using R = typename K::R; bf::promise<R> p; int data = 0; int what = mc::choose(3);
    bf::shared_future<R> s = p.get_future().share();
    auto w = [&data, what](bf::shared_future<R> const& s) { int r = res([&] { return K::sget(s); }); MC_CHECK(data == 1); MC_CHECKF(r == (what == 0 ? (std::is_void<R>::value ? OK : 6) : what == 1 ? BOOM - 5 : BROKEN), "got %d", r); MC_CHECK(res([&] { return K::sget(s); }) == r); };
    std::thread a([&, c = s] { w(c); }), b([&, c = s]() mutable { bf::fiber x([&] { w(c); }); x.join(); c = bf::shared_future<R>(); });
    s = bf::shared_future<R>();
    data = 1;
    if (what == 0) K::set(p, 6); else if (what == 1) p.set_exception(std::make_exception_ptr(Boom{ 5 })); else give_up<R>(std::move(p), 0);
    a.join(); b.join();
}
FORALL_KIT(C17, shared, "copies of a shared_future on two threads; set, failed or abandoned by a third", shared, o.quick = 2; o.thorough = 3)

// timed waits: ready iff available, timeout not early
template<typename K> void timed() {
    FBal bal; using R = typename K::R; bf::promise<R> p; auto f = p.get_future(); bool sh = mc::choose(2), rel = mc::choose(2), brk = mc::choose(2);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1); int set = 0;
    std::thread t([&, q = std::move(p)]() mutable { mc::reg(0) = 1; if (brk) give_up<R>(std::move(q), 0); else K::set(q, 6); mc::reg(0) = 2; });
    bf::future_status st;
    if (sh) { bf::shared_future<R> s = f.share(); st = rel ? s.wait_for(ns(tp - mc::now_ns())) : s.wait_until(at_ns(tp));
        if (st == bf::future_status::ready) { MC_CHECK(mc::reg(0) >= 1); MC_CHECK(res([&] { return K::sget(s); }) == (brk ? BROKEN : std::is_void<R>::value ? OK : 6)); } }
    else { st = rel ? f.wait_for(ns(tp - mc::now_ns())) : f.wait_until(at_ns(tp));
        if (st == bf::future_status::ready) { MC_CHECKF(mc::reg(0) >= 1, "ready before the result was set"); MC_CHECK(res([&] { return K::get(f); }) == (brk ? BROKEN : std::is_void<R>::value ? OK : 6)); } }
    if (st == bf::future_status::timeout) MC_CHECKF(mc::now_ns() >= tp, "timeout before the time point");
    else MC_CHECK(st == bf::future_status::ready);
    mc::outcome("%d", (int)st); (void)set;
    t.join();
}
FORALL_KIT(C17, timed, "timed wait races with the setter, time passing at every step", timed, o.quick = 3; o.thorough = 5; o.timedev = true; o.spurious = true)

// timed wait in one thread with the setter busy across the deadline
template<typename K> void timed_st() {
    FBal bal; using R = typename K::R; bf::promise<R> p; auto f = p.get_future(); int64_t tp = mc::now_ns() + 5000000; int64_t busy[5] = { 0, 1, 4999999, 5000000, 7000000 }; bool set = false, done = false; bool rel = mc::choose(2);
    bf::fiber w([&] { auto st = rel ? f.wait_for(ms(5)) : f.wait_until(at_ns(tp)); done = true; MC_CHECKF((st == bf::future_status::ready) == set, "wait reports %s although the result is %savailable", st == bf::future_status::ready ? "ready" : "timeout", set ? "" : "not "); if (!set) MC_CHECK(mc::now_ns() >= tp); mc::outcome("%d", (int)st); });
    if (mc::choose(2)) { tf::yield(); }
    mc::advance_ns(busy[mc::choose(5)]); if (mc::choose(2)) tf::yield();
    set = true; K::set(p, 6); mc::advance_ns(busy[mc::choose(5)]);
    tf::yield(); tf::yield();
    MC_CHECKF(done, "waiter not resumed although the result is available");
    w.join(); MC_CHECK(res([&] { return K::get(f); }) == (std::is_void<R>::value ? OK : 6));
}
FORALL_KIT(C17, timed_st, "timed wait and setter fibers of one thread, setter busy across the deadline", timed_st, o.quick = 0; o.thorough = 0)

// packaged_task abandoned
MC_SCENARIO(C17, task_broken, "packaged_task abandoned on another thread (destroyed, overwritten, reset)", o.quick = 3; o.thorough = 5) {
    bf::packaged_task<int()> t([] { return 7; }); auto f = t.get_future(); int how = mc::choose(4);
    std::thread a([&, q = std::move(t)]() mutable { switch (how) { case 0: { bf::packaged_task<int()> r(std::move(q)); break; } case 1: q = bf::packaged_task<int()>(); break; case 2: { bf::packaged_task<int()> r; r.swap(q); break; }
        case 3: { q.reset(); auto g = q.get_future(); q(); MC_CHECK(g.get() == 7); break; } } });
    MC_CHECK(res([&] { return f.get(); }) == BROKEN);
    a.join();
}
// a fiber with a packaged_task that is never run to its end does not leave waiters behind: the future taken from async
MC_SCENARIO(C17, async_throw, "async whose function throws: the waiter gets the exception, on another thread", o.quick = 3; o.thorough = 4) {
    bf::promise<bf::shared_future<int>> hand; auto hf = hand.get_future();
    std::thread a([&] { hand.set_value(bf::async([]() -> int { tf::yield(); throw Boom{ 3 }; }).share()); tf::yield(); });
    auto s = hf.get(); MC_CHECK(res([&] { return s.get(); }) == BOOM - 3);
    a.join();
}
// the time point is far away: a timed wait ends with the result, whatever the schedule
MC_SCENARIO(C17, far, "timed waits with distant time points on two threads, the result comes: ready", o.quick = 2; o.thorough = 5; o.spurious = true; o.nojump = true) {
    FBal bal; bf::promise<int> p; auto f = p.get_future().share(); int64_t tp = mc::now_ns() + 3600000000000ll; int how = mc::choose(3); bool rel = mc::choose(2);
    auto w = [&] { MC_CHECKF((rel ? f.wait_for(ms(3600000)) : f.wait_until(at_ns(tp))) == bf::future_status::ready, "timed out although the result was set"); MC_CHECK(res([&] { return f.get(); }) == (how == 0 ? 5 : how == 1 ? res([]() -> int { throw std::runtime_error("x"); }) : BROKEN)); };
    std::thread a(w), b([&] { bf::fiber x(w), y(w); x.join(); y.join(); });
    if (how == 0) p.set_value(5); else if (how == 1) p.set_exception(std::make_exception_ptr(std::runtime_error("x"))); else p = bf::promise<int>();
    a.join(); b.join();
}

// size: anything that depends on how many there are
MC_SCENARIO(C17, many, "1..40 waiters on copies of a shared future, every way to wait and to set", o.quick = 0; o.thorough = 0) {
    FBal bal; int n = 1 + mc::choose(40), how = mc::choose(3), wait = mc::choose(4), ok = 0; bf::promise<int> p; auto sf = p.get_future().share(); std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) f.emplace_back([&, s = sf] { switch (wait) { case 0: s.wait(); break; case 1: MC_CHECK(s.wait_for(ms(100000)) == bf::future_status::ready); break; case 2: MC_CHECK(s.wait_until(at_ns(mc::now_ns() + 1000000000)) == bf::future_status::ready); break; default: break; } int r = res([&]() -> int { return s.get(); }); MC_CHECKF(r == (how == 0 ? 5 : how == 1 ? BOOM - 3 : BROKEN), "waiter got %d", r); ++ok; });
    tf::yield(); if (how == 0) p.set_value(5); else if (how == 1) p.set_exception(std::make_exception_ptr(Boom{ 3 })); else p = bf::promise<int>();
    for (auto& x : f) x.join(); MC_CHECK(ok == n);
}
