// C03 a wake-up from another thread is never lost
#include "prim.h"

#define TWO(NAME, PRIM) MC_SCENARIO(C03, NAME, "blocked on one thread, released by another", o.quick = 5; o.thorough = 7; o.spurious = true) { two(PRIM, false); } \
    MC_SCENARIO(C03, NAME##_mon, "the same under a monitored algorithm", o.quick = 4; o.thorough = 6) { two(PRIM, true); }
TWO(mutex, MUTEX) TWO(timed_mutex, TIMED) TWO(recursive, RECURSIVE) TWO(recursive_timed, RECTIMED) TWO(cv, CV) TWO(cv_timed, CV_TIMED) TWO(cv_any, CVANY) TWO(barrier, BARRIER) TWO(buf_pop, BUF_POP) TWO(buf_push, BUF_PUSH) TWO(unb_pop, UNB_POP) TWO(unb_push, UNB_PUSH) TWO(future, FUTURE) TWO(shared_future, SHARED) TWO(try_lock_for, MUTEX_TRY) TWO(buf_pop_timed, BUF_POP_T) TWO(unb_pop_timed, UNB_POP_T) TWO(unb_push_timed, UNB_PUSH_T)
// stale reads: the release must also be found with weakly ordered memory
#define WEAK(NAME, PRIM) MC_SCENARIO(C03, NAME##_weak, "blocked on one thread, released by another, loads may be stale", o.quick = 4; o.thorough = 5; o.weak = true) { two(PRIM, false); }
WEAK(mutex, MUTEX) WEAK(cv, CV) WEAK(buf_pop, BUF_POP) WEAK(unb_pop, UNB_POP) WEAK(unb_push, UNB_PUSH) WEAK(future, FUTURE) WEAK(barrier, BARRIER)

// a second round: the wake-up of the first suspension must not be mistaken for that of the second, and vice versa
static void twice(int prim) {
    P p(prim), q(prim); q.prepare(); p.prepare(); int runs = 0; bool fib = mc::choose(2);
    std::thread t([&] { auto w = [&] { p.block(); ++runs; q.block(); ++runs; }; if (fib) bf::fiber(w).join(); else w(); });
    p.rel(); q.rel(); t.join(); MC_CHECK(runs == 2);
}
MC_SCENARIO(C03, twice_mutex, "two suspensions in a row (mutex)", o.quick = 3; o.thorough = 5) { twice(MUTEX); }
MC_SCENARIO(C03, twice_cv, "two suspensions in a row (cv)", o.quick = 3; o.thorough = 5) { twice(CV_TIMED); }
MC_SCENARIO(C03, twice_future, "two suspensions in a row (future)", o.quick = 3; o.thorough = 5) { twice(FUTURE); }
MC_SCENARIO(C03, twice_unb, "two suspensions in a row (unbuffered)", o.quick = 3; o.thorough = 4) { twice(UNB_POP); }
MC_SCENARIO(C03, twice_buf, "two suspensions in a row (buffered)", o.quick = 3; o.thorough = 4) { twice(BUF_POP_T); }

// a timeout races with the wake-up: one resumption per suspension, and a later suspension is not disturbed by the stale waker
MC_SCENARIO(C03, stale_waker, "timeout and remote notification race, then the fiber suspends again", o.quick = 3; o.thorough = 5; o.timedev = true) {
    bf::mutex m; bf::condition_variable c; bool flag = false; bf::promise<int> p; auto f = p.get_future(); int64_t tp = mc::now_ns() + 1000000; mc::milestone_ns(tp); bool fib = mc::choose(2); int data = 0;
    std::thread t([&] { auto w = [&] { { std::unique_lock<bf::mutex> l(m); if (!flag) (void)c.wait_until(l, at_ns(tp)); } int v = f.get(); MC_CHECKF(v == 5 && data == 1, "second suspension ended early"); tf::sleep_until(at_ns(tp + 1000000)); MC_CHECKF(mc::now_ns() >= tp + 1000000, "sleep ended early by a stale wake-up"); };
        if (fib) bf::fiber(w).join(); else w(); });
    { std::unique_lock<bf::mutex> l(m); flag = true; } c.notify_one();
    data = 1; p.set_value(5); t.join();
}
// two releasers for two blocked fibers of one thread
MC_SCENARIO(C03, two_releasers, "two threads wake two fibers of a third thread going idle", o.quick = 3; o.thorough = 4; o.spurious = true) {
    bf::promise<int> a, b; auto fa = a.get_future(), fb = b.get_future(); int sum = 0;
    std::thread t([&] { a.set_value(1); }), u([&] { b.set_value(2); });
    bf::fiber x([&] { sum += fa.get(); }); sum += fb.get(); x.join(); MC_CHECK(sum == 3);
    t.join(); u.join();
}
// ring: three threads pass a token through channels
MC_SCENARIO(C03, ring, "three threads pass a token", o.quick = 2; o.thorough = 3) {
    bf::unbuffered_channel<int> a, b; bf::buffered_channel<int> c(2); int got = 0;
    std::thread t([&] { int v = 0; for (int i = 0; i < 2; ++i) { a.pop(v); b.push(v + 1); } }), u([&] { int v = 0; for (int i = 0; i < 2; ++i) { b.pop(v); c.push(v + 1); } });
    for (int i = 0; i < 2; ++i) { a.push(10 * i); c.pop(got); MC_CHECK(got == 10 * i + 2); }
    t.join(); u.join();
}
// the idle thread has a sleeper: remote wake-up before, at and after its deadline
MC_SCENARIO(C03, idle_sleeper, "remote wake-up of a thread that sleeps until a deadline", o.quick = 4; o.thorough = 6; o.timedev = true; o.spurious = true) {
    bf::promise<int> p; auto f = p.get_future(); int64_t tp = mc::now_ns() + 1000000; mc::milestone_ns(tp); mc::milestone_ns(tp - 1); int data = 0;
    std::thread t([&] { data = 3; p.set_value(1); });
    bf::fiber s([&] { tf::sleep_until(at_ns(tp)); MC_CHECK(mc::now_ns() >= tp); });
    MC_CHECK(f.get() == 1 && data == 3); s.join(); t.join();
}

// size: anything that depends on how many there are
MC_SCENARIO(C03, many, "another thread releases 1..40 fibers", o.quick = 1; o.thorough = 2) {
    int n = 1 + mc::choose(mc::thorough() ? 40 : 24), how = mc::choose(3), done = 0; bf::mutex m; bf::condition_variable c; bool go = false; bf::promise<void> p; auto sf = p.get_future().share(); bf::buffered_channel<int> ch(64);
    std::thread t([&] { std::vector<bf::fiber> f; for (int i = 0; i < n; ++i) f.emplace_back([&] { switch (how) { case 0: { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); break; } case 1: sf.wait(); break; case 2: { int v; ch.pop(v); break; } } ++done; }); for (auto& x : f) x.join(); });
    if (how == 0) { std::unique_lock<bf::mutex> l(m); go = true; c.notify_all(); } else if (how == 1) p.set_value(); else for (int i = 0; i < n; ++i) ch.push(i);
    t.join(); MC_CHECK(done == n);
}
