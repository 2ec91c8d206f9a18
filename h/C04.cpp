// C04 sleeps and timeouts never fire early and always fire
#include "algo.h"
#include "fut.h"

static constexpr int64_t MS = 1000000;
// one timed wait that nobody will satisfy; returns true if it reported a timeout
enum W { SLEEP_UNTIL, SLEEP_FOR, CV_UNTIL, CV_FOR, CV_PRED, MTX, RMTX, FUT, SFUT, BUFPOP, BUFPUSH, UNBPOP, UNBPUSH, CVA, NW };
struct Never {
    bf::mutex m; bf::timed_mutex tm; bf::recursive_timed_mutex rtm; bf::condition_variable c; bf::condition_variable_any ca; bf::promise<void> p, q; bf::future<void> f; bf::shared_future<void> s; bf::buffered_channel<int> ch{ 2 }, full{ 2 }; bf::unbuffered_channel<int> uc;
    Never() : f(p.get_future()), s(q.get_future().share()) { full.push(1); }
    // somebody else (a fiber) owns the mutexes meanwhile
    void own() { tm.lock(); rtm.lock(); } void disown() { tm.unlock(); rtm.unlock(); }
    bool wait(int w, int64_t tp) {
        auto T = at_ns(tp); auto D = ns(tp - mc::now_ns()); bool rel = w & 1; (void)rel;
        switch (w) {
        case SLEEP_UNTIL: tf::sleep_until(T); return true;
        case SLEEP_FOR: tf::sleep_for(D); return true;
        case CV_UNTIL: { std::unique_lock<bf::mutex> l(m); bool r = c.wait_until(l, T) == bf::cv_status::timeout; MC_CHECK(l.owns_lock()); return r; }
        case CV_FOR: { std::unique_lock<bf::mutex> l(m); bool r = c.wait_for(l, D) == bf::cv_status::timeout; return r; }
        case CV_PRED: { std::unique_lock<bf::mutex> l(m); return !c.wait_until(l, T, [] { return false; }); }
        case CVA: { std::unique_lock<bf::mutex> l(m); return ca.wait_until(l, T) == bf::cv_status::timeout; }
        case MTX: return !tm.try_lock_until(T); case RMTX: return !rtm.try_lock_for(D);
        case FUT: return f.wait_until(T) == bf::future_status::timeout; case SFUT: return s.wait_for(D) == bf::future_status::timeout;
        case BUFPOP: { int v; return ch.pop_wait_until(v, T) == bf::channel_op_status::timeout; } case BUFPUSH: return full.push_wait_for(2, D) == bf::channel_op_status::timeout;
        case UNBPOP: { int v; return uc.pop_wait_for(v, D) == bf::channel_op_status::timeout; } case UNBPUSH: { bf::unbuffered_channel<int> own; return own.push_wait_until(2, T) == bf::channel_op_status::timeout; }
        }
        return false;
    }
};
static int64_t const OFF[] = { -MS, -1, 0, 1, MS, MS + 1, 5 * MS };
// a wait alone on its thread, while other fibers are blocked for ever (they are released afterwards)
MC_SCENARIO(C04, single, "every kind of timed wait and time point; every other fiber of the thread blocked", o.quick = 0; o.thorough = 0) {
    Never n; n.own(); int w = mc::choose(NW); int64_t t0 = mc::now_ns(), tp = t0 + OFF[mc::choose(7)]; bool fib = mc::choose(2), blocked = mc::choose(2); bf::promise<void> gate; auto g = gate.get_future(); bool done = false; bf::fiber b;
    if (blocked) b = bf::fiber(bf::launch::dispatch, [&] { g.get(); });
    auto body = [&] { bool to = n.wait(w, tp); MC_CHECKF(to, "no timeout reported (wait kind %d)", w); MC_CHECKF(mc::now_ns() >= tp, "wait kind %d returned %lld ns early", w, (long long)(tp - mc::now_ns())); MC_CHECKF(mc::now_ns() <= std::max(tp, t0), "wait kind %d overslept although the thread was idle: %lld ns", w, (long long)(mc::now_ns() - tp)); done = true; };
    if (fib && w != MTX && w != RMTX) bf::fiber(body).join(); else if (w == MTX || w == RMTX) bf::fiber(body).join(); else body();
    MC_CHECK(done); gate.set_value(); if (blocked) b.join(); n.disown();
}
// up to three sleepers of one thread: order, no early, no late; another fiber may keep the thread busy for a while
static void sleepers(int n, bool custom) {
    if (custom) bf::use_scheduling_algorithm<Chooser>(FIFO);
    Never nv; nv.own(); int64_t t0 = mc::now_ns(); int64_t tp[3]; int w[3]; std::vector<int> order; static int const kinds[] = { SLEEP_UNTIL, CV_UNTIL, BUFPOP, MTX, FUT, UNBPUSH }; bf::fiber h[3]; int64_t busy = 0; bool isbusy = n < 3 || mc::choose(2);
    static int64_t const off[] = { -MS, 0, MS, MS + 1, 3 * MS };
    for (int i = 0; i < n; ++i) { tp[i] = t0 + off[mc::choose(5)]; w[i] = kinds[mc::choose(n < 3 ? 6 : 2)]; }
    for (int i = 0; i < n; ++i) h[i] = bf::fiber(bf::launch::dispatch, [&, i] { MC_CHECK(nv.wait(w[i], tp[i])); order.push_back(i); MC_CHECKF(mc::now_ns() >= tp[i], "sleeper resumed early"); if (!busy) MC_CHECKF(mc::now_ns() <= std::max(tp[i], t0), "sleeper resumed late on an idle thread"); });
    if (isbusy) { static int64_t const b[] = { 0, MS - 1, MS, MS + 1, 2 * MS, 10 * MS }; busy = b[mc::choose(6)]; mc::advance_ns(busy); if (mc::choose(2)) tf::yield(); }
    for (int i = 0; i < n; ++i) h[i].join();
    MC_CHECK((int)order.size() == n);
    for (int i = 0; i + 1 < n; ++i) MC_CHECKF(tp[order[i]] <= tp[order[i + 1]] || std::max(tp[order[i]], tp[order[i + 1]]) <= t0 , "a sleeper with a later time point became ready first");
    nv.disown();
}
MC_SCENARIO(C04, sleepers2, "two timed waits of any kind on one thread: order and instants", o.quick = 0; o.thorough = 0) { sleepers(2, false); }
MC_SCENARIO(C04, sleepers3, "three sleepers on one thread: order and instants", o.quick = 0; o.thorough = 0) { sleepers(3, false); }
MC_SCENARIO(C04, sleepers3_custom, "three sleepers under a custom algorithm that gets the earliest time point", o.quick = 0; o.thorough = 0) { sleepers(3, true); }

// sleepers that re-arm: periodic wake-ups at exact instants
MC_SCENARIO(C04, rearm, "two fibers sleeping repeatedly, every pair of periods", o.quick = 0; o.thorough = 0) {
    int64_t per[2]; std::vector<std::pair<int64_t, int>> tr; for (auto& p : per) p = (1 + mc::choose(4)) * MS; int64_t t0 = mc::now_ns(); bool until = mc::choose(2);
    auto body = [&](int i) { int64_t next = t0; for (int k = 0; k < 3; ++k) { next += per[i]; if (until) tf::sleep_until(at_ns(next)); else tf::sleep_for(ns(per[i])); MC_CHECKF(mc::now_ns() == next, "wake-up %d of fiber %d at %lld instead of %lld", k, i, (long long)(mc::now_ns() - t0), (long long)(next - t0)); tr.push_back({ next, i }); } };
    bf::fiber a(body, 0), b(mc::choose(2) ? bf::launch::dispatch : bf::launch::post, body, 1); a.join(); b.join();
    for (size_t i = 1; i < tr.size(); ++i) MC_CHECK(tr[i - 1].first <= tr[i].first);
}
// a waiter leaves the sleep queue because it was notified: the others still wake in time, and it can sleep again
MC_SCENARIO(C04, leave, "timed waiters notified in time leave the sleepers in order", o.quick = 0; o.thorough = 0) {
    bf::mutex m; bf::condition_variable c; int64_t t0 = mc::now_ns(); int64_t a = t0 + (1 + mc::choose(3)) * MS, b = t0 + (1 + mc::choose(3)) * MS, n = t0 + mc::choose(4) * MS; bool noted = false; int64_t again = t0 + 5 * MS;
    bf::fiber w([&] { { std::unique_lock<bf::mutex> l(m); bool r = c.wait_until(l, at_ns(a), [&] { return noted; }); MC_CHECKF(r == (n < a) || n == a, "waiter notified at %lld, deadline %lld: %d", (long long)(n - t0), (long long)(a - t0), r); MC_CHECK(mc::now_ns() == std::min(a, std::max(n, t0))); } tf::sleep_until(at_ns(again)); MC_CHECKF(mc::now_ns() == again, "second sleep ended at the wrong time"); });
    bf::fiber s([&] { tf::sleep_until(at_ns(b)); MC_CHECKF(mc::now_ns() == b, "sleeper woke at the wrong time"); });
    bf::fiber k([&] { tf::sleep_until(at_ns(n)); { std::unique_lock<bf::mutex> l(m); noted = true; } if (mc::choose(2)) c.notify_one(); else c.notify_all(); });
    w.join(); s.join(); k.join();
}
// maximum time point: waits until the event
MC_SCENARIO(C04, maximum, "waits until the maximum time point end with the event only", o.quick = 4; o.thorough = 6; o.timedev = true) {
    int w = mc::choose(5); auto T = (clk::time_point::max)(); bf::mutex m; bf::condition_variable c; bf::timed_mutex tm; bool flag = false; bf::buffered_channel<int> ch(2); bf::promise<int> p; auto f = p.get_future(); bf::unbuffered_channel<int> uc; tm.lock(); bool sl = mc::choose(2);
    mc::milestone_ns(mc::now_ns() + MS);
    std::thread t([&] { bf::fiber z([&] { if (sl) tf::sleep_for(ms(1)); });
        switch (w) { case 0: { std::unique_lock<bf::mutex> l(m); while (!flag) MC_CHECK(c.wait_until(l, T) == bf::cv_status::no_timeout); break; } case 1: MC_CHECK(tm.try_lock_until(T)); tm.unlock(); break; case 2: { int v; MC_CHECK(ch.pop_wait_until(v, T) == bf::channel_op_status::success); break; }
            case 3: MC_CHECK(f.wait_until(T) == bf::future_status::ready); break; case 4: { int v; MC_CHECK(uc.pop_wait_until(v, T) == bf::channel_op_status::success); break; } } z.join(); });
    switch (w) { case 0: { { std::unique_lock<bf::mutex> l(m); flag = true; } c.notify_all(); break; } case 1: tm.unlock(); break; case 2: ch.push(1); break; case 3: p.set_value(1); break; case 4: uc.push(1); break; }
    if (w != 1) tm.unlock();
    t.join();
}
// other clocks: never early with respect to the clock of the time point
MC_SCENARIO(C04, system_clock, "time points of another clock, time passing at every clock read", o.quick = 3; o.thorough = 4; o.timedev = true) {
    using sys = std::chrono::system_clock; Never n; n.own(); int w = mc::choose(5); int64_t t0 = mc::now_ns(); int64_t d = (mc::choose(4) - 1) * MS; mc::milestone_ns(t0 + 1000); mc::milestone_ns(t0 + MS); mc::milestone_ns(t0 + MS + 7);
    sys::time_point T = sys::now(); T += ns(t0 + d - mc::now_ns());
    bf::fiber([&] { switch (w) { case 0: tf::sleep_until(T); break; case 1: MC_CHECK(!n.tm.try_lock_until(T)); break; case 2: { std::unique_lock<bf::mutex> l(n.m); MC_CHECK(n.c.wait_until(l, T) == bf::cv_status::timeout); break; } case 3: MC_CHECK(n.f.wait_until(T) == bf::future_status::timeout); break; case 4: { int v; MC_CHECK(n.ch.pop_wait_until(v, T) == bf::channel_op_status::timeout); break; } }
        auto now = sys::now(); MC_CHECKF(now >= T, "returned %lld ns before the system_clock time point", (long long)(T - now).count()); }).join();
    n.disown();
}
// time passing at every clock read, wake-ups from another thread
static void mt(int w) {
    Never n; int64_t t0 = mc::now_ns(), tp = t0 + 2 * MS; mc::milestone_ns(t0 + MS); mc::milestone_ns(tp); mc::milestone_ns(tp + 1); mc::reg(0) = 0; n.own(); bool flag = false; bool slp = mc::choose(2);
    std::thread t([&] { mc::reg(0) = 1; switch (w) { case CV_UNTIL: { { std::unique_lock<bf::mutex> l(n.m); flag = true; } n.c.notify_one(); break; } case FUT: n.p.set_value(); break; case BUFPOP: n.ch.push(1); break; case SLEEP_UNTIL: break; } });
    bf::fiber s([&] { if (slp) { tf::sleep_until(at_ns(t0 + MS)); MC_CHECKF(mc::now_ns() >= t0 + MS, "sleeper woke early"); } });
    bool to = false; if (w == CV_UNTIL) { std::unique_lock<bf::mutex> l(n.m); to = !flag && n.c.wait_until(l, at_ns(tp)) == bf::cv_status::timeout; } else to = n.wait(w, tp);
    if (to) MC_CHECKF(mc::now_ns() >= tp, "timed out early"); else MC_CHECK(mc::reg(0) == 1);
    s.join(); t.join(); n.disown();
}
MC_SCENARIO(C04, mt_cv, "timed cv wait and sleeper against a remote notification, time passing anywhere", o.quick = 5; o.thorough = 7; o.timedev = true; o.spurious = true) { mt(CV_UNTIL); }
MC_SCENARIO(C04, mt_future, "timed future wait and sleeper against a remote result", o.quick = 5; o.thorough = 7; o.timedev = true; o.spurious = true) { mt(FUT); }
MC_SCENARIO(C04, mt_pop, "timed pop and sleeper against a remote push", o.quick = 5; o.thorough = 7; o.timedev = true; o.spurious = true) { mt(BUFPOP); }
MC_SCENARIO(C04, mt_sleep, "sleep_until and sleeper, time passing anywhere, spurious OS wake-ups", o.quick = 5; o.thorough = 7; o.timedev = true; o.spurious = true) { mt(SLEEP_UNTIL); }

// size: anything that depends on how many there are
MC_SCENARIO(C04, many, "1..40 sleepers with every spread of time points: order and instants", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(40), mul = 1 + mc::choose(12), kind = mc::choose(3); int64_t t0 = mc::now_ns(), last = 0; int done = 0; bf::mutex m; bf::condition_variable c; std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) f.emplace_back([&, i] { int64_t tp = t0 + 1000000 * (1 + i * mul % 41); if (kind == 0 || (kind == 2 && i % 2)) tf::sleep_until(at_ns(tp)); else { std::unique_lock<bf::mutex> l(m); while (c.wait_until(l, at_ns(tp)) == bf::cv_status::no_timeout) {} }
        MC_CHECKF(mc::now_ns() >= tp && mc::now_ns() <= tp + 100000, "sleeper %d of %d woke at %+lld ns", i, n, (long long)(mc::now_ns() - tp)); MC_CHECKF(tp >= last, "a later sleeper was resumed first"); last = tp; ++done; });
    for (auto& x : f) x.join(); MC_CHECK(done == n);
}
