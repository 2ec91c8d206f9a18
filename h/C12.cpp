// C12 timed buffered_channel operations: a timeout has no effect
#include "chan.h"
using BC = bf::buffered_channel<Val>;
using Q = Ch<BC>;

// timed consumer and untimed consumer, values arrive around the deadline (threads)
static void cons(bool both, bool withclose) {
    Store s; BC c(2); Q q{ c, s }; bool rel = mc::choose(2);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1); st r1{}, r2 = st::closed;
    std::thread a([&] { r1 = q.tpop(tp, rel); });
    std::thread b; if (both) b = std::thread([&] { r2 = q.pop(); });
    q.push(1);
    if (withclose) q.close();
    a.join();
    if (both && !withclose) { if (r1 == st::success) q.push(2); }   // if the timed one did not take it, the other one must have
    if (both) b.join();
    if (!withclose) MC_CHECK(!both || r2 == st::success);
    check_buffered(2);
}
MC_SCENARIO(C12, cons2, "timed and untimed consumer threads, one value, time passing at every step", o.quick = 3; o.thorough = 4; o.timedev = true; o.spurious = true) { cons(true, false); }
MC_SCENARIO(C12, cons1, "timed consumer thread and one value", o.quick = 5; o.thorough = 6; o.timedev = true; o.spurious = true) { cons(false, false); }
MC_SCENARIO(C12, consclose, "timed and untimed consumer threads, one value and close", o.quick = 3; o.thorough = 4; o.timedev = true) { cons(true, true); }

// timed producer and untimed producer on a full channel, room appears around the deadline
static void prod(bool both, bool withclose) {
    Store s; BC c(2); Q q{ c, s }; bool rel = mc::choose(2), rv = mc::choose(2);
    q.push(0);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1); st r1{}, r2 = st::closed;
    std::thread a([&] { r1 = q.tpush(1, tp, rel, rv); });
    std::thread b; if (both) b = std::thread([&] { r2 = q.push(2, rv); });
    q.pop();
    if (withclose) q.close();
    a.join();
    if (both && !withclose && r1 == st::success) q.pop();
    if (both) b.join();
    if (both && !withclose) MC_CHECK(r2 == st::success);
    q.close(); while (q.try_pop() == st::success) {}
    check_buffered(2);
}
MC_SCENARIO(C12, prod2, "timed and untimed producer threads on a full channel, one pop, time passing at every step", o.quick = 3; o.thorough = 4; o.timedev = true; o.spurious = true) { prod(true, false); }
MC_SCENARIO(C12, prod1, "timed producer thread on a full channel", o.quick = 5; o.thorough = 6; o.timedev = true; o.spurious = true) { prod(false, false); }
MC_SCENARIO(C12, prodclose, "timed and untimed producer threads on a full channel, pop and close", o.quick = 3; o.thorough = 4; o.timedev = true) { prod(true, true); }

// one thread: the partner is busy across the deadline
MC_SCENARIO(C12, st_cons, "timed and untimed consumer fibers of one thread, the producer busy across the deadline", o.quick = 0; o.thorough = 0) {
    Store s; BC c(2); Q q{ c, s }; bool rel = mc::choose(2), first = mc::choose(2); st r1 = st::empty, r2 = st::empty;
    int64_t tp = mc::now_ns() + 5000000; int64_t busy[4] = { 0, 4999999, 5000000, 7000000 };
    bf::fiber a([&] { if (first) r1 = q.tpop(tp, rel); else r2 = q.pop(); }), b([&] { if (first) r2 = q.pop(); else r1 = q.tpop(tp, rel); });
    tf::yield(); tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    if (mc::choose(2)) { tf::yield(); mc::advance_ns(busy[mc::choose(4)]); }
    int what = mc::choose(3);
    if (what == 0) q.push(1); else if (what == 1) q.try_push(1); else { q.tpush(1, mc::now_ns() + 1000); }
    mc::advance_ns(busy[mc::choose(4)]);
    for (int i = 0; i < 3; ++i) { if (mc::choose(2)) mc::advance_ns(1000000); tf::yield(); }
    tf::sleep_until(at_ns(std::max<int64_t>(tp, mc::now_ns()) + 1000000));
    MC_CHECKF(r1 != st::empty, "timed pop did not return after its time point");
    MC_CHECKF(r1 == st::success || r2 == st::success, "the value was left in the channel while a consumer waits");
    if (r2 == st::empty) q.push(2);
    a.join(); b.join();
    MC_CHECK(r2 == st::success && q.try_pop() == st::empty);
    check_buffered(2);
}
MC_SCENARIO(C12, st_prod, "timed and untimed producer fibers of one thread, the consumer busy across the deadline", o.quick = 0; o.thorough = 0) {
    Store s; BC c(2); Q q{ c, s }; bool rel = mc::choose(2), first = mc::choose(2), rv = mc::choose(2); st r1 = st::empty, r2 = st::empty;
    q.push(0);
    int64_t tp = mc::now_ns() + 5000000; int64_t busy[4] = { 0, 4999999, 5000000, 7000000 };
    bf::fiber a([&] { if (first) r1 = q.tpush(1, tp, rel, rv); else r2 = q.push(2); }), b([&] { if (first) r2 = q.push(2); else r1 = q.tpush(1, tp, rel, rv); });
    tf::yield(); tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    if (mc::choose(2)) { tf::yield(); mc::advance_ns(busy[mc::choose(4)]); }
    int what = mc::choose(4);
    if (what == 0) q.pop(); else if (what == 1) q.try_pop(); else if (what == 2) q.value_pop(); else q.tpop(mc::now_ns() + 1000);
    mc::advance_ns(busy[mc::choose(4)]);
    for (int i = 0; i < 3; ++i) { if (mc::choose(2)) mc::advance_ns(1000000); tf::yield(); }
    tf::sleep_until(at_ns(std::max<int64_t>(tp, mc::now_ns()) + 1000000));
    MC_CHECKF(r1 != st::empty, "timed push did not return after its time point");
    MC_CHECKF(r1 == st::success || r2 == st::success, "room was left in the channel while a producer waits");
    if (r2 == st::empty) q.pop();
    a.join(); b.join();
    MC_CHECK(r2 == st::success && q.try_pop() == st::success && q.try_pop() == st::empty);
    check_buffered(2);
}
// past and present time points
MC_SCENARIO(C12, past, "time points before, at and after now against full, empty and closed channels", o.quick = 0; o.thorough = 0) {
    Store s; BC c(2); Q q{ c, s }; int64_t d[5] = { -1000000000, -1, 0, 1, 3000000 }; int fill = mc::choose(2), cl = mc::choose(2); bool rel = mc::choose(2);
    if (fill) q.push(0);
    if (cl) q.close();
    int64_t tp = mc::now_ns() + d[mc::choose(5)], t0 = mc::now_ns(); st r;
    if (mc::choose(2)) { r = q.tpush(1, tp, rel, mc::choose(2)); MC_CHECK(r == (cl ? st::closed : fill ? st::timeout : st::success)); }
    else { r = q.tpop(tp, rel); MC_CHECK(r == (fill ? st::success : cl ? st::closed : st::timeout)); }
    MC_CHECKF(r == st::timeout || mc::now_ns() == t0, "a timed operation that could complete waited");
    MC_CHECKF(mc::now_ns() <= std::max(tp, t0) + 1000000, "returned much too late");
    check_buffered(2);
}
// two timed waiters with different deadlines, one hand-over
MC_SCENARIO(C12, two_timed, "two timed consumers of one thread with different deadlines, a producer thread", o.quick = 5; o.thorough = 6; o.timedev = true) {
    Store s; BC c(2); Q q{ c, s }; int64_t now = mc::now_ns(), t1 = now + 2000000, t2 = now + 4000000; mc::milestone_ns(t1); mc::milestone_ns(t2); mc::milestone_ns(t2 + 1);
    st r1{}, r2{};
    std::thread t([&] { bf::fiber x([&] { r1 = q.tpop(t1); }), y([&] { r2 = q.tpop(t2, true); }); x.join(); y.join(); });
    q.push(1);
    t.join();
    if (r1 != st::success && r2 != st::success) MC_CHECK(q.try_pop() == st::success);
    MC_CHECK(q.try_pop() == st::empty);
    check_buffered(2);
}

// the time points are far away: nobody times out, whatever the schedule
static void far(int np, int nc, bool fibers) {
    Store s; BC c(2); Q q{ c, s }; int64_t tp = mc::now_ns() + 3600000000000ll; bool tpu = mc::choose(2), tpo = mc::choose(2), rel = mc::choose(2); int each = np > nc && !mc::thorough() ? 1 : 2;
    auto prod = [&, np](int i) { for (int k = 0; k < each; ++k) { int v = i * each + k; MC_CHECKF((tpu || i ? q.tpush(v, tp, rel) : q.push(v)) == st::success, "a push with a consumer at hand did not succeed"); } };
    auto cons = [&, nc](int i) { for (int k = 0; k < each * np / nc; ++k) MC_CHECKF((tpo || i ? q.tpop(tp, rel) : q.pop()) == st::success, "a pop with a producer at hand did not succeed"); };
    auto pair = [&](auto f, int n) { if (n == 1) f(0); else if (fibers) { bf::fiber x([&] { f(0); }), y([&] { f(1); }); x.join(); y.join(); } else { std::thread x([&] { f(1); }); f(0); x.join(); } };
    std::thread t([&] { pair(cons, nc); }); pair(prod, np); t.join();
    (void)0;
}
MC_SCENARIO(C12, far21, "two producers, a consumer, distant time points: every operation succeeds", o.quick = 3; o.thorough = 4; o.spurious = true; o.nojump = true) { far(2, 1, false); }
MC_SCENARIO(C12, far12, "a producer, two consumers, distant time points: every operation succeeds", o.quick = 3; o.thorough = 4; o.spurious = true; o.nojump = true) { far(1, 2, false); }
MC_SCENARIO(C12, far22, "two producer fibers, two consumer fibers on two threads, distant time points", o.quick = 2; o.thorough = 4; o.spurious = true; o.nojump = true) { far(2, 2, true); }

// size: anything that depends on how many there are
MC_SCENARIO(C12, many_cons, "1..16 timed consumers, every number of values or close() at every point in between", o.quick = 0; o.thorough = 0; o.nojump = true) {
    bf::buffered_channel<int> c(32); int n = 1 + mc::choose(16), order = mc::choose(2), rel = mc::choose(n + 2), k = mc::choose(n + 3), got = 0, out = 0, cl = 0, alive = 0; int64_t t0 = mc::now_ns(), T = t0 + 1000000 * rel + 500000; std::vector<bf::fiber> f; unsigned seen = 0; bool close = k == n + 2; if (close) k = 0;
    for (int i = 0; i < n; ++i) { int64_t dl = t0 + 1000000 * (1 + (order == 0 ? i : n - 1 - i)); alive += dl > T;
        f.emplace_back([&, dl] { int v = -1; st r = c.pop_wait_until(v, at_ns(dl)); int64_t now = mc::now_ns(); if (r == st::success) { MC_CHECK(v >= 0 && v < k && !(seen >> v & 1)); seen |= 1u << v; ++got; MC_CHECK(now >= T); } else if (r == st::closed) { ++cl; MC_CHECK(now >= T); } else { MC_CHECK(r == st::timeout); MC_CHECKF(now >= dl && now < dl + 200000, "timeout at %+lld ns", (long long)(now - dl)); ++out; } }); }
    tf::sleep_until(at_ns(T)); for (int i = 0; i < k; ++i) MC_CHECK(c.push(i) == st::success); if (close) c.close();
    for (auto& x : f) x.join(); int want = close ? 0 : k < alive ? k : alive; MC_CHECKF(got == want && cl == (close ? alive : 0) && out == n - got - cl, "%d values, %d waiting: %d success, %d closed, %d timeout", k, alive, got, cl, out);
    for (int i = got; i < k; ++i) { int v = -1; MC_CHECK(c.try_pop(v) == st::success); MC_CHECK(!(seen >> v & 1)); seen |= 1u << v; } int v; MC_CHECK(c.try_pop(v) == (close ? st::closed : st::empty));
}
MC_SCENARIO(C12, many_prod, "1..16 timed producers at a full channel, every number of pops or close() at every point in between", o.quick = 0; o.thorough = 0; o.nojump = true) {
    bf::buffered_channel<int> c(2); int n = 1 + mc::choose(16), order = mc::choose(2), rel = mc::choose(n + 2), k = mc::choose(n + 3), got = 0, out = 0, cl = 0, alive = 0; int64_t t0 = mc::now_ns(), T = t0 + 1000000 * rel + 500000; std::vector<bf::fiber> f; bool close = k == n + 2; if (close) k = 0; unsigned seen = 0, in = 1u << 31;
    MC_CHECK(c.push(31) == st::success);
    for (int i = 0; i < n; ++i) { int64_t dl = t0 + 1000000 * (1 + (order == 0 ? i : n - 1 - i)); alive += dl > T;
        f.emplace_back([&, dl, i] { st r = c.push_wait_until(i, at_ns(dl)); int64_t now = mc::now_ns(); if (r == st::success) { ++got; in |= 1u << i; MC_CHECK(now >= T); } else if (r == st::closed) { ++cl; MC_CHECK(now >= T); } else { MC_CHECK(r == st::timeout); MC_CHECKF(now >= dl && now < dl + 200000, "timeout at %+lld ns", (long long)(now - dl)); ++out; } }); }
    tf::sleep_until(at_ns(T)); int taken = 0; for (int i = 0; i < k; ++i) { int v; st r = i <= alive ? c.pop(v) : c.try_pop(v); if (i <= alive) { MC_CHECKF(r == st::success && !(seen >> v & 1), "pop %d of %d", i, k); seen |= 1u << v; ++taken; } else MC_CHECK(r == st::empty); } if (close) c.close();
    for (auto& x : f) x.join(); int want = close ? 0 : k < alive ? k : alive; MC_CHECKF(got == want && cl == (close ? alive : 0) && out == n - got - cl, "%d pops, %d waiting: %d success, %d closed, %d timeout", k, alive, got, cl, out);
    for (;;) { int v; st r = c.try_pop(v); if (r != st::success) { MC_CHECK(r == (close ? st::closed : st::empty)); break; } MC_CHECK(!(seen >> v & 1)); seen |= 1u << v; } MC_CHECKF(seen == in, "pushed %x, popped %x", in, seen);
}
