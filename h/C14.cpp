// C14 timed unbuffered_channel operations: timeout means not transferred
#include "chan.h"
using UC = bf::unbuffered_channel<Val>;
using Q = Ch<UC>;

MC_SCENARIO(C14, push_pop, "timed producer thread against a consumer, time passing at every step", o.quick = 3; o.thorough = 5; o.timedev = true; o.spurious = true) {
    Store s; UC c; Q q{ c, s }; bool rel = mc::choose(2), rv = mc::choose(2), timedpop = mc::choose(2);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1); st r{};
    std::thread a([&] { r = q.tpush(1, tp, rel, rv); if (r != st::success && !timedpop) q.push(2); });
    if (timedpop) q.tpop(tp, rel); else q.pop();
    a.join();
    check_rendezvous();
}
MC_SCENARIO(C14, push_close, "timed producer thread against close and a late pop", o.quick = 3; o.thorough = 5; o.timedev = true) {
    Store s; UC c; Q q{ c, s }; bool rel = mc::choose(2), rv = mc::choose(2), pop = mc::choose(2);
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1);
    std::thread a([&] { q.tpush(1, tp, rel, rv); });
    std::thread b([&] { if (pop) q.pop(); });
    q.close(); q.pop();
    a.join(); b.join();
    q.pop();
    check_rendezvous();
}
// the slot is occupied by a timed producer; a waiting producer must get the slot when the first one gives up
MC_SCENARIO(C14, push_push, "a timed producer occupying the slot times out; the waiting producer must be served", o.quick = 3; o.thorough = 4; o.timedev = true) {
    Store s; UC c; Q q{ c, s };
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1); st r1{}, r2{};
    std::thread a([&] { r1 = q.tpush(1, tp); });
    std::thread b([&] { r2 = q.push(2); });
    tf::sleep_until(at_ns(tp + 1000000));       // maybe let the first one give up
    q.pop();
    a.join();
    if (r1 == st::success) q.pop();
    b.join();
    check_rendezvous();
}
MC_SCENARIO(C14, pop_push, "timed and untimed consumer threads, one value; the value reaches one of them", o.quick = 3; o.thorough = 4; o.timedev = true; o.spurious = true) {
    Store s; UC c; Q q{ c, s }; bool rel = mc::choose(2); st r1{};
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1);
    std::thread a([&] { r1 = q.tpop(tp, rel); });
    std::thread b([&] { q.pop(); });
    q.push(1);
    a.join();
    if (r1 == st::success) q.push(2);
    b.join();
    check_rendezvous();
}
MC_SCENARIO(C14, pop_pushes, "a timed producer waits for an occupied slot and times out there", o.quick = 2; o.thorough = 3; o.timedev = true) {
    Store s; UC c; Q q{ c, s }; st r1{}, r2{};
    int64_t tp = mc::now_ns() + 5000000; mc::milestone_ns(tp); mc::milestone_ns(tp + 1);
    std::thread a([&] { r1 = q.push(1); });
    std::thread b([&] { r2 = q.tpush(2, tp); });
    std::thread d([&] { q.pop(); });
    b.join(); d.join();
    if (r2 == st::success) q.pop();              // d took b's value
    a.join();
    MC_CHECK(r1 == st::success);
    check_rendezvous();
}
// one thread; partner busy across the deadline
MC_SCENARIO(C14, st_push, "timed and untimed producer fibers of one thread, the consumer busy across the deadline", o.quick = 0; o.thorough = 0) {
    Store s; UC c; Q q{ c, s }; bool rel = mc::choose(2), first = mc::choose(2), rv = mc::choose(2); st r1 = st::empty, r2 = st::empty;
    int64_t tp = mc::now_ns() + 5000000; int64_t busy[4] = { 0, 4999999, 5000000, 7000000 };
    bf::fiber a([&] { if (first) r1 = q.tpush(1, tp, rel, rv); else r2 = q.push(2); }), b([&] { if (first) r2 = q.push(2); else r1 = q.tpush(1, tp, rel, rv); });
    tf::yield(); tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    if (mc::choose(2)) { tf::yield(); mc::advance_ns(busy[mc::choose(4)]); }
    int what = mc::choose(4); st p;
    if (what == 0) p = q.pop(); else if (what == 1) p = q.value_pop(); else if (what == 2) p = q.tpop(mc::now_ns() + 1000); else { q.close(); p = st::closed; }
    MC_CHECKF(what == 3 || p == st::success, "a producer was waiting but the pop returned %d", (int)p);
    mc::advance_ns(busy[mc::choose(4)]);
    for (int i = 0; i < 3; ++i) { if (mc::choose(2)) mc::advance_ns(1000000); tf::yield(); }
    tf::sleep_until(at_ns(std::max<int64_t>(tp, mc::now_ns()) + 1000000));
    MC_CHECKF(r1 != st::empty, "timed push did not return after its time point");
    if (what != 3) { MC_CHECK(r1 == st::success || r2 == st::success); if (r2 == st::empty) q.pop(); }
    a.join(); b.join();
    if (what == 3) q.pop();
    check_rendezvous();
}
MC_SCENARIO(C14, st_pop, "timed and untimed consumer fibers of one thread, the producer busy across the deadline", o.quick = 0; o.thorough = 0) {
    Store s; UC c; Q q{ c, s }; bool rel = mc::choose(2), first = mc::choose(2); st r1 = st::empty, r2 = st::empty;
    int64_t tp = mc::now_ns() + 5000000; int64_t busy[4] = { 0, 4999999, 5000000, 7000000 };
    bf::fiber a([&] { if (first) r1 = q.tpop(tp, rel); else r2 = q.pop(); }), b([&] { if (first) r2 = q.pop(); else r1 = q.tpop(tp, rel); });
    tf::yield(); tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    if (mc::choose(2)) { tf::yield(); mc::advance_ns(busy[mc::choose(4)]); }
    bf::fiber d([&] { int what = mc::choose(3); if (what == 0) q.push(1); else if (what == 1) q.tpush(1, mc::now_ns() + 20000000, true, true); else q.close(); });
    tf::yield();
    mc::advance_ns(busy[mc::choose(4)]);
    for (int i = 0; i < 3; ++i) { if (mc::choose(2)) mc::advance_ns(1000000); tf::yield(); }
    tf::sleep_until(at_ns(std::max<int64_t>(tp, mc::now_ns()) + 1000000));
    MC_CHECKF(r1 != st::empty, "timed pop did not return after its time point");
    MC_CHECKF(r1 == st::success || r2 != st::empty, "the value was not handed over while a consumer waits");
    d.join();
    if (r2 == st::empty) q.push(2);
    a.join(); b.join();
    check_rendezvous();
}
MC_SCENARIO(C14, past, "time points before, at and after now", o.quick = 0; o.thorough = 0) {
    Store s; UC c; Q q{ c, s }; int64_t d[5] = { -1000000000, -1, 0, 1, 3000000 }; int cl = mc::choose(2), partner = mc::choose(2); bool rel = mc::choose(2);
    int64_t tp = mc::now_ns() + d[mc::choose(5)]; bool push = mc::choose(2); int64_t t0 = mc::now_ns();
    bf::fiber p([&] { if (partner) { if (push) q.pop(); else q.push(3); } });
    tf::yield();
    if (cl) q.close();
    st r = push ? q.tpush(1, tp, rel, mc::choose(2)) : q.tpop(tp, rel);
    if (!partner) MC_CHECK(r == (cl ? st::closed : st::timeout));
    else if (cl) MC_CHECK(r == st::closed);
    else if (!push) MC_CHECK(r == st::success);
    MC_CHECKF(mc::now_ns() <= std::max(tp, t0) + 1000000, "returned much too late");
    if (partner && !cl && r != st::success) { if (push) q.push(4); else q.pop(); }
    p.join();
    check_rendezvous();
}

// the time points are far away: nobody times out, whatever the schedule
static void far(int np, int nc, bool fibers) {
    Store s; UC c; Q q{ c, s }; int64_t tp = mc::now_ns() + 3600000000000ll; bool tpu = mc::choose(2), tpo = mc::choose(2), rel = mc::choose(2); int each = np > nc && !mc::thorough() ? 1 : 2;
    auto prod = [&, np](int i) { for (int k = 0; k < each; ++k) { int v = i * each + k; MC_CHECKF((tpu || i ? q.tpush(v, tp, rel) : q.push(v)) == st::success, "a push with a consumer at hand did not succeed"); } };
    auto cons = [&, nc](int i) { for (int k = 0; k < each * np / nc; ++k) MC_CHECKF((tpo || i ? q.tpop(tp, rel) : q.pop()) == st::success, "a pop with a producer at hand did not succeed"); };
    auto pair = [&](auto f, int n) { if (n == 1) f(0); else if (fibers) { bf::fiber x([&] { f(0); }), y([&] { f(1); }); x.join(); y.join(); } else { std::thread x([&] { f(1); }); f(0); x.join(); } };
    std::thread t([&] { pair(cons, nc); }); pair(prod, np); t.join();
    check_rendezvous();
}
MC_SCENARIO(C14, far21, "two producers, a consumer, distant time points: every operation succeeds", o.quick = 2; o.thorough = 4; o.spurious = true; o.nojump = true) { far(2, 1, false); }
MC_SCENARIO(C14, far12, "a producer, two consumers, distant time points: every operation succeeds", o.quick = 3; o.thorough = 4; o.spurious = true; o.nojump = true) { far(1, 2, false); }
MC_SCENARIO(C14, far22, "two producer fibers, two consumer fibers on two threads, distant time points", o.quick = 2; o.thorough = 4; o.spurious = true; o.nojump = true) { far(2, 2, true); }

// size: anything that depends on how many there are
MC_SCENARIO(C14, many, "1..16 timed producers or consumers, every number of partners or close() at every point in between", o.quick = 0; o.thorough = 0; o.nojump = true) {
    bf::unbuffered_channel<int> c; bool prod = mc::choose(2); int n = 1 + mc::choose(16), order = mc::choose(2), rel = mc::choose(n + 2), k = mc::choose(n + 2), got = 0, out = 0, cl = 0, alive = 0; int64_t t0 = mc::now_ns(), T = t0 + 1000000 * rel + 500000; std::vector<bf::fiber> f; bool close = k == n + 1; unsigned a = 0, b = 0;
    for (int i = 0; i < n; ++i) { int64_t dl = t0 + 1000000 * (1 + (order == 0 ? i : n - 1 - i)); alive += dl > T;
        f.emplace_back([&, dl, i] { int v = i; st r = prod ? c.push_wait_until(i, at_ns(dl)) : c.pop_wait_until(v, at_ns(dl)); int64_t now = mc::now_ns(); if (r == st::success) { ++got; MC_CHECK(now >= T && v >= 0 && !(a >> v & 1)); a |= 1u << v; } else if (r == st::closed) { ++cl; MC_CHECK(now >= T); } else { MC_CHECK(r == st::timeout); MC_CHECKF(now >= dl && now < dl + 200000, "timeout at %+lld ns", (long long)(now - dl)); ++out; } }); }
    tf::sleep_until(at_ns(T)); int want = close ? 0 : k < alive ? k : alive;
    for (int i = 0; i < want; ++i) { int v = i; st r = prod ? c.pop(v) : c.push(i); MC_CHECKF(r == st::success && !(b >> v & 1), "partner %d of %d", i, want); b |= 1u << v; } if (close) c.close();
    for (auto& x : f) x.join(); MC_CHECKF(got == want && cl == (close ? alive : 0) && out == n - got - cl, "%d partners, %d waiting: %d success, %d closed, %d timeout", k, alive, got, cl, out); MC_CHECKF(a == b, "sent and received: %x %x", a, b);
}
