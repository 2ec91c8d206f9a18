// C13 unbuffered_channel is a rendezvous that hands over each value once
#include "chan.h"
using UC = bf::unbuffered_channel<Val>;
using Q = Ch<UC>;

// programs of fibers on one thread with close at any point
MC_SCENARIO(C13, st_programs, "programs of two producers, two consumers and a closer, fibers of one thread", o.quick = 0; o.thorough = 0) {
    Store s; UC c; Q q{ c, s }; bool rv = mc::choose(2); int n = mc::thorough() ? 3 : 2;
    bf::fiber a([&] { for (int i = 0; i < n; ++i) { if (mc::choose(2)) tf::yield(); if (q.push(i, rv) == st::closed) break; } });
    bf::fiber b([&] { if (mc::choose(2)) tf::yield(); q.push(10, !rv); });
    bf::fiber d([&] { for (int i = mc::choose(n + 1); i; --i) { if (mc::choose(2)) tf::yield(); if ((rv ? q.pop() : q.value_pop()) == st::closed) break; } });
    bf::fiber e([&] { if (mc::choose(2)) tf::yield(); q.pop(); });
    for (int i = mc::choose(mc::thorough() ? 9 : 7); i; --i) tf::yield();
    q.close(); if (mc::choose(2)) { q.pop(); q.push(20); }
    a.join(); b.join(); d.join(); e.join();
    q.close(); MC_CHECK(q.pop() == st::closed && q.push(30) == st::closed && q.value_pop() == st::closed && q.is_closed());
    check_rendezvous();
}
// no close: everything pairs up, nobody hangs
MC_SCENARIO(C13, st_pair, "two producers and two consumers of one thread, no close before the end", o.quick = 0; o.thorough = 0) {
    Store s; UC c; Q q{ c, s };
    auto y = [] { for (int i = mc::choose(3); i; --i) tf::yield(); };
    bf::fiber a([&] { y(); q.push(1); y(); q.push(2, true); }), b([&] { y(); q.push(11); });
    bf::fiber d([&] { y(); q.pop(); }), e([&] { y(); q.value_pop(); y(); q.pop(); });
    a.join(); b.join(); d.join(); e.join();
    check_rendezvous();
}
static void pc(int np, int nc, int each, bool rv) {
    Store s; UC c; Q q{ c, s }; std::vector<std::thread> p, k;
    for (int i = 0; i < nc; ++i) k.emplace_back([&, i] { while ((i ? q.value_pop() : q.pop()) == st::success) {} });
    for (int i = 0; i < np; ++i) p.emplace_back([&, i] { for (int j = 0; j < each; ++j) MC_CHECK(q.push(i * 8 + j, rv) == st::success); });
    for (auto& t : p) t.join();
    q.close();
    for (auto& t : k) t.join();
    check_rendezvous();
}
MC_SCENARIO(C13, mt_1p1c, "one producer, one consumer thread, 2 values, close at the end", o.quick = 3; o.thorough = 5; o.spurious = true) { pc(1, 1, 2, mc::choose(2)); }
MC_SCENARIO(C13, mt_2p1c, "two producers, one consumer thread", o.quick = 2; o.thorough = 3) { pc(2, 1, 1, false); }
MC_SCENARIO(C13, mt_1p2c, "one producer, two consumer threads", o.quick = 2; o.thorough = 3) { pc(1, 2, 2, true); }
MC_SCENARIO(C13, mt_2p2c, "two producers, two consumer threads", o.quick = 2; o.thorough = 3; o.delay = true) { pc(2, 2, 1, false); }
// fixed counts, nobody closes: an unserved partner would hang
MC_SCENARIO(C13, mt_counts, "two producers with one value each, one consumer popping twice; nobody closes", o.quick = 3; o.thorough = 4) {
    Store s; UC c; Q q{ c, s };
    std::thread a([&] { q.push(1); }), b([&] { q.push(2, true); });
    q.pop(); q.value_pop();
    a.join(); b.join();
    check_rendezvous();
}
MC_SCENARIO(C13, mt_counts2, "one producer with two values, two consumer threads; nobody closes", o.quick = 3; o.thorough = 4) {
    Store s; UC c; Q q{ c, s };
    std::thread a([&] { q.pop(); }), b([&] { q.pop(); });
    q.push(1); q.push(2);
    a.join(); b.join();
    check_rendezvous();
}
MC_SCENARIO(C13, close_race, "close() from a third thread races with a rendezvous", o.quick = 3; o.thorough = 4) {
    Store s; UC c; Q q{ c, s };
    std::thread a([&] { q.push(1, mc::choose(2)); q.push(2); }), b([&] { q.pop(); q.pop(); });
    q.close();
    a.join(); b.join();
    check_rendezvous();
}
MC_SCENARIO(C13, close_blocked, "close() releases blocked producers; later operations report closed", o.quick = 2; o.thorough = 4) {
    Store s; UC c; Q q{ c, s };
    std::thread a([&] { q.push(1); q.push(3); }), b([&] { q.push(2); });
    if (mc::choose(2)) q.pop();
    q.close(); q.pop(); q.push(9); q.pop();
    a.join(); b.join();
    q.pop();
    check_rendezvous();
}
MC_SCENARIO(C13, close_cons, "close() releases blocked consumers", o.quick = 2; o.thorough = 3) {
    Store s; UC c; Q q{ c, s };
    std::thread a([&] { q.pop(); q.value_pop(); }), b([&] { bf::fiber x([&] { q.pop(); }); q.value_pop(); x.join(); });
    if (mc::choose(2)) q.push(1);
    q.close(); q.push(2);
    a.join(); b.join();
    check_rendezvous();
}
MC_SCENARIO(C13, mixed, "fibers of two threads rendezvous", o.quick = 2; o.thorough = 3) {
    Store s; UC c; Q q{ c, s };
    std::thread t([&] { bf::fiber x([&] { q.pop(); }), y([&] { q.push(5); }); x.join(); y.join(); });
    bf::fiber x([&] { q.push(1); }), y([&] { q.value_pop(); });
    x.join(); y.join(); t.join();
    check_rendezvous();
}

// size: anything that depends on how many there are
MC_SCENARIO(C13, many, "1..30 producers or consumers, partner one by one or close", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(30), how = mc::choose(4), before = mc::choose(3), ok = 0, closed = 0, sum = 0; before = before == 0 ? 0 : before == 1 ? n / 2 : n; bf::unbuffered_channel<int> c; std::vector<bf::fiber> f; std::vector<int> seen(n);
    for (int i = 0; i < n; ++i) f.emplace_back([&, i] { int v = i; st r = how & 1 ? c.push(i) : c.pop(v); if (r == st::success) { ++ok; if (!(how & 1)) { MC_CHECK(v >= 0 && v < n && !seen[v]); seen[v] = 1; } } else { MC_CHECK(r == st::closed); ++closed; } });
    tf::yield(); int k = how < 2 ? n : before;
    for (int i = 0; i < k; ++i) { int v = i; if (how & 1) { MC_CHECK(c.pop(v) == st::success); MC_CHECK(v >= 0 && v < n && !seen[v]); seen[v] = 1; } else MC_CHECK(c.push(i) == st::success); }
    if (how >= 2) c.close();
    for (auto& x : f) x.join(); for (int x : seen) sum += x;
    MC_CHECKF(ok == k && sum == k && closed == n - k, "%d of %d succeeded, %d received, %d closed", ok, n, sum, closed);
}
