// C10 a barrier releases exactly its group, once per cycle
#include "common.h"
MC_SCENARIO(C10, t2, "two threads, three cycles", o.quick = 4; o.thorough = 6; o.spurious = true) {
    bf::barrier b(2); int C = 3;
    auto body = [&](int me) { for (int c = 0; c < C; ++c) { mc::reg(10 + c)++; bool r = b.wait(); MC_CHECKF(mc::reg(10 + c) == 2, "left cycle %d early", c); if (r) mc::reg(20 + c)++; mc::reg(30 + c)++; } };
    std::thread t([&] { body(2); }); body(1); t.join();
    for (int c = 0; c < C; ++c) MC_CHECKF(mc::reg(20 + c) == 1 && mc::reg(30 + c) == 2, "cycle %d: %ld got true, %ld left", c, (long)mc::reg(20 + c), (long)mc::reg(30 + c));
}
MC_SCENARIO(C10, vis2, "two threads: everything before wait() is visible after it", o.quick = 5; o.thorough = 7) {
    bf::barrier b(2); int x = 0, y = 0;
    std::thread t([&] { y = 1; b.wait(); MC_CHECK(x == 1); b.wait(); y = 2; });
    x = 1; b.wait(); MC_CHECK(y == 1); b.wait(); x = 2; t.join(); MC_CHECK(y == 2);
}
static void n3(int C, bool fibers) {
    bf::barrier b(3);
    auto body = [&] { for (int c = 0; c < C; ++c) { mc::reg(10 + c)++; bool r = b.wait(); MC_CHECKF(mc::reg(10 + c) == 3, "left cycle %d after %ld arrivals", c, (long)mc::reg(10 + c)); if (r) mc::reg(20 + c)++; mc::reg(30 + c)++; } };
    if (fibers) { std::thread t([&] { bf::fiber x(body), y(body); x.join(); y.join(); }); body(); t.join(); }
    else { std::thread t(body), u(body); body(); t.join(); u.join(); }
    for (int c = 0; c < C; ++c) MC_CHECKF(mc::reg(20 + c) == 1 && mc::reg(30 + c) == 3, "cycle %d: %ld got true, %ld left", c, (long)mc::reg(20 + c), (long)mc::reg(30 + c));
}
MC_SCENARIO(C10, t3, "three threads, two cycles", o.quick = 3; o.thorough = 4) { n3(2, false); }
MC_SCENARIO(C10, f3, "two fibers and another thread, two cycles", o.quick = 4; o.thorough = 5) { n3(2, true); }
MC_SCENARIO(C10, vis3, "three participants: visibility", o.quick = 3; o.thorough = 4) {
    bf::barrier b(3); int a[3] = {};
    auto body = [&](int i) { a[i] = 1; b.wait(); MC_CHECK(a[0] + a[1] + a[2] == 3); };
    std::thread t([&] { body(1); }); std::thread u([&] { body(2); }); body(0); t.join(); u.join();
}
MC_SCENARIO(C10, st, "groups of 1..4 fibers of one thread, three cycles, every yield pattern", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(4); int C = n < 4 ? 3 : 2; bf::barrier b(n);
    auto body = [&] { for (int c = 0; c < C; ++c) { if (mc::choose(2)) tf::yield(); mc::reg(10 + c)++; bool r = b.wait(); MC_CHECKF(mc::reg(10 + c) == n, "left early"); if (r) mc::reg(20 + c)++; mc::reg(30 + c)++; } };
    std::vector<bf::fiber> f; for (int i = 0; i < n; ++i) f.emplace_back(body);
    for (auto& x : f) x.join();
    for (int c = 0; c < C; ++c) MC_CHECKF(mc::reg(20 + c) == 1 && mc::reg(30 + c) == n, "cycle %d: %ld true, %ld left of %d", c, (long)mc::reg(20 + c), (long)mc::reg(30 + c), n);
}
MC_SCENARIO(C10, zero, "zero participants are rejected", o.quick = 0; o.thorough = 0) {
    int e = err_of([] { bf::barrier b(0); }); MC_CHECKF(is_err(e, std::errc::invalid_argument), "barrier(0): error %d", e);
    bf::barrier one(1); for (int i = 0; i < 3; ++i) MC_CHECK(one.wait());
}
#include <boost/fiber/detail/thread_barrier.hpp>
// the barrier for threads used to start pools of schedulers
MC_SCENARIO(C10, threads2, "detail::thread_barrier: two threads, three cycles, spurious wake-ups", o.quick = 5; o.thorough = 8; o.spurious = true) {
    bf::detail::thread_barrier b(2);
    auto body = [&] { for (int c = 0; c < 3; ++c) { mc::reg(10 + c)++; bool r = b.wait(); MC_CHECKF(mc::reg(10 + c) == 2, "left cycle %d early", c); if (r) mc::reg(20 + c)++; } };
    std::thread t(body); body(); t.join();
    for (int c = 0; c < 3; ++c) MC_CHECKF(mc::reg(20 + c) == 1, "cycle %d: %ld got true", c, (long)mc::reg(20 + c));
}
MC_SCENARIO(C10, threads3, "detail::thread_barrier: three threads, two cycles; visibility", o.quick = 4; o.thorough = 6; o.spurious = true) {
    bf::detail::thread_barrier b(3); int a[3] = {};
    auto body = [&](int i) { a[i] = 1; bool r = b.wait(); MC_CHECK(a[0] + a[1] + a[2] == 3); r = b.wait(); if (r) mc::reg(20)++; };
    std::thread t([&] { body(1); }), u([&] { body(2); }); body(0); t.join(); u.join(); MC_CHECK(mc::reg(20) == 1);
}

// size: anything that depends on how many there are
MC_SCENARIO(C10, many, "groups of 1..40 fibers, 1..12 cycles", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(40), C = 1 + mc::choose(12); bf::barrier b(n); std::vector<int> in(C), out(C); std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) f.emplace_back([&] { for (int c = 0; c < C; ++c) { ++in[c]; bool r = b.wait(); MC_CHECKF(in[c] == n, "left cycle %d after %d of %d", c, in[c], n); out[c] += r; } });
    for (auto& x : f) x.join(); for (int c = 0; c < C; ++c) MC_CHECKF(out[c] == 1, "cycle %d of %d participants: %d got true", c, n, out[c]);
}
