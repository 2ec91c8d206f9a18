// C11 buffered_channel is a bounded FIFO that loses and duplicates nothing
#include "chan.h"
using BC = bf::buffered_channel<Val>;
using Q = Ch<BC>;

// fibers of one thread: every short program of a producer, a consumer and a third fiber doing either
static void st_programs(int cap, int n) {
    Store s; BC c(cap); Q q{ c, s };
    bool rv = mc::choose(2), vp = mc::choose(2); int left = 3;
    auto finish = [&] { if (!--left) q.close(); };
    auto prod = [&](int base) { for (int i = 0; i < n; ++i) switch (mc::choose(3)) { case 0: q.push(base + i, rv); break; case 1: q.try_push(base + i, rv); break; case 2: tf::yield(); break; } };
    bf::fiber a([&] { prod(0); finish(); });
    bf::fiber b([&] { for (int i = 0;; ++i) { int k = i < n ? mc::choose(3) : 0; st r = k == 0 ? (vp ? q.value_pop() : q.pop()) : k == 1 ? q.try_pop() : (tf::yield(), st::empty); if (r == st::closed) break; if (r == st::empty && k == 1) { if (q.pop() == st::closed) break; } } });
    bf::fiber d([&] { if (mc::choose(2)) tf::yield(); q.push(40); finish(); });
    if (mc::choose(2)) { tf::yield(); }
    finish();
    a.join(); b.join(); d.join();
    MC_CHECK(q.push(50) == st::closed && q.try_push(51) == st::closed && q.pop() == st::closed && q.try_pop() == st::closed && q.value_pop() == st::closed && q.is_closed());
    check_buffered(cap);
}
MC_SCENARIO(C11, st_cap2, "programs of 3 fibers of one thread, capacity 2", o.quick = 0; o.thorough = 1) { st_programs(2, mc::thorough() ? 4 : 3); }
MC_SCENARIO(C11, st_cap4, "programs of 3 fibers of one thread, capacity 4", o.quick = 0; o.thorough = 1) { st_programs(4, mc::thorough() ? 5 : 4); }

// close at every point of a fiber program; blocked producers and consumers are released
MC_SCENARIO(C11, st_close, "close() at every point, blocked producers and consumers, one thread", o.quick = 0; o.thorough = 0) {
    Store s; BC c(2); Q q{ c, s };
    bf::fiber a([&] { for (int i = 0; i < 3; ++i) if (q.push(i) == st::closed) break; }), b([&] { for (int i = 10; i < 12; ++i) if (q.push(i, true) == st::closed) break; });
    bf::fiber d([&] { for (int i = mc::choose(5); i; --i) { if (mc::choose(2)) tf::yield(); if (q.pop() != st::success) break; } });
    bf::fiber e([&] { for (int i = mc::choose(3); i; --i) { if (q.value_pop() != st::success) break; } });
    for (int i = mc::choose(7); i; --i) tf::yield();
    q.close(); if (mc::choose(2)) q.close();
    a.join(); b.join(); d.join(); e.join();
    check_buffered(2);
}

// sequential differential against the reference queue, also wrap-around and every status
MC_SCENARIO(C11, seq, "every sequence of non-blocking operations of one fiber", o.quick = 0; o.thorough = 0) {
    int cap = 2 << mc::choose(2); Store s; BC c(cap); Q q{ c, s }; int n = mc::thorough() ? 9 : 7, have = 0, v = 0; bool closed = false;
    for (int i = 0; i < n; ++i) switch (mc::choose(4)) {
        case 0: if (q.try_push(v++, i & 1) == st::success) have++; break;
        case 1: if (q.try_pop() == st::success) have--; break;
        case 2: if (have || closed) { if ((i & 1 ? q.pop() : q.value_pop()) == st::success) have--; } else if (have < cap - 1) { if (q.push(v++, i & 1) == st::success) have++; } else mc::discard(); break;
        case 3: if (closed) mc::discard(); q.close(); closed = true; break;
    }
    q.is_closed();
    check_buffered(cap);
}

// invalid capacities
MC_SCENARIO(C11, ctor, "capacities", o.quick = 0; o.thorough = 0) {
    for (std::size_t n = 0; n <= 70; ++n) {
        bool pow2 = n >= 2 && !(n & (n - 1)); int e = err_of([&] { bf::buffered_channel<int> c(n);
            for (std::size_t i = 0; i + 1 < n; ++i) MC_CHECK(c.try_push((int)i) == st::success);
            MC_CHECK(c.try_push(0) == st::full);
            for (std::size_t i = 0; i + 1 < n; ++i) { int x = -1; MC_CHECK(c.try_pop(x) == st::success && x == (int)i); }
            int x; MC_CHECK(c.try_pop(x) == st::empty); });
        MC_CHECKF(pow2 ? e == 0 : is_err(e, std::errc::invalid_argument), "capacity %zu: error %d", n, e);
    }
}

// threads
static void pc(int cap, int np, int nc, int each, bool tryops) {
    Store s; BC c(cap); Q q{ c, s }; std::vector<std::thread> p, k;
    for (int i = 0; i < nc; ++i) k.emplace_back([&] { while (q.pop() == st::success) {} });
    for (int i = 0; i < np; ++i) p.emplace_back([&, i] { for (int j = 0; j < each; ++j) { if (tryops && j == 0) { if (q.try_push(i * 8 + j) == st::full) q.push(i * 8 + j + 4); } else q.push(i * 8 + j, j & 1); } });
    for (auto& t : p) t.join();
    q.close();
    for (auto& t : k) t.join();
    check_buffered(cap);
}
MC_SCENARIO(C11, mt_1p1c, "one producer, one consumer thread, 3 values, capacity 2", o.quick = 3; o.thorough = 5; o.spurious = true) { pc(2, 1, 1, 3, false); }
MC_SCENARIO(C11, mt_2p1c, "two producers, one consumer thread, capacity 2", o.quick = 2; o.thorough = 4) { pc(2, 2, 1, 2, false); }
MC_SCENARIO(C11, mt_1p2c, "one producer, two consumer threads, capacity 2", o.quick = 2; o.thorough = 4) { pc(2, 1, 2, 2, true); }
MC_SCENARIO(C11, mt_2p2c, "two producers, two consumer threads, capacity 2", o.quick = 3; o.thorough = 4; o.delay = true) { pc(2, 2, 2, 1, true); }
MC_SCENARIO(C11, mt_cap4, "one producer, one consumer thread, 6 values, capacity 4", o.quick = 3; o.thorough = 5) { pc(4, 1, 1, 6, false); }

// close races with blocked and starting operations
MC_SCENARIO(C11, close_race, "close() from a third thread against blocked and starting operations", o.quick = 3; o.thorough = 5) {
    Store s; BC c(2); Q q{ c, s }; bool full = mc::choose(2);
    if (full) q.push(30);
    std::thread a([&] { q.push(1); if (!full) q.push(2); }), b([&] { q.pop(); });
    if (full && mc::choose(2)) q.pop();
    q.close();
    a.join(); b.join();
    while (q.try_pop() == st::success) {}
    check_buffered(2);
}
MC_SCENARIO(C11, two_close, "two closing threads, a blocked consumer and producers that poll", o.quick = 3; o.thorough = 4) {
    Store s; BC c(2); Q q{ c, s };
    std::thread a([&] { q.close(); }), b([&] { while (q.pop() == st::success) {} });
    q.try_push(1); q.is_closed(); q.try_push(2); q.close();
    a.join(); b.join();
    check_buffered(2);
}
MC_SCENARIO(C11, try_race, "try_push and try_pop of three threads with close", o.quick = 3; o.thorough = 5) {
    Store s; BC c(2); Q q{ c, s }; bool vp = mc::choose(2);
    std::thread a([&] { q.try_push(1); q.try_pop(); q.try_push(2, true); }), b([&] { q.try_pop(); q.try_push(3); if (vp) q.close(); });
    q.try_push(4); q.try_pop();
    a.join(); b.join();
    q.close(); while (q.value_pop() == st::success) {}
    check_buffered(2);
}
// fibers and threads mixed: several fibers blocked on one thread
MC_SCENARIO(C11, mixed, "two blocked consumer fibers on one thread, two producer fibers on another", o.quick = 2; o.thorough = 4) {
    Store s; BC c(2); Q q{ c, s };
    std::thread t([&] { bf::fiber x([&] { q.pop(); }), y([&] { q.value_pop(); }); x.join(); y.join(); });
    bf::fiber x([&] { q.push(1); }), y([&] { q.push(2, true); });
    x.join(); y.join(); t.join();
    MC_CHECK(q.try_pop() == st::empty);
    check_buffered(2);
}

// size: anything that depends on the capacity or on how often the indices wrap
MC_SCENARIO(C11, many, "capacities 2..256, every fill level, several wraps, non-blocking operations", o.quick = 0; o.thorough = 0) {
    int lg = 1 + mc::choose(8), cap = 1 << lg; bf::buffered_channel<int> c(cap); int off = mc::choose(cap < 64 ? cap : 64); int fill = mc::choose(cap < 64 ? cap : 64); int w = 0, r = 0, v;
    auto push = [&](st e) { st q = c.try_push(w); MC_CHECKF(q == e, "capacity %d: try_push at %d of %d returned %d", cap, w - r, cap - 1, (int)q); if (q == st::success) ++w; };
    auto pop = [&](st e) { v = -1; st q = c.try_pop(v); MC_CHECKF(q == e, "capacity %d: try_pop at %d returned %d", cap, w - r, (int)q); if (q == st::success) { MC_CHECKF(v == r, "got %d instead of %d", v, r); ++r; } };
    for (int i = 0; i < off; ++i) { push(st::success); pop(st::success); }
    for (int k = 0; k < 3; ++k) {
        while (w - r < cap - 1) push(st::success);
        push(st::full);
        while (w - r > (fill < cap - 1 ? fill : cap - 2)) pop(st::success);
        if (cap > 2) push(st::success);
        while (w - r > 0) pop(st::success);
        pop(st::empty);
    }
    if (fill && cap > 2) push(st::success);
    c.close(); push(st::closed); while (w - r > 0) pop(st::success); pop(st::closed);
}
MC_SCENARIO(C11, many_blocked, "1..30 blocked producers or consumers, capacities 2..16", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(30), cap = 2 << mc::choose(4), how = mc::choose(4), ok = 0, closed = 0, next = 0; bf::buffered_channel<int> c(cap); std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) f.emplace_back([&, i] { int v = i; st r = how & 1 ? c.push(i) : c.pop(v); if (r == st::success) { ++ok; if (!(how & 1)) { MC_CHECKF(v == next, "got %d instead of %d", v, next); ++next; } } else { MC_CHECK(r == st::closed); ++closed; } });
    tf::yield();
    if (how == 0) { for (int i = 0; i < n; ++i) MC_CHECK(c.push(i) == st::success); }
    else if (how == 1) { std::vector<char> seen(n); for (int i = 0; i < n; ++i) { int v; MC_CHECK(c.pop(v) == st::success); MC_CHECKF(v >= 0 && v < n && !seen[v] && (i >= cap - 1 || v == i), "got %d at position %d", v, i); seen[v] = 1; } }
    else c.close();
    for (auto& x : f) x.join();
    int fit = n < cap - 1 ? n : cap - 1;
    if (how < 2) MC_CHECK(ok == n); else if (how == 2) MC_CHECKF(closed == n, "close() released %d of %d consumers", closed, n); else { MC_CHECKF(ok == fit && closed == n - fit, "capacity %d: %d pushed, %d closed", cap, ok, closed); for (int i = 0; i < fit; ++i) { int v; MC_CHECK(c.pop(v) == st::success && v == i); } int v; MC_CHECK(c.pop(v) == st::closed); }
}
