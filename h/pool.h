// Several threads sharing fibers through one of the library's migrating algorithms.
#ifndef H_POOL_H
#define H_POOL_H
#include "common.h"
#include "fut.h"

// Delegates to the library's algorithm (never derived from: work_stealing publishes itself in its constructor). A thread whose algorithm
// never sleeps, or that is about to exit, polls through suspend_until()/notify(): let the other threads run while it polls in vain.
struct Wrap : bf::algo::algorithm {
    ptr_t a; bool polls; std::thread::id home{ std::this_thread::get_id() }; int tid{ mc::tid() }; bool self{ false }, idle{ false };
    Wrap(bf::algo::algorithm* p, bool suspends) : a(p), polls(!suspends) {}
    void awakened(bf::context* c) noexcept override { MC_CHECKF(mc::tid() == tid, "awakened() called on a foreign thread"); a->awakened(c); }
    bf::context* pick_next() noexcept override {
        MC_CHECKF(mc::tid() == tid, "pick_next() called on a foreign thread"); bf::context* c = a->pick_next(); if (c && idle) { idle = false; mc::busy(); }
        if (c) { MC_CHECKF(c->get_scheduler() == bf::context::active()->get_scheduler(), "a picked fiber belongs to another thread's scheduler"); }
        return c; }
    bool has_ready_fibers() const noexcept override { return a->has_ready_fibers(); }
    void suspend_until(clk::time_point const& t) noexcept override { if (polls || self) { self = false; idle = true; mc::idle(t == (clk::time_point::max)() ? INT64_MAX : tp_ns(t)); } a->suspend_until(t); }
    void notify() noexcept override { if (std::this_thread::get_id() == home) self = true; a->notify(); }
};
template<typename A, typename... Args> static void install(bool suspends, Args... args) { bf::use_scheduling_algorithm<Wrap>(static_cast<bf::algo::algorithm*>(new A(args...)), suspends); }
// The participating threads wait (as fibers) until the program has finished.
struct Pool {
    bf::mutex m; bf::condition_variable c; bool fin{ false }; std::vector<std::thread> th; int n;
    template<typename Install> Pool(int nthreads, Install inst, std::function<void(int)> work = nullptr) : n(nthreads) {
        for (int i = 1; i < n; ++i) th.emplace_back([this, inst, i, work] { inst(i); int home = mc::tid(); if (work) work(i); { std::unique_lock<bf::mutex> l(m); while (!fin) { c.wait(l); MC_CHECKF(mc::tid() == home, "a main fiber migrated to another thread"); } } MC_CHECKF(mc::tid() == home, "a main fiber migrated to another thread"); });
        inst(0);
    }
    void stop() { { std::unique_lock<bf::mutex> l(m); fin = true; } c.notify_all(); for (auto& t : th) t.join(); }
};
// Plain (race-checked) per-fiber state: two threads running the same fiber, or a fiber that does not see its own earlier writes, is an error.
struct Me {
    int steps{ 0 }; unsigned where{ 0 }; bool running{ false }; bf::fiber::id id{};
    void in() { mc::log("fiber %p starts", (void*)this); MC_CHECKF(!running, "a fiber was started twice"); running = true; id = tf::get_id(); ++steps; where |= 1u << mc::tid(); }
    void susp() { mc::log("fiber %p may suspend", (void*)this); MC_CHECKF(running && id == tf::get_id(), "fiber state is inconsistent"); running = false; }
    void back() { mc::log("fiber %p continues", (void*)this); MC_CHECKF(!running, "a fiber was resumed while it is running"); MC_CHECKF(id == tf::get_id(), "a fiber was resumed as another fiber"); running = true; ++steps; where |= 1u << mc::tid(); MC_CHECKF(bf::context::active()->get_scheduler() != nullptr, "a running fiber has no scheduler"); }
    void out() { mc::log("fiber %p ends", (void*)this); MC_CHECKF(running && id == tf::get_id(), "fiber state is inconsistent"); running = false; }
    template<typename F> void around(F f) { susp(); f(); back(); }
};

enum Prog { P_YIELD, P_JOIN, P_MUTEX, P_CV, P_BUF, P_UNB, P_FUTURE, P_SLEEP, P_DISPATCH, P_DETACH, P_NEST, P_FSS, P_BARRIER, P_TIMED, P_RECMUTEX, NPROG };
static char const* const prog_names[] = { "yield", "join", "mutex", "condition variable", "buffered channel", "unbuffered channel", "future", "sleep", "dispatch", "detach", "nested launches", "fiber specific pointers", "barrier", "timed waits", "recursive mutex" };
// k fibers launched by the main fiber; main joins or waits
static void program(int p, int k) {
    static constexpr int64_t MS = 1000000; int home = mc::tid(); auto where = [home] { MC_CHECKF(mc::tid() == home, "the main fiber migrated to another thread"); };
    bf::mutex m; bf::recursive_mutex rm; bf::condition_variable c; Guarded g; bf::buffered_channel<int> ch(2); bf::unbuffered_channel<int> uc; bf::promise<int> pr; auto sf = pr.get_future().share(); bf::barrier bar((size_t)k); bf::fiber_specific_ptr<int> fp([](int* q) { ++mc::reg(20); delete q; });
    mc::reg(20) = 0; std::vector<Me> me((size_t)k + 4); std::vector<int> res((size_t)k + 4); bool flag = false; int ndone = 0, sum = 0, trues = 0; int64_t t0 = mc::now_ns();
    auto body = [&](int i) {
        Me& x = me[(size_t)i]; x.in();
        switch (p) {
        case P_YIELD: for (int j = 0; j < 2; ++j) { res[(size_t)i]++; x.around([] { tf::yield(); }); } MC_CHECK(res[(size_t)i] == 2); break;
        case P_JOIN: { int r = 0; bf::fiber f([&] { tf::yield(); r = i + 1; }); x.around([&] { f.join(); }); MC_CHECK(r == i + 1); res[(size_t)i] = r; break; }
        case P_MUTEX: for (int j = 0; j < 2; ++j) { x.around([&] { m.lock(); }); g.enter(i + 1); x.around([] { tf::yield(); }); g.leave(i + 1); m.unlock(); } break;
        case P_RECMUTEX: x.around([&] { rm.lock(); }); rm.lock(); g.enter(i + 1); rm.unlock(); x.around([] { tf::yield(); }); g.leave(i + 1); rm.unlock(); break;
        case P_CV: { std::unique_lock<bf::mutex> l(m); if (i == k - 1) { flag = true; c.notify_all(); } else while (!flag) x.around([&] { c.wait(l); }); break; }
        case P_BUF: if (i == 0) { for (int j = 0; j < 3; ++j) x.around([&] { MC_CHECK(ch.push(j) == bf::channel_op_status::success); }); ch.close(); } else { int v, last = -1; for (;;) { bool ok = false; x.around([&] { ok = ch.pop(v) == bf::channel_op_status::success; }); if (!ok) break; MC_CHECK(v > last); last = v; res[(size_t)i] += v + 1; } } break;
        case P_UNB: if (i == 0) { for (int j = 0; j < 2; ++j) x.around([&] { MC_CHECK(uc.push(j) == bf::channel_op_status::success); }); uc.close(); } else { int v, last = -1; for (;;) { bool ok = false; x.around([&] { ok = uc.pop(v) == bf::channel_op_status::success; }); if (!ok) break; MC_CHECK(v > last); last = v; res[(size_t)i] += v + 1; } } break;
        case P_FUTURE: if (i == k - 1) pr.set_value(5); else x.around([&] { res[(size_t)i] = sf.get(); }); break;
        case P_SLEEP: x.around([&] { tf::sleep_until(at_ns(t0 + (k - i) * MS)); }); MC_CHECK(mc::now_ns() >= t0 + (k - i) * MS); x.around([] { tf::yield(); }); break;
        case P_DISPATCH: { int r = 0; bool fin = false; x.susp(); bf::fiber f(bf::launch::dispatch, [&] { r = 1; tf::yield(); r = 2; fin = true; }); x.back(); x.around([&] { f.join(); }); MC_CHECK(fin && r == 2); break; }
        case P_DETACH: x.around([] { tf::yield(); }); break;
        case P_NEST: { int* r = new int(0); bf::fiber f([r] { tf::yield(); *r = 7; }); x.around([] { tf::yield(); }); x.around([&] { f.join(); }); MC_CHECK(*r == 7); delete r; break; }
        case P_FSS: MC_CHECK(fp.get() == nullptr); fp.reset(new int(i)); x.around([] { tf::yield(); }); MC_CHECK(fp.get() && *fp == i); x.around([] { tf::yield(); }); MC_CHECK(fp.get() && *fp == i); break;
        case P_BARRIER: for (int j = 0; j < 2; ++j) { bool r = false; x.around([&] { r = bar.wait(); }); res[(size_t)i] += r; } break;
        case P_TIMED: { std::unique_lock<bf::mutex> l(m); if (i == 0) { flag = true; l.unlock(); c.notify_one(); } else { bool r = false; x.around([&] { r = c.wait_until(l, at_ns(t0 + 2 * MS), [&] { return flag; }); }); MC_CHECK(l.owns_lock()); MC_CHECK(r || mc::now_ns() >= t0 + 2 * MS); if (r) { l.unlock(); c.notify_one(); } } break; }
        }
        x.out();
    };
    if (p == P_DETACH) {
        int left = k; bf::mutex dm; bf::condition_variable dc;
        for (int i = 0; i < k; ++i) bf::fiber([&, i] { body(i); std::unique_lock<bf::mutex> l(dm); if (--left == 0) dc.notify_all(); }).detach();
        std::unique_lock<bf::mutex> l(dm); while (left) { dc.wait(l); where(); }
    } else {
        std::vector<bf::fiber> h; for (int i = 0; i < k; ++i) h.emplace_back(bf::launch::post, [&, i] { body(i); res[(size_t)i] += 100; });
        where(); for (auto& f : h) { f.join(); where(); }
        for (int i = 0; i < k; ++i) { MC_CHECKF(res[(size_t)i] >= 100, "joined a fiber that had not finished"); res[(size_t)i] -= 100; }
    }
    for (int i = 0; i < k; ++i) { MC_CHECKF(me[(size_t)i].steps >= 1 && !me[(size_t)i].running, "fiber %d did not run to its end", i); mc::outcome("threads %x", me[(size_t)i].where); ndone++; sum += res[(size_t)i]; }
    switch (p) { case P_MUTEX: MC_CHECK(g.value == 2 * k); break; case P_RECMUTEX: MC_CHECK(g.value == k); break; case P_BUF: MC_CHECK(sum == 6); break; case P_UNB: MC_CHECK(sum == 3); break; case P_FUTURE: MC_CHECK(sum == 5 * (k - 1)); break; case P_BARRIER: MC_CHECK(sum == 2); break; case P_FSS: MC_CHECK(mc::reg(20) == k); break; }
    (void)trues; where();
}
#endif
// a participating thread launches detached fibers and returns at once: its scheduler must not go away before they are safe
template<typename Install> static void early_exit(Install inst, int kind) {
    struct Sh { bf::promise<int> go; bf::shared_future<int> sf; bf::promise<int> done[2]; Me me[2]; } sh; sh.sf = sh.go.get_future().share();
    bf::future<int> f0 = sh.done[0].get_future(), f1 = sh.done[1].get_future();
    std::thread t([&] { inst(1); for (int i = 0; i < 2; ++i) bf::fiber([&sh, i, kind] { Me& x = sh.me[i]; x.in(); if (kind & 1) x.around([] { tf::yield(); }); if (kind & 2) x.around([&] { MC_CHECK(sh.sf.get() == 4); }); if (kind & 4) x.around([] { tf::sleep_for(ms(1)); }); x.out(); sh.done[i].set_value(10 + i); }).detach(); if (mc::choose(2)) tf::yield(); });
    inst(0); if (kind & 2) sh.go.set_value(4);
    MC_CHECK(f0.get() == 10); MC_CHECK(f1.get() == 11); t.join(); MC_CHECK(!sh.me[0].running && !sh.me[1].running);
}
// every participating thread launches and joins fibers of its own; they share a mutex and a channel
template<typename Install> static void both_launch(int threads, Install inst) {
    bf::mutex m; bf::condition_variable c; Guarded g; std::vector<Me> me((size_t)threads * 2); int ran = 0, finished = 0;
    auto work = [&](int t) { int home = mc::tid(); std::vector<bf::fiber> h; for (int i = 0; i < 2; ++i) h.emplace_back([&, t, i] { Me& x = me[(size_t)(2 * t + i)]; x.in(); x.around([&] { m.lock(); }); g.enter(1 + 2 * t + i); ++ran; x.around([] { tf::yield(); }); g.leave(1 + 2 * t + i); m.unlock(); x.out(); });
        for (auto& f : h) { f.join(); MC_CHECKF(mc::tid() == home, "a main fiber migrated to another thread"); }
        std::unique_lock<bf::mutex> l(m); if (++finished == threads) c.notify_all(); };
    Pool p(threads, inst, work); work(0); { std::unique_lock<bf::mutex> l(m); while (finished < threads) c.wait(l); } p.stop(); m.lock(); MC_CHECK(ran == 2 * threads && g.value == ran); m.unlock();
}
