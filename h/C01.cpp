// C01 a fiber runs exactly once and join waits for its completion
#include "algo.h"
#include "fut.h"

// what one fiber does; plain data, so missing ordering is a race
struct Fib { int runs{ 0 }, fin{ 0 }; int a{ 0 }; int b{ 0 }; };
struct Fn { Fib* f; int yields; FV tag{ 9 };
    Fn(Fib* x, int y) : f(x), yields(y) {}
    void operator()(int a, FV const& b, std::unique_ptr<int> c) { MC_CHECK(tag.get() == 9); MC_CHECKF(++f->runs == 1, "fiber-function entered %d times", f->runs); f->a = a; f->b = b.get() + *c; for (int i = 0; i < yields; ++i) tf::yield(); MC_CHECK(f->runs == 1 && f->fin == 0); f->fin = 1; } };
static bf::fiber launch(Fib* f, int how, int yields, int a) {
    switch (how) {
    case 0: return bf::fiber(Fn(f, yields), a, FV(4), std::unique_ptr<int>(new int(5)));
    case 1: return bf::fiber(bf::launch::dispatch, Fn(f, yields), a, FV(4), std::unique_ptr<int>(new int(5)));
    case 2: return bf::fiber(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(64 * 1024), Fn(f, yields), a, FV(4), std::unique_ptr<int>(new int(5)));
    default: { Fn fn(f, yields); FV v(4); return bf::fiber(bf::launch::dispatch, std::allocator_arg, bf::default_stack(), fn, a, std::ref(static_cast<FV const&>(v)).get(), std::unique_ptr<int>(new int(5))); }
    }
}
static void done(Fib const& f, int a) { MC_CHECKF(f.runs == 1, "fiber-function ran %d times", f.runs); MC_CHECKF(f.fin == 1, "join() returned before the fiber-function returned"); MC_CHECKF(f.a == a && f.b == 9, "wrong arguments"); }

static void programs(int n, bool custom, Pick how) {
    FBal bal; if (custom) bf::use_scheduling_algorithm<Chooser>(how, mc::thorough() ? 12 : 8);
    {
        Fib f[3]; bf::fiber h[3]; bool det[3] = {};
        for (int i = 0; i < n; ++i) {
            int l = mc::choose(4), y = mc::choose(2 + (n < 3)); h[i] = launch(&f[i], l, y, i + 1);
            if (l & 1) MC_CHECKF(f[i].runs == 1 || custom, "dispatch-launched fiber did not start"); else MC_CHECKF(f[i].runs == 0, "post-launched fiber started at once");
            if ((det[i] = mc::choose(2))) h[i].detach();
            if (mc::choose(2)) tf::yield();
        }
        int order = mc::choose(n == 1 ? 1 : n == 2 ? 2 : 6); static int const P[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
        for (int k = 0; k < n; ++k) { int i = P[order][k]; if (i >= n) continue; if (!det[i]) { h[i].join(); done(f[i], i + 1); MC_CHECK(!h[i].joinable()); } }
        for (int i = 0; i < n; ++i) { while (det[i] && !f[i].fin) tf::yield(); done(f[i], i + 1); }
    }
}
MC_SCENARIO(C01, programs2, "two fibers: every launch, yield count, detach/join order", o.quick = 0; o.thorough = 0) { programs(2, false, ANY); }
MC_SCENARIO(C01, programs3, "three fibers: every launch, yield count, detach/join order", o.quick = 0; o.thorough = 0) { programs(3, false, ANY); }
MC_SCENARIO(C01, any_order2, "two fibers under an algorithm that may pick any ready fiber", o.quick = 0; o.thorough = 0) { programs(2, true, ANY); }
MC_SCENARIO(C01, lifo, "three fibers under a last-in-first-out algorithm", o.quick = 0; o.thorough = 0) { FBal bal; bf::use_scheduling_algorithm<Chooser>(LIFO);
    Fib f[3]; bf::fiber h[3]; for (int i = 0; i < 3; ++i) h[i] = launch(&f[i], mc::choose(2), mc::choose(2), i + 1); int order = mc::choose(6); static int const P[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
    for (int k = 0; k < 3; ++k) { int i = P[order][k]; h[i].join(); done(f[i], i + 1); } }

// fibers join fibers: chains within one thread
MC_SCENARIO(C01, chain, "fibers joining fibers that were launched by fibers", o.quick = 0; o.thorough = 0) {
    FBal bal; bool custom = mc::choose(2); if (custom) bf::use_scheduling_algorithm<Chooser>(ANY, mc::thorough() ? 14 : 10);
    Fib in, mid; int l1 = mc::choose(2), l2 = mc::choose(2), y1 = mc::choose(2), y2 = mc::choose(2); int after = 0; bool det = mc::choose(2);
    bf::fiber outer(l1 ? bf::launch::dispatch : bf::launch::post, [&] { bf::fiber a = launch(&in, l2, y1, 1); bf::fiber b = launch(&mid, 0, y2, 2); if (det) { a.detach(); b.join(); done(mid, 2); while (!in.fin) tf::yield(); } else { b.join(); done(mid, 2); a.join(); } done(in, 1); after = 1; });
    outer.join(); MC_CHECK(after == 1); done(in, 1);
}
// several fibers wait for one fiber to finish (each through its own joiner chain), handles moved around
MC_SCENARIO(C01, handle_moves, "the handle is moved between fibers while its fiber runs and terminates", o.quick = 0; o.thorough = 0) {
    FBal bal; bool custom = mc::choose(2); if (custom) bf::use_scheduling_algorithm<Chooser>(ANY, mc::thorough() ? 14 : 10); Fib f; bf::fiber h = launch(&f, mc::choose(2), mc::choose(3), 1);
    bf::fiber j(mc::choose(2) ? bf::launch::dispatch : bf::launch::post, [&f, h = std::move(h)]() mutable { for (int i = mc::choose(2); i; --i) tf::yield(); bf::fiber k(std::move(h)); MC_CHECK(!h.joinable() && k.joinable()); k.join(); done(f, 1); });
    j.join(); done(f, 1);
}
// the joiner runs on another thread
static void join_mt(int body) {
    FBal bal; Fib f; bf::fiber h; std::atomic<int> ready{ 0 }; bf::mutex m; bf::condition_variable c; bool given = false; int how = mc::choose(2), y = mc::choose(2), jf = mc::choose(2);
    std::thread t([&] {
        bf::use_scheduling_algorithm<Polite>();
        bf::fiber x = launch(&f, how, y, 1); { std::unique_lock<bf::mutex> l(m); h = std::move(x); given = true; } c.notify_one();
        if (body) { tf::yield(); tf::yield(); }
    });
    auto join = [&] { { std::unique_lock<bf::mutex> l(m); c.wait(l, [&] { return given; }); } h.join(); done(f, 1); MC_CHECK(!h.joinable()); };
    if (jf) bf::fiber(join).join(); else join();
    t.join();
}
MC_SCENARIO(C01, join_mt, "fiber and joiner on different threads; the fiber's thread is on its way out", o.quick = 4; o.thorough = 6; o.spurious = true) { join_mt(0); }
MC_SCENARIO(C01, join_mt_busy, "fiber and joiner on different threads; the fiber's thread goes on", o.quick = 4; o.thorough = 6) { join_mt(1); }
// handle passed by a std::thread argument: launched here, joined there, with the termination racing
MC_SCENARIO(C01, join_there, "fiber launched here, joined by a new thread", o.quick = 6; o.thorough = 8; o.spurious = true) {
    FBal bal; Fib f; int y = mc::choose(3); bf::fiber h = launch(&f, mc::choose(2), y, 1);
    std::thread t([&f, h = std::move(h)]() mutable { h.join(); done(f, 1); });
    bf::fiber w([] { tf::yield(); }); w.join();
    while (!f.fin) tf::yield();
    tf::yield(); t.join();
}
// two fibers of two threads joined crosswise
MC_SCENARIO(C01, cross, "two threads join each other's fibers", o.quick = 4; o.thorough = 6) {
    FBal bal; Fib f[2]; bf::buffered_channel<bf::fiber*> ch0(2), ch1(2);
    auto side = [&](int me, bf::buffered_channel<bf::fiber*>& out, bf::buffered_channel<bf::fiber*>& in) {
        bf::fiber mine = launch(&f[me], 0, 1, me + 1); out.push(&mine); bf::fiber* o = in.value_pop(); o->join(); done(f[1 - me], 2 - me);
        bf::fiber* none = nullptr; out.push(none); in.value_pop(); MC_CHECK(!mine.joinable()); };
    std::thread t([&] { side(1, ch1, ch0); }); side(0, ch0, ch1); t.join();
}
// a thread does not finish before the detached fibers it launched
static void detached(bool sleepy) {
    FBal bal; Fib f[2]; bf::mutex m; bf::condition_variable c; bool go = false; int done_n = 0; int l0 = mc::choose(2), l1 = mc::choose(2), nest = mc::choose(2);
    {
        std::thread t([&] {
            bf::use_scheduling_algorithm<Polite>();
            bf::fiber(l0 ? bf::launch::dispatch : bf::launch::post, [&] { if (sleepy) tf::sleep_for(ms(5)); { std::unique_lock<bf::mutex> l(m); c.wait(l, [&] { return go; }); } if (nest) launch(&f[0], l1, 1, 1).detach(); ++done_n; }).detach();
            launch(&f[1], l1, 1, 2).detach();
        });
        { std::unique_lock<bf::mutex> l(m); go = true; } c.notify_all();
        t.join();
    }
    MC_CHECKF(done_n == 1, "the thread finished before its detached fiber"); done(f[1], 2); if (nest) done(f[0], 1);
}
MC_SCENARIO(C01, detached, "thread exit waits for detached fibers blocked on another thread", o.quick = 4; o.thorough = 6; o.spurious = true) { detached(false); }
MC_SCENARIO(C01, detached_sleep, "thread exit waits for detached fibers that sleep and block", o.quick = 4; o.thorough = 6; o.timedev = true) { detached(true); }
// the main fiber joins a fiber that joins a fiber of another thread which is exiting
MC_SCENARIO(C01, wait_for_threads, "joins nested across three threads", o.quick = 2; o.thorough = 4) {
    FBal bal; Fib f[3]; bf::promise<bf::fiber> p[2]; auto q0 = p[0].get_future(), q1 = p[1].get_future();
    std::thread a([&] { bf::use_scheduling_algorithm<Polite>(); p[0].set_value(launch(&f[0], 0, 1, 1)); });
    std::thread b([&] { bf::use_scheduling_algorithm<Polite>(); bf::fiber x = q0.get(); p[1].set_value(bf::fiber([&f, x = std::move(x)]() mutable { x.join(); done(f[0], 1); f[1].runs = f[1].fin = 1; })); });
    bf::fiber y = q1.get(); y.join(); MC_CHECK(f[1].fin == 1); done(f[0], 1);
    a.join(); b.join();
}

// size: anything that depends on how many there are
MC_SCENARIO(C01, many, "1..40 fibers at once, every launch policy and join order", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(40), order = mc::choose(3); auto pol = mc::choose(2) ? bf::launch::post : bf::launch::dispatch; int y = mc::choose(3); std::vector<int> ran(n); std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) f.emplace_back(pol, [&, i] { for (int k = 0; k < (y == 2 ? i % 5 : y); ++k) tf::yield(); ++ran[i]; });
    for (int k = 0; k < n; ++k) { int i = order == 0 ? k : order == 1 ? n - 1 - k : (k * 7 + n / 2) % n; if (order == 2 && n % 7 == 0) i = k; f[i].join(); MC_CHECKF(ran[i] == 1, "fiber %d of %d ran %d times before join() returned", i, n, ran[i]); }
}
MC_SCENARIO(C01, many_joiners, "1..40 fibers wait in a chain or for one fiber", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(40), done = 0; bool chain = mc::choose(2); std::vector<bf::fiber> f(n); bf::barrier start(2);
    f[0] = bf::fiber([&] { start.wait(); ++done; });
    for (int i = 1; i < n; ++i) f[i] = bf::fiber([&, i] { if (chain) { f[i - 1].join(); MC_CHECKF(done == i, "join() returned early"); } else tf::yield(); ++done; });
    tf::yield(); start.wait(); if (chain) f[n - 1].join(); else for (auto& x : f) x.join(); MC_CHECKF(done == n, "%d of %d", done, n);
}
