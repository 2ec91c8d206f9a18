// C27 installing a scheduler keeps ready fibers and initialises a thread once
#include "algo.h"
#include "res.h"
#include "pool.h"
static int64_t& made() { return mc::reg(70); }
static int64_t& dead() { return mc::reg(71); }
static void counters() { made() = dead() = 0; }
// every algorithm counts its life and refuses to be used after it
template<typename Base> struct Life : Base {
    uint32_t magic{ 0xA190 };
    template<typename... A> explicit Life(A&&... a) : Base(std::forward<A>(a)...) { ++made(); }
    ~Life() { use(); magic = 0xdead; ++dead(); }
    void use() const { MC_CHECKF(magic == 0xA190, "an algorithm is used after it was replaced"); }
    void awakened(bf::context* c) noexcept override { use(); Base::awakened(c); }
    bf::context* pick_next() noexcept override { use(); return Base::pick_next(); }
    bool has_ready_fibers() const noexcept override { use(); return Base::has_ready_fibers(); }
    void suspend_until(clk::time_point const& t) noexcept override { use(); Base::suspend_until(t); }
    void notify() noexcept override { use(); Base::notify(); }
};
struct Prop : bf::fiber_properties { int tag{ 0 }; explicit Prop(bf::context* c) : bf::fiber_properties(c) {} };
// with properties
struct PropAlgo : bf::algo::algorithm_with_properties<Prop> {
    Monitor m; explicit PropAlgo(Pick h) : m(h) { m.budget = mc::thorough() ? 8 : 5; }
    void awakened(bf::context* c, Prop& p) noexcept override { MC_CHECKF(&this->properties(c) == &p, "properties of another fiber"); ++p.tag; m.in(c); }
    bf::context* pick_next() noexcept override { return m.out(); }
    bool has_ready_fibers() const noexcept override { return !m.rq.empty(); }
    void suspend_until(clk::time_point const& t) noexcept override { m.idle(t); }
    void notify() noexcept override { m.wake(); }
};
struct LifeProp : PropAlgo { uint32_t magic{ 0xA190 }; explicit LifeProp(Pick h) : PropAlgo(h) { ++made(); } ~LifeProp() { MC_CHECK(magic == 0xA190); magic = 0; ++dead(); } };
static void put(int a) {
    switch (a) { case 0: bf::use_scheduling_algorithm<Life<bf::algo::round_robin>>(); break; case 1: bf::use_scheduling_algorithm<Life<Chooser>>(FIFO); break; case 2: bf::use_scheduling_algorithm<Life<Chooser>>(ANY, mc::thorough() ? 4 : 2); break; case 3: bf::use_scheduling_algorithm<LifeProp>(FIFO); break; case 4: bf::use_scheduling_algorithm<Life<bf::algo::shared_work>>(true); break; }
}
enum S { READY, YIELDING, SLEEPING, BLOCKED, TIMED, JOINING, NS };
static char const* const sname[] = { "ready", "yielding", "sleeping", "blocked", "timed wait", "joining" };
static void states(int k, int changes, int nalgo) {
    counters(); bf::mutex m; bf::condition_variable c; bool go = false; std::vector<int> st((size_t)k), done((size_t)k); int64_t t0 = mc::now_ns(); bool worker = mc::choose(2); put(mc::choose(nalgo)); int installed = 1;
    { std::vector<bf::fiber> f; f.reserve((size_t)k);
      for (int i = 0; i < k; ++i) { st[(size_t)i] = mc::choose(NS); mc::log("fiber %d: %s", i, sname[st[(size_t)i]]);
        f.emplace_back(bf::launch::post, [&, i] { switch (st[(size_t)i]) {
            case READY: break; case YIELDING: for (int n = 0; n < 3; ++n) tf::yield(); break; case SLEEPING: tf::sleep_until(at_ns(t0 + (k - i) * 1000000)); MC_CHECKF(mc::now_ns() >= t0 + (k - i) * 1000000, "woken early"); break;
            case BLOCKED: { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); break; } case TIMED: { std::unique_lock<bf::mutex> l(m); bool r = c.wait_until(l, at_ns(t0 + 9000000), [&] { return go; }); MC_CHECK(r || mc::now_ns() >= t0 + 9000000); break; }
            case JOINING: { bf::fiber g([] { tf::yield(); tf::yield(); }); g.join(); break; } } ++done[(size_t)i]; }); }
      auto change = [&] { for (int n = 0; n < changes; ++n) { int y = mc::choose(2); for (int q = 0; q < y; ++q) tf::yield(); put(mc::choose(nalgo)); ++installed; MC_CHECKF(made() == installed && dead() == installed - 1, "%ld algorithms created, %ld destroyed after %d installations", (long)made(), (long)dead(), installed); } };
      if (worker) { bf::fiber w(change); w.join(); } else change();
      { std::unique_lock<bf::mutex> l(m); go = true; } c.notify_all();
      for (auto& x : f) x.join(); }
    for (int i = 0; i < k; ++i) MC_CHECKF(done[(size_t)i] == 1, "fiber %d (%s) ran %d times", i, sname[st[(size_t)i]], done[(size_t)i]);
    bf::use_scheduling_algorithm<bf::algo::round_robin>(); MC_CHECKF(dead() == installed, "%ld of %d algorithms destroyed", (long)dead(), installed);
    for (int i = 0; i < 2; ++i) tf::yield();
}
MC_SCENARIO(C27, one, "an algorithm is replaced while a fiber is in any state", o.quick = 0; o.thorough = 0) { states(1, 2, 5); }
MC_SCENARIO(C27, two, "an algorithm is replaced while two fibers are in any states", o.quick = 0; o.thorough = 0) { states(2, 1, 4); }
MC_SCENARIO(C27, three, "three fibers, replaced twice", o.quick = 0; o.thorough = 0; o.thorough_only = true) { states(3, 2, 3); }
// The number of ready fibers and their order survive.
MC_SCENARIO(C27, order, "ready fibers keep their first-in first-out order", o.quick = 0; o.thorough = 0) {
    counters(); put(mc::choose(2)); int k = 1 + mc::choose(4), at = mc::choose(k + 1); std::vector<int> seen; std::vector<bf::fiber> f;
    for (int i = 0; i < k; ++i) { if (i == at) put(mc::choose(2)); f.emplace_back([&seen, i] { seen.push_back(i); tf::yield(); seen.push_back(i); }); } if (at == k) put(mc::choose(2));
    MC_CHECK(bf::has_ready_fibers()); for (auto& x : f) x.join(); MC_CHECK((int)seen.size() == 2 * k); for (int i = 0; i < 2 * k; ++i) MC_CHECKF(seen[(size_t)i] == i % k, "step %d was fiber %d", i, seen[(size_t)i]);
    bf::use_scheduling_algorithm<bf::algo::round_robin>();
}
MC_SCENARIO(C27, props, "fibers made ready before get properties from the new algorithm", o.quick = 0; o.thorough = 0) {
    counters(); int k = 1 + mc::choose(3); bool early = mc::choose(2); std::vector<bf::fiber> f; int sum = 0; if (early) bf::use_scheduling_algorithm<LifeProp>(ANY); 
    for (int i = 0; i < k; ++i) f.emplace_back([&, i] { MC_CHECKF(tf::properties<Prop>().tag >= 1, "fiber runs without having been announced"); int t = tf::properties<Prop>().tag; tf::yield(); MC_CHECK(tf::properties<Prop>().tag == t + 1); sum += i; });
    if (!early) bf::use_scheduling_algorithm<LifeProp>(ANY); for (int i = 0; i < k; ++i) { MC_CHECK(f[(size_t)i].properties<Prop>().tag == 1); f[(size_t)i].properties<Prop>().tag = 5; }
    if (mc::choose(2)) bf::use_scheduling_algorithm<LifeProp>(ANY); for (int i = 0; i < k; ++i) MC_CHECKF(f[(size_t)i].properties<Prop>().tag >= 5, "properties were lost"); for (auto& x : f) x.join(); MC_CHECK(sum == k * (k - 1) / 2);
    MC_CHECK(tf::properties<Prop>().tag > 0); bf::use_scheduling_algorithm<bf::algo::round_robin>(); MC_CHECK(made() == dead());
}
// initialize_thread: true exactly once per thread
MC_SCENARIO(C27, init, "initialize_thread() in every order with other entry points", o.quick = 1; o.thorough = 2) {
    counters(); Origin a, b, c; int first = mc::choose(6), n = mc::choose(3); bool work = mc::choose(2); bf::promise<int> ext; auto sf = ext.get_future().share();
    std::thread t([&] {
        bool fresh = false;
        switch (first) { case 0: fresh = true; break; case 1: (void)tf::get_id(); break; case 2: bf::use_scheduling_algorithm<Life<bf::algo::round_robin>>(); break; case 3: tf::yield(); break; case 4: { bf::fiber f([] {}); f.join(); break; } case 5: { bf::mutex m; m.lock(); m.unlock(); break; } }
        int64_t base = made();
        for (int i = 0; i <= n; ++i) { bool r = bf::initialize_thread(new Life<Chooser>(FIFO), bf::make_stack_allocator_wrapper<Tracked<1>>(i == 0 ? a : b)); MC_CHECKF(r == (fresh && i == 0), "initialize_thread() call %d returned %d", i, (int)r); MC_CHECKF(made() == base + i + 1 && dead() == made() - 1, "algorithm count"); MC_CHECKF(a.live == (fresh ? 1 : 0) && b.total == 0, "stacks: %d %d", a.live, b.total); }
        if (work) { int s = 0; bf::fiber f([&] { s = sf.get(); tf::yield(); }); tf::yield(); f.join(); MC_CHECK(s == 3); bf::fiber(std::allocator_arg, Tracked<2>(c), [&] { tf::sleep_for(ms(1)); mc::reg(72)++; }).detach(); }
    });
    ext.set_value(3); t.join(); MC_CHECKF(made() == dead(), "%ld algorithms created, %ld destroyed", (long)made(), (long)dead()); MC_CHECK(a.live == 0 && b.live == 0 && c.live == 0 && mc::reg(72) == work);
}
// A reference held elsewhere keeps the algorithm alive; the thread's own one goes with the thread.
MC_SCENARIO(C27, shared_ref, "an algorithm referenced from elsewhere", o.quick = 1; o.thorough = 2) {
    counters(); bf::algo::algorithm::ptr_t keep; int how = mc::choose(2);
    std::thread t([&] { bf::algo::algorithm::ptr_t p(new Life<bf::algo::round_robin>()); keep = p; bf::initialize_thread(p, bf::make_stack_allocator_wrapper<bf::default_stack>()); if (how) bf::use_scheduling_algorithm<Life<bf::algo::round_robin>>(); bf::fiber f([] { tf::yield(); }); f.join(); });
    t.join(); MC_CHECKF(dead() == how, "the algorithm was destroyed although a reference exists"); keep.reset(); MC_CHECK(made() == dead());
}
// Wake-ups from another thread while the algorithm is replaced.
static void remote(int changes, bool sleepers) {
    counters(); bf::mutex m; bf::condition_variable c; int go = 0; bf::promise<void> p; auto fu = p.get_future(); int ended = 0; int64_t t0 = mc::now_ns();
    std::thread t([&] { { std::unique_lock<bf::mutex> l(m); go = 1; } c.notify_one(); p.set_value(); });
    bf::use_scheduling_algorithm<Life<bf::algo::round_robin>>(); int inst = 1;
    bf::fiber f([&] { { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); } ++ended; }), g([&] { if (sleepers) { tf::sleep_until(at_ns(t0 + 1000000)); } fu.wait(); ++ended; });
    for (int i = 0; i < changes; ++i) { tf::yield(); bf::use_scheduling_algorithm<Life<bf::algo::round_robin>>(); ++inst; }
    f.join(); g.join(); MC_CHECK(ended == 2); t.join(); bf::use_scheduling_algorithm<bf::algo::round_robin>(); MC_CHECKF(made() == inst && dead() == inst, "%ld created, %ld destroyed", (long)made(), (long)dead());
}
MC_SCENARIO(C27, remote, "another thread wakes fibers while the algorithm is replaced", o.quick = 4; o.thorough = 5) { remote(1, false); }
MC_SCENARIO(C27, remote2, "the same with two replacements and a sleeper", o.quick = 3; o.thorough = 5) { remote(2, true); }
// Wake-ups into threads that are exiting.
static void exiting(bool both) {
    counters(); bf::mutex m; bf::condition_variable c; int go = 0; int ended = 0; auto inst = [] { bf::use_scheduling_algorithm<Life<Polite>>(); };
    auto waiter = [&] { bf::fiber([&] { std::unique_lock<bf::mutex> l(m); while (go < (both ? 2 : 1)) c.wait(l); ++ended; }).detach(); };
    auto waker = [&] { { std::unique_lock<bf::mutex> l(m); ++go; } c.notify_all(); };
    std::thread t([&] { inst(); waiter(); if (both) waker(); }); std::thread u([&] { inst(); if (both) waiter(); waker(); });
    t.join(); u.join(); MC_CHECKF(ended == (both ? 2 : 1), "%d detached fibers ended", ended); MC_CHECKF(made() == 2 && dead() == 2, "%ld algorithms created, %ld destroyed", (long)made(), (long)dead());
}
MC_SCENARIO(C27, exit_one, "a wake-up into a thread that is exiting", o.quick = 4; o.thorough = 5) { exiting(false); }
MC_SCENARIO(C27, exit_both, "threads that wake each other and exit", o.quick = 4; o.thorough = 5) { exiting(true); }
// Leaving a shared algorithm takes its ready fibers along; other threads may take them at the same moment.
template<typename A> static void leave(bool back) {
    mc::seed(mc::choose(2)); auto inst = [](int) { install<A>(true, true); };
    { Pool pl(2, inst); int n = 0; bf::mutex m; auto body = [&] { tf::yield(); std::unique_lock<bf::mutex> l(m); ++n; }; bf::fiber x(body), y(body); if (back) tf::yield();
      bf::use_scheduling_algorithm<Polite>(); x.join(); y.join(); MC_CHECK(n == 2); if (back) { inst(0); bf::fiber z(body); z.join(); } pl.stop(); }
    bf::use_scheduling_algorithm<bf::algo::round_robin>();
}
MC_SCENARIO(C27, leave_shared, "replacing shared_work while another thread takes its fibers", o.quick = 4; o.thorough = 5) { leave<bf::algo::shared_work>(mc::choose(2)); }

// size: anything that depends on how many there are
MC_SCENARIO(C27, many, "an algorithm is replaced with 0..40 ready and 0..10 blocked fibers", o.quick = 0; o.thorough = 0) {
    int n = mc::choose(41), b = mc::choose(11), done = 0; bool disp = mc::choose(2); std::vector<bf::fiber> f; bf::promise<void> p; auto sf = p.get_future().share();
    for (int i = 0; i < b; ++i) f.emplace_back(bf::launch::dispatch, [&] { sf.wait(); ++done; });
    for (int i = 0; i < n; ++i) f.emplace_back(disp ? bf::launch::dispatch : bf::launch::post, [&, i] { if (disp) tf::yield(); ++done; });
    bf::use_scheduling_algorithm<bf::algo::round_robin>(); p.set_value();
    for (auto& x : f) x.join(); MC_CHECKF(done == n + b, "%d of %d fibers ran", done, n + b);
}
