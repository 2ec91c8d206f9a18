// C24 every fiber's resources are released exactly once, at the right time
#include "res.h"
#include "algo.h"
#include "pool.h"
enum { FN = 30, ARG = 31, BODY = 32 };
struct Fn { Pay p{ FN }; std::function<void()> f; explicit Fn(std::function<void()> g) : f(std::move(g)) {} Fn(Fn&&) = default; Fn(Fn const&) = default; template<typename... A> void operator()(A&&... a) { p.use(); int x[] = { 0, (a.use(), 0)... }; (void)x; Pay local{ BODY }; f(); p.use(); int y[] = { 0, (a.use(), 0)... }; (void)y; local.use(); } };
static void gone(char const* when) { MC_CHECKF(mc::reg(FN) == 0, "%s: %ld function object(s) still alive", when, (long)mc::reg(FN)); MC_CHECKF(mc::reg(ARG) == 0, "%s: %ld argument(s) still alive", when, (long)mc::reg(ARG)); MC_CHECKF(mc::reg(BODY) == 0, "%s: a local of the fiber is still alive", when); }
static void zero() { for (int i = FN; i <= BODY; ++i) mc::reg(i) = 0; }
static void settle(Origin& a, Origin& b, char const* when) { for (int i = 0; i < 3; ++i) tf::yield(); MC_CHECKF(a.live + b.live == 0, "%s: %d stack(s) kept although their fibers have ended and no handle exists", when, a.live + b.live); }
// every way to construct a fiber
static bf::fiber make(int ctor, bool dispatch, Origin& a, Origin& b, std::function<void()> f) {
    auto pol = dispatch ? bf::launch::dispatch : bf::launch::post;
    switch (ctor) {
    case 0: return bf::fiber(pol, Fn(f));
    case 1: return bf::fiber(pol, std::allocator_arg, Tracked<1>(a), Fn(f), Pay(ARG));
    case 2: { Tracked<2> t(b); Fn g(f); return bf::fiber(pol, std::allocator_arg, t, g, Pay(ARG), Pay(ARG)); }
    case 3: { Pay x(ARG); return bf::fiber(pol, Fn(f), x); }
    default: return bf::fiber(pol, std::allocator_arg, Tracked<2>(b), Fn(f));
    }
}
enum Own { JOIN, DETACH, DETACH_LATE, HEAP, BY_FIBER, SELF, NOWN };
static char const* const own_names[] = { "join", "detach at once", "detach later", "handle on the heap", "joined by another fiber", "handle owned by the fiber itself" };
static void lifecycle(int depth) {
    zero(); Origin a, b(48 * 1024); struct Cell { bf::fiber f; };
    for (int n = 0; n < depth; ++n) {
        int ctor = mc::choose(5); bool disp = mc::choose(2); int own = mc::choose(NOWN); int ys = mc::choose(3); mc::log("ctor %d %s %s, %d yields", ctor, disp ? "dispatch" : "post", own_names[own], ys);
        bool ended = false; auto body = [&ended, ys] { for (int i = 0; i < ys; ++i) tf::yield(); ended = true; };
        switch (own) {
        case JOIN: { bf::fiber f = make(ctor, disp, a, b, body); f.join(); MC_CHECK(ended); gone("after join()"); break; }
        case DETACH: { make(ctor, disp, a, b, body).detach(); while (!ended) tf::yield(); break; }
        case DETACH_LATE: { bf::fiber f = make(ctor, disp, a, b, body); for (int i = mc::choose(3); i >= 0; --i) tf::yield(); f.detach(); while (!ended) tf::yield(); break; }
        case HEAP: { auto p = new bf::fiber(make(ctor, disp, a, b, body)); bf::fiber q; q = std::move(*p); delete p; bf::fiber r; r.swap(q); tf::yield(); r.join(); MC_CHECK(ended); gone("after join()"); break; }
        case BY_FIBER: { bf::fiber f = make(ctor, disp, a, b, body); bf::fiber j([&] { f.join(); MC_CHECK(ended); }); j.join(); MC_CHECK(!f.joinable()); gone("after join() by another fiber"); break; }
        case SELF: { auto c = std::make_shared<Cell>(); bool* e = &ended; std::weak_ptr<Cell> w = c; { bf::fiber f = make(ctor, disp, a, b, [c, e, ys] { for (int i = 0; i < ys + 3; ++i) tf::yield(); c->f.detach(); *e = true; }); c->f = std::move(f); } c.reset(); while (!ended) tf::yield(); for (int i = 0; i < 2; ++i) tf::yield(); MC_CHECKF(w.expired(), "the fiber's function object outlives it"); break; }
        }
        settle(a, b, own_names[own]); gone("after the fiber has ended");
    }
    mc::outcome("stacks %d/%d", a.total, b.total);
}
MC_SCENARIO(C24, one, "every constructor, launch policy, allocator and way to own a handle", o.quick = 0; o.thorough = 0) { lifecycle(1); }
MC_SCENARIO(C24, two, "two such fibers in a row", o.quick = 0; o.thorough = 0; o.thorough_only = true) { lifecycle(2); }
static void overlap(int n) {
    zero(); Origin a, b(48 * 1024); bf::use_scheduling_algorithm<Chooser>(ANY, mc::thorough() ? 6 : 4); int left = n;
    { std::vector<bf::fiber> h; h.reserve((size_t)n);
      for (int i = 0; i < n; ++i) { int ctor = 1 + mc::choose(2) * 3, ys = mc::choose(2); h.push_back(make(ctor, false, a, b, [&left, ys] { for (int j = 0; j < ys; ++j) tf::yield(); --left; })); if (mc::choose(2)) h.back().detach(); }
      tf::yield(); for (auto& f : h) if (f.joinable()) f.join(); while (left) tf::yield(); }
    gone("at the end"); bf::use_scheduling_algorithm<bf::algo::round_robin>(); settle(a, b, "at the end");
    MC_CHECK(a.total + b.total == n);
}
MC_SCENARIO(C24, overlap2, "two overlapping fibers, any pick order", o.quick = 0; o.thorough = 0) { overlap(2); }
MC_SCENARIO(C24, overlap3, "three overlapping fibers, any pick order", o.quick = 0; o.thorough = 0; o.thorough_only = true) { overlap(3); }
// Stacks do not pile up while one fiber keeps launching others.
MC_SCENARIO(C24, pileup, "launching in a loop reuses resources", o.quick = 0; o.thorough = 0) {
    zero(); Origin a, b; int own = mc::choose(2); bool disp = mc::choose(2);
    for (int i = 0; i < 6; ++i) { bf::fiber f = make(1, disp, a, b, [] { tf::yield(); }); if (own) f.join(); else { f.detach(); tf::yield(); tf::yield(); } }
    MC_CHECKF(a.max_live <= 4, "%d stacks alive at once", a.max_live); settle(a, b, "loop");
}
// Thread exit: fibers nobody waits for; blocked ones are woken from another thread or by a timer.
MC_SCENARIO(C24, exit_one, "a thread ends with detached fibers in every state", o.quick = 3; o.thorough = 5) {
    zero(); Origin a, b(48 * 1024); int st = mc::choose(4); bf::mutex m; bf::condition_variable c; bool go = false; int ran = 0;
    std::thread t([&] {
        bf::use_scheduling_algorithm<Polite>();
        make(1, false, a, b, [&] { switch (st) { case 0: break; case 1: tf::yield(); break; case 2: tf::sleep_for(ms(2)); break; case 3: { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); } } ++ran; }).detach();
        make(4, st & 1, a, b, [&] { tf::yield(); ++ran; }).detach(); if (st == 2) tf::yield();
    });
    { std::unique_lock<bf::mutex> l(m); go = true; } c.notify_one(); t.join();
    MC_CHECKF(ran == 2, "only %d of 2 detached fibers ran to their end before the thread ended", ran); gone("after thread exit"); MC_CHECKF(a.live + b.live == 0, "stacks survive their thread");
}
// The last reference is dropped by another thread, before, while or after the fiber ends.
template<typename F> static void last_ref(F act, bool yields) {
    zero(); Origin a, b(48 * 1024); bf::fiber h; std::mutex mx; std::condition_variable cv; bool have = false; int ran = 0;
    std::thread t([&] { bf::use_scheduling_algorithm<Polite>(); bf::fiber f = make(1, false, a, b, [&] { if (yields) tf::yield(); ++ran; }); { std::unique_lock<std::mutex> l(mx); h = std::move(f); have = true; } cv.notify_one(); });
    { std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return have; }); }
    act(h, ran); t.join();
    MC_CHECKF(ran == 1, "the fiber ran %d times", ran); gone("after the thread has ended"); MC_CHECKF(a.live == 0, "stack not released");
}
MC_SCENARIO(C24, ref_detach, "another thread detaches while the fiber runs, ends, or its thread exits", o.quick = 6; o.thorough = 9) { last_ref([](bf::fiber& h, int&) { h.detach(); }, mc::choose(2)); }
MC_SCENARIO(C24, ref_join, "another thread joins while the fiber runs, ends, or its thread exits", o.quick = 6; o.thorough = 9) { last_ref([](bf::fiber& h, int& r) { h.join(); MC_CHECK(r == 1); gone("after join() from another thread"); }, mc::choose(2)); }
MC_SCENARIO(C24, ref_id, "another thread reads the id, then detaches", o.quick = 6; o.thorough = 9) { last_ref([](bf::fiber& h, int&) { auto i = h.get_id(); MC_CHECK(i != bf::fiber::id() && h.joinable()); bf::fiber g(std::move(h)); MC_CHECK(g.get_id() == i && !h.joinable()); g.detach(); }, false); }
MC_SCENARIO(C24, ref_both, "joined by a fiber of another thread, which then ends as well", o.quick = 6; o.thorough = 9) { last_ref([](bf::fiber& h, int& r) { bf::fiber j([&] { h.join(); MC_CHECK(r == 1); gone("after join()"); }); j.join(); }, false); }
MC_SCENARIO(C24, ref_outlive, "the handle outlives the thread of its fiber", o.quick = 6; o.thorough = 9) {
    zero(); Origin a, b; bf::fiber h; int ran = 0; bool j = mc::choose(2);
    std::thread t([&] { h = make(1, mc::choose(2), a, b, [&] { ++ran; }); });
    t.join(); MC_CHECK(ran == 1); MC_CHECKF(mc::reg(FN) == 0 && mc::reg(ARG) == 0, "function object outlives the fiber's end"); MC_CHECKF(a.live == 1, "a stack was released although a handle still owns the fiber");
    MC_CHECK(h.joinable()); if (j) h.join(); else h.detach(); MC_CHECKF(a.live == 0, "stack not released with the last handle");
}
MC_SCENARIO(C24, ref_race2, "two threads drop the last two references at the same time", o.quick = 6; o.thorough = 9) {
    zero(); Origin a, b; bf::fiber h; int ran = 0;
    std::thread t([&] { bf::use_scheduling_algorithm<Polite>(); h = make(1, true, a, b, [&] { tf::yield(); ++ran; }); mc::reg(40) = 1; bf::fiber x(std::move(h)); std::thread u([&] { x.detach(); }); tf::yield(); tf::yield(); u.join(); });
    t.join(); MC_CHECK(ran == 1); gone("at the end"); MC_CHECKF(a.live == 0, "stack not released");
}
// The thread's own dispatcher stack.
MC_SCENARIO(C24, dispatcher_stack, "the dispatcher's stack comes from the given allocator and goes back to it", o.quick = 1; o.thorough = 2) {
    zero(); Origin a, b(48 * 1024); int n = mc::choose(3);
    std::thread t([&] { MC_CHECK(bf::initialize_thread(new bf::algo::round_robin(), bf::make_stack_allocator_wrapper<Tracked<1>>(a))); MC_CHECKF(a.live == 1 && a.total == 1, "the dispatcher's stack was not taken from the given allocator"); for (int i = 0; i < n; ++i) make(4, mc::choose(2), a, b, [] { tf::yield(); }).detach(); });
    t.join(); MC_CHECK(a.total == 1 && a.live == 0 && b.total == n && b.live == 0); gone("at the end");
}
// Launching through async and packaged_task with an allocator
MC_SCENARIO(C24, async, "async(): function object, state and stack", o.quick = 0; o.thorough = 0) {
    zero(); Origin a, b; int k = mc::choose(4); bool wait = mc::choose(2); bool thr = mc::choose(2); auto pol = mc::choose(2) ? bf::launch::dispatch : bf::launch::post;
    { auto fn = [p = Pay(FN), thr](Pay const& q) { p.use(); q.use(); tf::yield(); if (thr) throw 5; return 3; };
      bf::future<int> f = k == 0 ? bf::async(pol, std::move(fn), Pay(ARG)) : k == 1 ? bf::async(pol, std::allocator_arg, Tracked<1>(a), std::move(fn), Pay(ARG)) : k == 2 ? bf::async(pol, std::allocator_arg, Tracked<1>(a), std::allocator<char>(), std::move(fn), Pay(ARG)) : bf::async(std::move(fn), Pay(ARG));
      if (wait) { int r = 0; try { r = f.get(); MC_CHECK(!thr); } catch (int e) { MC_CHECK(thr && e == 5); r = 3; } MC_CHECK(r == 3); } }
    for (int i = 0; i < 6; ++i) tf::yield(); gone("after the asynchronous call"); MC_CHECKF(a.live == 0, "stack kept"); MC_CHECK(a.total == (k == 1 || k == 2));
}
// Fibers that migrate end on whatever thread runs them; their stacks go back to the allocator they came from.
template<typename A> static void migrate(bool own) {
    zero(); Origin a, b(48 * 1024); mc::seed(mc::choose(2));
    { auto inst = [](int) { install<A>(true, true); }; Pool pl(2, inst); int left = 2; bf::mutex m; bf::condition_variable c;
      auto body = [&] { tf::yield(); { std::unique_lock<bf::mutex> l(m); if (--left == 0) c.notify_all(); } };
      bf::fiber x = make(1, false, a, b, body), y = make(4, false, a, b, body);
      if (own) { x.join(); y.join(); gone("after join()"); } else { x.detach(); y.detach(); std::unique_lock<bf::mutex> l(m); while (left) c.wait(l); }
      pl.stop(); }
    for (int i = 0; i < 3; ++i) tf::yield();
    bf::use_scheduling_algorithm<bf::algo::round_robin>(); for (int i = 0; i < 3; ++i) tf::yield();
    gone("at the end"); MC_CHECKF(a.live + b.live == 0, "stacks left: %d %d", a.live, b.live);
}
MC_SCENARIO(C24, share_join, "two threads with shared_work, joined", o.quick = 3; o.thorough = 4) { migrate<bf::algo::shared_work>(true); }
MC_SCENARIO(C24, share_detach, "two threads with shared_work, detached", o.quick = 3; o.thorough = 4) { migrate<bf::algo::shared_work>(false); }

// size: anything that depends on how many there are
MC_SCENARIO(C24, many, "1..40 fibers at once, joined or detached: every stack and callable released", o.quick = 0; o.thorough = 0) {
    static int live; live = 0; struct Obj { Obj() { ++live; } Obj(Obj const&) { ++live; } Obj(Obj&&) { ++live; } ~Obj() { --live; } }; int n = 1 + mc::choose(40), how = mc::choose(3), y = mc::choose(3);
    std::thread t([&] { std::vector<bf::fiber> f; for (int i = 0; i < n; ++i) { bf::fiber x([o = Obj(), y, i] { for (int k = 0; k < (y == 2 ? i % 4 : y); ++k) tf::yield(); }); if (how == 1 || (how == 2 && i % 2)) x.detach(); else f.push_back(std::move(x)); } for (auto& x : f) x.join(); });
    t.join(); MC_CHECKF(live == 0, "%d callables left of %d fibers", live, n);
}
