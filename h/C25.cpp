// C25 failed allocations and throwing user code leave everything consistent
#include "res.h"
#include "algo.h"
#include <deque>
// User object: the k-th copy/move from now on throws. A failed copy or move leaves its source as it was.
struct Boomed {};
static int64_t& fuse() { return mc::reg(50); }
static int64_t& alive() { return mc::reg(51); }
static void tick() { if (fuse() >= 0 && fuse()-- == 0) throw Boomed(); }
struct Bomb {
    int v; uint32_t magic{ 0xB0B0 };
    Bomb() : v(-1) { ++alive(); }
    explicit Bomb(int x) : v(x) { ++alive(); }
    Bomb(Bomb const& o) : v(-1) { tick(); v = o.get(); ++alive(); }
    Bomb(Bomb&& o) : v(-1) { tick(); v = o.get(); o.v = -2; ++alive(); }
    Bomb& operator=(Bomb const& o) { tick(); get(); v = o.get(); return *this; }
    Bomb& operator=(Bomb&& o) { tick(); get(); v = o.get(); if (&o != this) o.v = -2; return *this; }
    ~Bomb() { get(); magic = 0xdead; --alive(); }
    int get() const { MC_CHECKF(magic == 0xB0B0, "a dead object is used"); return v; }
};
struct BombF : Bomb { using Bomb::Bomb; template<typename... A> void operator()(A&&...) { get(); ++mc::reg(52); } };
struct Scope { int64_t a0; Scope() { fuse() = -1; alive() = 0; mc::reg(52) = 0; a0 = 0; } void end(char const* w) { fuse() = -1; MC_CHECKF(alive() == 0, "%s: %ld user object(s) leaked", w, (long)alive()); } };
static void sane() { int n = 0; bf::fiber x([&] { tf::yield(); ++n; }); bf::fiber y(bf::launch::dispatch, [&] { ++n; tf::yield(); ++n; }); x.join(); y.join(); MC_CHECKF(n == 3, "the scheduler is damaged"); bf::promise<int> p; auto f = p.get_future(); bf::fiber z([&] { p.set_value(4); }); MC_CHECK(f.get() == 4); z.join(); }
// run f with the k-th allocation failing, for every k; true: f succeeded
// (only the first allocation if `first`: abandoning a state builds a broken_promise, which nothing can report when that fails)
template<typename F> static bool with_oom(int n, F f, char const* what, bool first = false) {
    int k = first ? (mc::choose(2) ? n - 1 : 0) : mc::choose(n); long n0 = mc::live_allocs(); long b0 = mc::alloc_count(); mc::fail_alloc(k); bool ok = true;
    try { f(); } catch (std::bad_alloc const&) { ok = false; } bool hit = mc::alloc_failed(); mc::fail_alloc(-1);
    if (ok) { MC_CHECKF(!hit, "%s: allocation %d failed but the operation reported success", what, k); MC_CHECKF(mc::alloc_count() - b0 <= n - 1, "%s: %ld allocations, only %d failures enumerated", what, mc::alloc_count() - b0, n); if (k < n - 1 && mc::alloc_count() - b0 < k) mc::discard(); }
    else { MC_CHECKF(hit, "%s: bad_alloc without a failed allocation", what); MC_CHECKF(mc::live_allocs() == n0, "%s: failed, and %ld allocation(s) leaked", what, mc::live_allocs() - n0); }
    mc::outcome("%s %s", what, ok ? "ok" : "failed"); return ok;
}
struct Props : bf::fiber_properties { int* live; Props(bf::context* c, int* l) : bf::fiber_properties(c), live(l) { ++*live; } ~Props() { --*live; } };
MC_SCENARIO(C25, oom_fiber, "every allocation of every way to launch a fiber fails", o.quick = 0; o.thorough = 0) {
    Scope s; sane(); int form = mc::choose(8); int ran = 0; bf::fiber f; bf::future<int> fu; Origin a; auto pol = mc::choose(2) ? bf::launch::dispatch : bf::launch::post;
    bool oom = form < 6; if (!oom) a.fail_in = 0; bool ok = true;
    auto fn = [&ran] { ++ran; }; auto fi = [&ran](int x) { ++ran; return x; };
    auto go = [&] { switch (form) {
        case 0: f = bf::fiber(pol, fn); break; case 1: f = bf::fiber(pol, std::allocator_arg, Tracked<1>(a), fn); break; case 2: f = bf::fiber(pol, fi, 3); break;
        case 3: fu = bf::async(pol, fi, 3); break; case 4: fu = bf::async(pol, std::allocator_arg, Tracked<1>(a), fi, 3); break; case 5: fu = bf::async(pol, std::allocator_arg, Tracked<1>(a), std::allocator<char>(), fi, 3); break;
        case 6: f = bf::fiber(pol, std::allocator_arg, Tracked<1>(a), fn); break; case 7: fu = bf::async(pol, std::allocator_arg, Tracked<1>(a), fi, 3); break; } };
    if (oom) ok = with_oom(6, go, "launch"); else { try { go(); ok = false; } catch (std::bad_alloc const&) { ok = false; } MC_CHECKF(a.live == 0, "stack leaked"); a.fail_in = -1; }
    if (!ok) { MC_CHECKF(ran == 0, "the launch failed, yet the function runs"); MC_CHECKF(!f.joinable() && !fu.valid(), "the launch failed, yet there is a handle"); MC_CHECKF(a.live == 0, "stack leaked by a failed launch"); go(); }
    if (f.joinable()) f.join(); else MC_CHECK(fu.get() == 3); MC_CHECK(ran == 1); sane(); for (int i = 0; i < 3; ++i) tf::yield(); s.end("launch");
}
MC_SCENARIO(C25, oom_object, "every allocation of every other object fails", o.quick = 0; o.thorough = 0) {
    Scope s; sane(); int form = mc::choose(10); if (form >= 6) ++form;   // use_scheduling_algorithm() is noexcept
    switch (form) {
    case 0: { with_oom(3, [] { bf::buffered_channel<Bomb> c(4); c.push(Bomb(1)); Bomb b; MC_CHECK(c.pop(b) == bf::channel_op_status::success && b.get() == 1); }, "buffered_channel"); break; }
    case 1: { with_oom(3, [] { bf::promise<Bomb> p; p.set_value(Bomb(1)); MC_CHECK(p.get_future().get().get() == 1); }, "promise"); break; }
    case 2: { with_oom(4, [] { bf::packaged_task<int(int)> t([](int x) { return x + 1; }); auto f = t.get_future(); t(4); MC_CHECK(f.get() == 5); }, "packaged_task"); break; }
    case 3: { bf::packaged_task<int(int)> t([](int x) { return x + 1; }); auto f = t.get_future(); bool rdy = mc::choose(2); if (rdy) t(4);
        if (!with_oom(4, [&] { t.reset(); }, "packaged_task::reset", true)) { MC_CHECKF(t.valid(), "reset() failed and the task lost its state"); if (!rdy) { t(4); } else { bool thrown = false; try { t(4); } catch (bf::promise_already_satisfied const&) { thrown = true; } MC_CHECK(thrown); } MC_CHECK(f.get() == 5); }
        else { auto g = t.get_future(); t(7); MC_CHECK(g.get() == 8); if (rdy) MC_CHECK(f.get() == 5); else { bool br = false; try { f.get(); } catch (bf::broken_promise const&) { br = true; } MC_CHECK(br); } } break; }
    case 4: { with_oom(3, [] { bf::fiber_specific_ptr<int> p; MC_CHECK(p.get() == nullptr); }, "fiber_specific_ptr"); break; }
    case 5: { bf::fiber j([&] { bf::fiber_specific_ptr<int> p([](int* q) { ++mc::reg(53); delete q; }); bf::fiber_specific_ptr<int> q; mc::reg(53) = 0; bool had = mc::choose(2); if (had) p.reset(new int(1)); int* n = new int(2);
            if (with_oom(3, [&] { p.reset(n); }, "fiber_specific_ptr::reset")) { MC_CHECK(p.get() == n && mc::reg(53) == had); }
            else { MC_CHECKF(mc::reg(53) == 0, "reset() failed but cleaned up %ld value(s)", (long)mc::reg(53)); MC_CHECKF(had ? p.get() && *p == 1 : p.get() == nullptr, "reset() failed and changed the value"); delete n; p.reset(new int(3)); MC_CHECK(*p == 3); }
            }); j.join(); break; }
    case 7: { bf::promise<int> p; bf::future<int> f; with_oom(3, [&] { f = p.get_future(); }, "get_future"); if (!f.valid()) f = p.get_future(); bf::shared_future<int> g; with_oom(2, [&] { g = f.share(); }, "share"); MC_CHECK(g.valid()); p.set_value(1); MC_CHECK(g.get() == 1); break; }
    case 8: { bf::promise<std::string> p; auto f = p.get_future(); std::string big(100, 'x'); if (!with_oom(3, [&] { p.set_value(big); }, "set_value")) { MC_CHECKF(f.wait_for(ns(0)) == bf::future_status::timeout, "set_value() failed, yet the future is ready"); if (mc::choose(2)) p.set_value(big); else { p = bf::promise<std::string>(); bool br = false; try { f.get(); } catch (bf::broken_promise const&) { br = true; } MC_CHECK(br); break; } } MC_CHECK(f.get() == big); break; }
    case 9: { bf::packaged_task<std::string()> t([] { return std::string(100, 'y'); }); auto f = t.get_future(); long n0 = mc::live_allocs(); int k = mc::choose(4); mc::fail_alloc(k); t(); bool hit = mc::alloc_failed(); mc::fail_alloc(-1); int r = 0; try { MC_CHECK(f.get() == std::string(100, 'y')); r = 1; } catch (std::bad_alloc const&) { r = 2; } MC_CHECKF(r == (hit ? 2 : 1), "the failure did not reach the future"); (void)n0; break; }
    case 10: { bf::buffered_channel<std::string> c(4); std::string big(100, 'z'); with_oom(3, [&] { c.push(big); }, "push") ? (void)0 : (void)c.push(big); std::string x; MC_CHECK(c.pop(x) == bf::channel_op_status::success && x == big); MC_CHECK(c.try_pop(x) == bf::channel_op_status::empty); break; }
    }
    sane(); s.end("object");
}
// The k-th copy or move of a callable or argument throws.
MC_SCENARIO(C25, copy_launch, "every copy or move of callables and arguments throws, for every way to launch", o.quick = 0; o.thorough = 0) {
    Scope s; sane(); Origin a; int form = mc::choose(10), k = mc::choose(14); auto pol = mc::choose(2) ? bf::launch::dispatch : bf::launch::post; int props = 0; Props* pp = form == 9 ? new Props(nullptr, &props) : nullptr; auto* bp = static_cast<bf::fiber_properties*>(pp);
    { BombF fn(1); Bomb arg(2); bf::fiber f; bf::future<void> fu; bool ok = true; bool task = false; long n0 = mc::live_allocs();
      // the worker moves callable and arguments to its stack before calling them: only the launch itself may fail here
      auto launch = [&] { switch (form) {
          case 0: f = bf::fiber(bf::launch::post, fn); break; case 1: f = bf::fiber(bf::launch::post, std::allocator_arg, Tracked<1>(a), fn, arg); break; case 2: f = bf::fiber(bf::launch::post, std::allocator_arg, Tracked<1>(a), std::move(fn), std::move(arg)); break;
          case 3: f = bf::fiber(bf::launch::post, [](Bomb const& b) { b.get(); ++mc::reg(52); }, arg); break; case 4: fu = bf::async(bf::launch::post, fn); break; case 5: fu = bf::async(bf::launch::post, std::allocator_arg, Tracked<1>(a), fn, arg); break;
          case 6: fu = bf::async(bf::launch::post, std::allocator_arg, Tracked<1>(a), std::move(fn), arg, arg); break; case 7: { task = true; bf::packaged_task<void(Bomb const&)> t(fn); fu = t.get_future(); fuse() = -1; t(arg); break; } case 8: fu = bf::async(bf::launch::post, [](Bomb const& b, Bomb const&) { b.get(); ++mc::reg(52); }, arg, arg); break; case 9: f = bf::fiber(bf::launch::post, bp, std::allocator_arg, Tracked<1>(a), fn, arg); break; } };
      fuse() = k; try { launch(); } catch (Boomed const&) { ok = false; } bool hit = fuse() < 0 && !ok; fuse() = -1; (void)pol; (void)hit; (void)task;
      if (!ok) { MC_CHECKF(!f.joinable() && !fu.valid(), "the launch failed, yet there is a handle"); MC_CHECKF(a.live == 0, "stack leaked by a failed launch"); MC_CHECKF(mc::live_allocs() == n0, "%ld allocation(s) leaked by a failed launch (copy or move %d of form %d)", mc::live_allocs() - n0, k, form); MC_CHECKF(!pp || props == 1, "a failed launch took the properties"); MC_CHECKF(alive() == 2, "%ld user objects alive after a failed launch", (long)alive()); MC_CHECKF(mc::reg(52) == 0, "the function ran although its launch failed"); launch(); }
      if (f.joinable()) f.join(); else if (fu.valid()) fu.get(); MC_CHECKF(mc::reg(52) == 1, "ran %ld times", (long)mc::reg(52)); mc::outcome("form %d %s", form, ok ? "ok" : "thrown"); }
    sane(); for (int i = 0; i < 3; ++i) tf::yield(); MC_CHECKF(props == 0, "the properties were not released"); s.end("launch");
}
typedef bf::channel_op_status st;
// Sequential histories of a buffered channel: any operation may fail at any of its copies or moves.
MC_SCENARIO(C25, copy_buffered, "sequences of buffered channel operations with one throwing copy or move", o.quick = 0; o.thorough = 0) {
    Scope s; { bf::buffered_channel<Bomb> c(4); std::deque<int> m; int L = mc::thorough() ? 5 : 4, bad = mc::choose(L + 1); int next = 1;
      for (int i = 0; i < L; ++i) {
        int op = mc::choose(9); int k = i == bad ? mc::choose(3) : -1; Bomb x(next), y; st r = st::success; bool thrown = false; int got = -1; bool push = op < 4; bool full = m.size() == 3, empty = m.empty();
        fuse() = k;
        try { switch (op) {
            case 0: r = c.try_push(x); break; case 1: r = c.try_push(std::move(x)); break; case 2: r = c.push_wait_until(x, clk::time_point()); break; case 3: r = c.push_wait_until(std::move(x), clk::time_point()); break;
            case 4: r = c.try_pop(y); got = y.get(); break; case 5: r = c.pop_wait_until(y, clk::time_point()); got = y.get(); break;
            case 6: if (empty) mc::discard(); r = c.pop(y); got = y.get(); break; case 7: if (empty) mc::discard(); { Bomb z = c.value_pop(); got = z.get(); } break;
            case 8: if (full) mc::discard(); push = true; r = mc::choose(2) ? c.push(x) : c.push(std::move(x)); break; } }
        catch (Boomed const&) { thrown = true; }
        bool hit = k >= 0 && fuse() < 0; fuse() = -1; MC_CHECKF(!hit || thrown, "a failed copy was not reported");
        if (thrown) { if (push) MC_CHECKF(x.get() == next, "a failed push took the caller's value"); else MC_CHECKF(y.get() == -1, "a failed pop changed the caller's object"); }
        else if (push) { MC_CHECKF(r == (full ? (op < 2 ? st::full : st::timeout) : st::success), "push: status %d", (int)r); if (r == st::success) m.push_back(next++); }
        else { MC_CHECKF(r == (empty ? (op == 4 ? st::empty : st::timeout) : st::success), "pop: status %d", (int)r); if (r == st::success) { MC_CHECKF(got == m.front(), "pop: got %d, expected %d", got, m.front()); m.pop_front(); } }
      }
      c.close(); Bomb y; while (!m.empty()) { MC_CHECKF(c.pop(y) == st::success && y.get() == m.front(), "the channel lost or changed a value"); m.pop_front(); } MC_CHECK(c.pop(y) == st::closed); }
    s.end("channel");
}
// An unbuffered channel: producer and consumer fibers, one copy or move fails.
enum { PU_C, PU_M, PU_T, NPU }; enum { PO_POP, PO_VAL, PO_T, PO_IT, NPO };
template<typename C> static bool produce(C& c, int how, int v) { Bomb x(v); try { st r = how == PU_C ? c.push(x) : how == PU_M ? c.push(std::move(x)) : c.push_wait_for(std::move(x), std::chrono::hours(1)); MC_CHECKF(r == st::success || r == st::closed || (how == PU_T && r == st::timeout), "push: status %d", (int)r); return r == st::success; } catch (Boomed const&) { MC_CHECKF(x.get() == v, "a failed push took the caller's value"); mc::reg(60)++; return false; } }
template<typename C> static int consume(C& c, int how) { Bomb y; try { switch (how) { case PO_POP: return c.pop(y) == st::success ? y.get() : 0; case PO_T: { st r = c.pop_wait_for(y, std::chrono::hours(1)); return r == st::success ? y.get() : r == st::timeout ? -1 : 0; } case PO_VAL: try { return c.value_pop().get(); } catch (bf::fiber_error const&) { return 0; } default: { auto i = begin(c); return i == end(c) ? 0 : i->get(); } } } catch (Boomed const&) { MC_CHECKF(y.get() == -1, "a failed pop changed the caller's object"); mc::reg(60)++; return -1; } }
// np producers of one value each, consumers until everything pushed has arrived; a thrower tries again
template<typename C> static void exchange(C& c, int np, int nc, bool threads) {
    int k = mc::choose(8), hp = mc::choose(NPU), ho = mc::choose(NPO); mc::reg(60) = 0; mc::reg(61) = 0; mc::reg(62) = 0; int left = np; bf::mutex lm; fuse() = k;
    auto prod = [&](int i) { while (!produce(c, hp, i + 1)) {} std::unique_lock<bf::mutex> l(lm); if (--left == 0) c.close(); };
    // a consumer whose pop failed leaves: the value must reach another consumer (there is always one left)
    auto cons = [&](bool retry) { for (;;) { int v = consume(c, ho); if (v == 0) break; if (v > 0) { MC_CHECKF(!((mc::reg(61) >> v) & 1), "value %d received twice", v); mc::reg(61) |= 1 << v; } else if (!retry) break; } };
    if (threads) { std::thread t([&] { bf::use_scheduling_algorithm<Polite>(); std::vector<bf::fiber> f; for (int i = 0; i < np; ++i) f.emplace_back(prod, i); for (auto& x : f) x.join(); }); bf::use_scheduling_algorithm<Polite>(); cons(true); t.join(); }
    else { std::vector<bf::fiber> f; int order = mc::choose(2); if (order) for (int i = 0; i < np; ++i) f.emplace_back(prod, i); for (int i = 0; i < nc; ++i) f.emplace_back(cons, i == nc - 1); if (!order) for (int i = 0; i < np; ++i) f.emplace_back(prod, i); for (auto& x : f) x.join(); }
    fuse() = -1; MC_CHECKF(mc::reg(61) == ((1 << np) - 1) * 2, "values received: %lx of %d", (long)mc::reg(61), np); mc::outcome("thrown %ld", (long)mc::reg(60));
}
static void unb(int np, int nc, bool t) { Scope s; { bf::unbuffered_channel<Bomb> c; exchange(c, np, nc, t); } sane(); s.end("channel"); }
static void buf(int np, int nc, bool t) { Scope s; { bf::buffered_channel<Bomb> c(2); exchange(c, np, nc, t); } sane(); s.end("channel"); }
MC_SCENARIO(C25, unb_11, "unbuffered, one producer, one consumer", o.quick = 0; o.thorough = 0) { unb(1, 1, false); }
MC_SCENARIO(C25, unb_22, "unbuffered, two producers, two consumers: a failing consumer leaves", o.quick = 0; o.thorough = 0) { unb(2, 2, false); }
MC_SCENARIO(C25, buf_11, "buffered, one producer, one consumer", o.quick = 0; o.thorough = 0) { buf(1, 1, false); }
MC_SCENARIO(C25, buf_22, "buffered, two producers, two consumers: a failing consumer leaves", o.quick = 0; o.thorough = 0) { buf(2, 2, false); }
MC_SCENARIO(C25, buf_32, "buffered, three producers, two consumers", o.quick = 0; o.thorough = 0) { buf(3, 2, false); }
MC_SCENARIO(C25, unb_thr, "unbuffered between threads", o.quick = 2; o.thorough = 4) { unb(1, 1, true); }
MC_SCENARIO(C25, buf_thr, "buffered between threads", o.quick = 2; o.thorough = 3) { buf(2, 1, true); }
// Results
MC_SCENARIO(C25, copy_promise, "setting and fetching a result whose copy or move throws", o.quick = 0; o.thorough = 0) {
    Scope s; { bf::promise<Bomb> p; auto f = p.get_future(); bool sh = mc::choose(2); int k = mc::choose(4); bool mv = mc::choose(2); Bomb x(3); bool waiter = mc::choose(2); bf::fiber w; int got = 0;
      bf::shared_future<Bomb> sf; if (sh) { sf = f.share(); if (waiter) w = bf::fiber([&] { got = sf.get().get(); }); } else if (waiter) w = bf::fiber([&] { f.wait(); got = 1; }); if (waiter) tf::yield();
      bool thrown = false; fuse() = k; try { if (mv) p.set_value(std::move(x)); else p.set_value(x); } catch (Boomed const&) { thrown = true; } fuse() = -1;
      if (thrown) { MC_CHECK(x.get() == 3); for (int i = 0; i < 3; ++i) tf::yield(); MC_CHECKF(got == 0, "a waiter saw a result that was never set"); MC_CHECKF((sh ? sf.wait_for(ns(0)) : f.wait_for(ns(0))) == bf::future_status::timeout, "set_value() failed, yet the future is ready");
        switch (mc::choose(2)) { case 0: p.set_value(x); break; default: p.set_value(std::move(x)); break; } }
      if (waiter) { w.join(); MC_CHECK(got != 0); }
      if (sh) MC_CHECK(sf.get().get() == 3);
      else { int k2 = mc::choose(3); fuse() = k2; bool t2 = false; try { Bomb y = f.get(); MC_CHECK(y.get() == 3); } catch (Boomed const&) { t2 = true; } fuse() = -1; (void)t2; MC_CHECK(!f.valid()); } }
    s.end("promise");
}
MC_SCENARIO(C25, copy_task, "a packaged task or asynchronous call whose result cannot be stored", o.quick = 0; o.thorough = 0) {
    Scope s; { int k = mc::choose(6); bool as = mc::choose(2); bool hit; auto fn = [] { static thread_local int dummy; (void)dummy; Bomb b(4); return Bomb(b); };
      if (as) { bf::future<Bomb> f = bf::async(fn); fuse() = k; f.wait(); hit = fuse() < 0; fuse() = -1; int r = 0; try { r = f.get().get(); } catch (Boomed const&) { r = -1; } MC_CHECKF(r == (hit ? -1 : 4), "the failure did not reach the future"); }
      else { bf::packaged_task<Bomb()> t(fn); auto f = t.get_future(); fuse() = k; t(); hit = fuse() < 0; fuse() = -1; MC_CHECK(f.wait_for(ns(0)) == bf::future_status::ready); int r = 0; try { r = f.get().get(); } catch (Boomed const&) { r = -1; } MC_CHECKF(r == (hit ? -1 : 4), "the failure did not reach the future"); } }
    for (int i = 0; i < 3; ++i) tf::yield(); s.end("task");
}
// Throwing predicates: the exception arrives with the lock held, and the condition variable still works.
MC_SCENARIO(C25, pred, "condition variable predicates that throw", o.quick = 0; o.thorough = 0) {
    bf::mutex m; bf::condition_variable c; bf::condition_variable_any a; bool any = mc::choose(2); int form = mc::choose(3); int at = mc::choose(3), n = 0; bool thrown = false; bool go = false;
    bf::fiber w([&] { std::unique_lock<bf::mutex> l(m); auto p = [&] { if (n++ == at) throw Boomed(); return go; };
        try { switch (form) { case 0: if (any) a.wait(l, p); else c.wait(l, p); break; case 1: if (any) a.wait_for(l, std::chrono::hours(1), p); else c.wait_for(l, std::chrono::hours(1), p); break; default: if (any) a.wait_until(l, in_ms(5), p); else c.wait_until(l, in_ms(5), p); } } catch (Boomed const&) { thrown = true; }
        MC_CHECKF(l.owns_lock(), "the lock was lost"); MC_CHECKF(l.mutex() == &m, "the lock lost its mutex"); bool got = false; bf::fiber o(bf::launch::dispatch, [&] { got = m.try_lock(); if (got) m.unlock(); }); o.join(); MC_CHECKF(!got, "the mutex is not held"); });
    for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) tf::yield(); c.notify_one(); a.notify_one(); }
    for (int j = 0; j < 2; ++j) tf::yield(); { std::unique_lock<bf::mutex> l(m); go = true; } c.notify_all(); a.notify_all(); w.join(); MC_CHECK(m.try_lock()); m.unlock(); mc::outcome("thrown %d", thrown); MC_CHECKF(thrown == (n > at), "the predicate's exception was swallowed");
}
