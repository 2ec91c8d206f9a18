// C20 a custom scheduling algorithm gets every ready fiber exactly once
#include "algo.h"
#include "fut.h"

static constexpr int64_t MS = 1000000;
struct Watched : Chooser { bf::context* last{ nullptr }; long ext{ 0 }; explicit Watched(Watched** s, Pick p, int b) : Chooser(p, b) { *s = this; }
    bf::context* pick_next() noexcept override { bf::context* c = Chooser::pick_next(); if (c) last = c; return c; }
    void notify() noexcept override { if (std::this_thread::get_id() != m.home) ++mc::reg(10); Chooser::notify(); } };
static Watched* W;
static void resumed() { MC_CHECKF(W->last == bf::context::active(), "a fiber runs although the algorithm picked another one"); for (auto c : W->m.rq) MC_CHECKF(c != bf::context::active(), "the running fiber is in the ready queue"); }
static void install(Pick how, int budget) { bf::use_scheduling_algorithm<Watched>(&W, how, budget); }

// every primitive, three fibers plus main, any pick order
static void prim(int p, int budget) {
    install(ANY, budget);
    bf::mutex m; bf::timed_mutex tm; bf::recursive_mutex rm; bf::condition_variable c; bf::barrier b(3); bf::buffered_channel<int> ch(2); bf::unbuffered_channel<int> uc; bf::promise<int> pr; auto sf = pr.get_future().share(); Guarded g; int cnt = 0; bool flag = false; int sum = 0; int64_t t0 = mc::now_ns();
    auto body = [&](int i) {
        switch (p) {
        case 0: for (int k = 0; k < 2; ++k) { m.lock(); g.enter(i); tf::yield(); g.leave(i); m.unlock(); } ++cnt; break;
        case 1: { std::unique_lock<bf::mutex> l(m); if (i == 3) { flag = true; c.notify_all(); } else while (!flag) { c.wait(l); MC_CHECK(l.owns_lock()); } ++cnt; break; }
        case 2: { bool r = b.wait(); sum += r; ++cnt; r = b.wait(); sum += r; break; }
        case 3: if (i == 1) { for (int k = 0; k < 3; ++k) MC_CHECK(ch.push(k) == bf::channel_op_status::success); ch.close(); } else { int v, lastv = -1; while (ch.pop(v) == bf::channel_op_status::success) { MC_CHECK(v > lastv); lastv = v; sum += v + 1; } } ++cnt; break;
        case 4: if (i == 1) { for (int k = 0; k < 2; ++k) MC_CHECK(uc.push(k) == bf::channel_op_status::success); uc.close(); } else { int v; while (uc.pop(v) == bf::channel_op_status::success) sum += v + 1; } ++cnt; break;
        case 5: if (i == 1) pr.set_value(3); else sum += sf.get(); ++cnt; break;
        case 6: { bf::fiber x([&] { tf::yield(); sum++; }); x.join(); ++cnt; break; }
        case 7: tf::sleep_until(at_ns(t0 + (3 - i) * MS)); MC_CHECK(mc::now_ns() >= t0 + (3 - i) * MS); ++cnt; break;
        case 8: if (tm.try_lock_until(at_ns(t0 + i * MS))) { g.enter(i); tf::sleep_for(ms(1)); g.leave(i); tm.unlock(); ++sum; } ++cnt; break;
        case 9: rm.lock(); rm.lock(); g.enter(i); tf::yield(); g.leave(i); rm.unlock(); rm.unlock(); ++cnt; break;
        case 10: { std::unique_lock<bf::mutex> l(m); if (i == 3) { flag = true; c.notify_one(); c.notify_one(); } else { bool r = c.wait_until(l, at_ns(t0 + 5 * MS), [&] { return flag; }); MC_CHECK(r || mc::now_ns() >= t0 + 5 * MS); } ++cnt; break; }
        }
        resumed();
    };
    bf::fiber h[3]; for (int i = 0; i < 3; ++i) h[i] = bf::fiber(bf::launch::post, body, i + 1);
    for (auto& x : h) { x.join(); resumed(); }
    MC_CHECK(cnt == 3); if (p == 2) MC_CHECK(sum == 2); if (p == 3) MC_CHECK(sum == 6); if (p == 4) MC_CHECK(sum == 3); if (p == 5) MC_CHECK(sum == 6); if (p == 6) MC_CHECK(sum == 3);
}
#define PRIM(NAME, N, Q, T) MC_SCENARIO(C20, NAME, "three fibers using " #NAME ", any pick order", o.quick = 0; o.thorough = 0) { prim(N, mc::thorough() ? T : Q); }
PRIM(mutex, 0, 11, 14) PRIM(cv, 1, 11, 14) PRIM(barrier, 2, 11, 14) PRIM(buffered, 3, 11, 14) PRIM(unbuffered, 4, 11, 14) PRIM(future, 5, 10, 20) PRIM(join, 6, 10, 12) PRIM(sleep, 7, 11, 14) PRIM(timed_mutex, 8, 11, 14) PRIM(recursive_mutex, 9, 11, 14) PRIM(timed_cv, 10, 11, 14)

// dispatch launch: the launcher is handed over exactly when the new fiber runs
MC_SCENARIO(C20, dispatch, "dispatch launches, nested, any pick order", o.quick = 0; o.thorough = 0) {
    install(ANY, 12); int n = 0;
    bf::fiber a(bf::launch::dispatch, [&] { MC_CHECK(W->m.rq.size() >= 1); bf::fiber b(mc::choose(2) ? bf::launch::dispatch : bf::launch::post, [&] { tf::yield(); resumed(); ++n; }); if (mc::choose(2)) tf::yield(); b.join(); resumed(); ++n; });
    resumed(); if (mc::choose(2)) { tf::yield(); resumed(); } a.join(); resumed(); MC_CHECK(n == 2);
}
// the idle hook gets exactly the earliest pending time point
MC_SCENARIO(C20, idle_deadline, "idle hook entered only with nothing ready and with the earliest time point", o.quick = 0; o.thorough = 0) {
    install(ANY, 6); std::vector<int64_t> pending; int64_t t0 = mc::now_ns(); int idles = 0; bool any_late = false; bf::promise<void> never; auto nf = never.get_future().share();
    W->m.on_idle = [&](clk::time_point tp) { ++idles; int64_t mn = tp_ns((clk::time_point::max)()); for (auto p : pending) mn = std::min(mn, p); MC_CHECKF(tp_ns(tp) == mn, "idle hook got %lld, the earliest pending time point is %lld", (long long)tp_ns(tp), (long long)mn); };
    bf::mutex m; bf::condition_variable c; bf::fiber h[3]; static int64_t const off[] = { -MS, 0, MS, 2 * MS, 3 * MS };
    for (int i = 0; i < 3; ++i) { int64_t tp = t0 + off[mc::choose(5)]; int kind = mc::choose(3);
        h[i] = bf::fiber(bf::launch::dispatch, [&, tp, kind] { if (kind == 2) { nf.wait(); return; } pending.push_back(tp); if (kind == 0) tf::sleep_until(at_ns(tp)); else { std::unique_lock<bf::mutex> l(m); while (c.wait_until(l, at_ns(tp)) == bf::cv_status::no_timeout) {} } pending.erase(std::find(pending.begin(), pending.end(), tp)); }); }
    tf::sleep_until(at_ns(t0 - 1)); { int64_t end = t0 + 10 * MS; pending.push_back(end); tf::sleep_until(at_ns(end)); pending.clear(); } never.set_value();
    for (auto& x : h) x.join();
    W->m.on_idle = nullptr; MC_CHECK(idles >= 1); (void)any_late;
}
// notify() reaches the algorithm for every remote wake-up
MC_SCENARIO(C20, remote_notify, "another thread wakes two suspended fibers", o.quick = 4; o.thorough = 6; o.spurious = true) {
    mc::reg(10) = 0; bf::promise<int> a, b; auto fa = a.get_future(), fb = b.get_future(); int sum = 0; std::atomic<int> suspended{ 0 };
    install(FIFO, 0);
    bool pre = mc::choose(2);
    std::thread t([&] { bool both = suspended.load() == 2; long n0 = mc::reg(10); a.set_value(1); long n1 = mc::reg(10); MC_CHECK(n1 >= n0 && n1 <= n0 + 1); b.set_value(2); long n2 = mc::reg(10); (void)both; mc::outcome("%ld", n2); });
    bf::fiber x([&] { ++suspended; sum += fa.get(); resumed(); }), y([&] { ++suspended; sum += fb.get(); resumed(); });
    if (pre) tf::yield();
    x.join(); y.join(); t.join(); MC_CHECK(sum == 3);
}
// notify() before or after the idle hook: never both missed (the monitor's own condition variable would hang)
MC_SCENARIO(C20, remote_suspended, "remote wake-up of fibers that are certainly suspended is announced by notify()", o.quick = 3; o.thorough = 5) {
    mc::reg(10) = 0; bf::promise<int> a; auto fa = a.get_future(); install(FIFO, 0); std::unique_ptr<std::thread> t;
    W->m.on_idle = [&](clk::time_point) { if (!t) t.reset(new std::thread([&] { long n = mc::reg(10); a.set_value(1); MC_CHECKF(mc::reg(10) == n + 1, "notify() was called %ld times for one remote wake-up", (long)(mc::reg(10) - n)); })); };
    bf::fiber x([&] { MC_CHECK(fa.get() == 1); resumed(); }); x.join(); t->join(); W->m.on_idle = nullptr;
}
// properties stay with their fiber
struct Props : bf::fiber_properties { int id{ -1 }; int prio{ 0 }; bf::context*& who{ ctx_ }; Props(bf::context* c) : bf::fiber_properties(c) { ++mc::reg(20); } ~Props() { --mc::reg(20); } void set_prio(int p) { if (p != prio) { prio = p; notify(); } } };
struct Prio : bf::algo::algorithm_with_properties<Props> { Monitor m; bf::scheduler::ready_queue_type q; long changes{ 0 }; static Prio* self; Prio() : m(FIFO) { self = this; } using bf::algo::algorithm_with_properties<Props>::awakened;
    void put(bf::context* c, Props& p) { auto i = q.begin(); while (i != q.end() && properties(&*i).prio >= p.prio) ++i; q.insert(i, *c); }
    void awakened(bf::context* c, Props& p) noexcept override { MC_CHECKF(p.who == c, "awakened() got the properties of another fiber"); MC_CHECK(!c->ready_is_linked()); MC_CHECK(bf::context::active() != c); put(c, p); }
    bf::context* pick_next() noexcept override { if (q.empty()) return nullptr; bf::context* c = &q.front(); q.pop_front(); return c; }
    bool has_ready_fibers() const noexcept override { return !q.empty(); }
    void suspend_until(clk::time_point const& t) noexcept override { MC_CHECK(q.empty()); m.idle(t); } void notify() noexcept override { m.wake(); }
    void property_change(bf::context* c, Props& p) noexcept override { MC_CHECKF(p.who == c, "property_change() for a wrong fiber"); MC_CHECKF(c->ready_is_linked(), "property_change() for a fiber that is not ready"); ++changes; c->ready_unlink(); put(c, p); } };
Prio* Prio::self;
MC_SCENARIO(C20, properties, "properties set by launcher and fiber, changed while ready/running/blocked", o.quick = 0; o.thorough = 0) {
    mc::reg(20) = 0;
    { bf::use_scheduling_algorithm<Prio>(); std::vector<int> order; bf::fiber h[3]; int pr[3]; bf::mutex m; bool lock = mc::choose(2); bool late[3]; if (lock) m.lock();
      for (int i = 0; i < 3; ++i) { pr[i] = mc::choose(3); late[i] = mc::choose(2); auto fn = [&, i] { auto& p = tf::properties<Props>(); MC_CHECKF(p.id == i && p.prio == pr[i], "fiber sees the properties of another"); if (lock) { m.lock(); m.unlock(); } tf::yield(); MC_CHECK(tf::properties<Props>().id == i); order.push_back(i); };
        if (mc::choose(2)) { Props* own = new Props(nullptr); h[i] = bf::fiber(static_cast<bf::fiber_properties*>(own), fn); MC_CHECK(&h[i].properties<Props>() == own); } else h[i] = bf::fiber(fn);
        h[i].properties<Props>().id = i; if (!late[i]) { long c = Prio::self->changes; h[i].properties<Props>().set_prio(pr[i]); MC_CHECK(Prio::self->changes == c + (pr[i] != 0)); } }
      for (int i = 0; i < 3; ++i) if (late[i]) h[i].properties<Props>().set_prio(pr[i]);
      if (lock) { tf::properties<Props>(); m.unlock(); }
      for (auto& x : h) x.join();
      if (!lock) for (int i = 0; i + 1 < 3; ++i) MC_CHECKF(pr[order[i]] >= pr[order[i + 1]], "fibers did not run in the order the algorithm chose");
    }
}
MC_SCENARIO(C20, properties_mt, "properties survive remote wake-ups and are released with the fiber", o.quick = 3; o.thorough = 5) {
    { bf::use_scheduling_algorithm<Prio>(); bf::promise<int> p; auto f = p.get_future(); std::thread t([&] { p.set_value(1); }); bf::fiber x([&] { tf::properties<Props>().id = 7; MC_CHECK(f.get() == 1); MC_CHECK(tf::properties<Props>().id == 7); }); x.join(); t.join(); }
}
// LIFO with remote wake-ups: nobody is lost
MC_SCENARIO(C20, remote_any, "remote wake-ups under any pick order", o.quick = 2; o.thorough = 3) {
    install(ANY, 8); bf::buffered_channel<int> ch(2); int sum = 0;
    std::thread t([&] { for (int i = 1; i <= 3; ++i) ch.push(i); ch.close(); });
    auto body = [&] { int v; while (ch.pop(v) == bf::channel_op_status::success) { sum += v; resumed(); } };
    bf::fiber x(body), y(body); x.join(); y.join(); t.join(); MC_CHECK(sum == 6);
}
// a sleeper, a remote wake-up and a ready fiber compete
MC_SCENARIO(C20, mixed, "sleep, remote wake-up and yield together under any pick order", o.quick = 2; o.thorough = 3; o.timedev = true) {
    install(ANY, 7); bf::promise<int> p; auto f = p.get_future(); int64_t t0 = mc::now_ns(); mc::milestone_ns(t0 + MS); int n = 0;
    std::thread t([&] { p.set_value(1); });
    bf::fiber s([&] { tf::sleep_until(at_ns(t0 + MS)); MC_CHECK(mc::now_ns() >= t0 + MS); resumed(); ++n; }), w([&] { f.get(); resumed(); ++n; }), y([&] { tf::yield(); resumed(); ++n; });
    s.join(); w.join(); y.join(); t.join(); MC_CHECK(n == 3);
}
// every way to construct a fiber with its own properties: they are in place from its first instruction on
MC_SCENARIO(C20, properties_ctor, "fiber constructors that take properties, post and dispatch: in place at once, changed while running, blocked and ready, released with the fiber", o.quick = 0; o.thorough = 0) {
    mc::reg(20) = 0;
    { bf::use_scheduling_algorithm<Prio>(); bf::fiber h[2]; Props* own[2]; int ran = 0; static char const* const form[] = { "plain", "policy", "stack", "policy and stack" }; (void)form;
      for (int i = 0; i < 2; ++i) {
          own[i] = new Props(nullptr); own[i]->id = i; own[i]->prio = mc::choose(2); bool quiet = mc::choose(2); int arg = 40 + i;
          auto fn = [&, i, quiet](int a) { MC_CHECKF(a == 40 + i, "argument lost"); auto& p = tf::properties<Props>(); MC_CHECKF(&p == own[i] && p.who == bf::context::active(), "the fiber does not see the properties it was given");
              long c = Prio::self->changes; if (!quiet) { p.set_prio(5 - i); MC_CHECKF(Prio::self->changes == c, "a change made by a running fiber reached the algorithm"); }
              tf::yield(); MC_CHECK(&tf::properties<Props>() == own[i]); tf::sleep_for(ms(1)); MC_CHECK(&tf::properties<Props>() == own[i]); ++ran; };
          bf::launch pol = mc::choose(2) ? bf::launch::dispatch : bf::launch::post; bf::fiber_properties* fp = own[i];
          switch (mc::choose(4)) {
          case 0: pol = bf::launch::post; h[i] = bf::fiber(fp, fn, arg); break;
          case 1: h[i] = bf::fiber(pol, fp, fn, arg); break;
          case 2: pol = bf::launch::post; h[i] = bf::fiber(fp, std::allocator_arg, bf::default_stack(), fn, arg); break;
          default: h[i] = bf::fiber(pol, fp, std::allocator_arg, bf::default_stack(), fn, arg); break;
          }
          MC_CHECKF(&h[i].properties<Props>() == own[i], "the handle shows other properties");
          if (mc::choose(2)) { long c = Prio::self->changes; bool expect = own[i]->prio != 7 && own[i]->who->ready_is_linked(); h[i].properties<Props>().set_prio(7); MC_CHECK(Prio::self->changes == c + expect); }
      }
      tf::sleep_for(std::chrono::microseconds(500)); { long c = Prio::self->changes; h[0].properties<Props>().set_prio(9); MC_CHECKF(Prio::self->changes == c, "a change of a sleeping fiber reached the algorithm"); }
      MC_CHECK(mc::reg(20) >= 2); for (auto& x : h) x.join(); MC_CHECK(ran == 2); tf::yield(); }
}
