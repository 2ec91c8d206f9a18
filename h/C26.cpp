// C26 fiber handles against a reference model
#include "algo.h"
#include <sstream>
#include <set>
typedef bf::fiber::id fid;
// The comparison operators of ids agree with each other and with one strict total order.
static void order(std::vector<fid> const& v) {
    for (auto const& a : v) for (auto const& b : v) {
        bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b; (void)0;
        MC_CHECKF(lt + gt + eq == 1 && ne == !eq && le == !gt && ge == !lt, "id comparisons disagree (< %d > %d <= %d >= %d == %d != %d)", lt, gt, le, ge, eq, ne);
        MC_CHECKF((b > a) == lt && (b < a) == gt && (b == a) == eq, "id comparisons are not symmetric");
        if (eq) { MC_CHECKF(std::hash<fid>()(a) == std::hash<fid>()(b), "equal ids hash differently"); std::ostringstream x, y; x << a; y << b; MC_CHECKF(x.str() == y.str(), "equal ids print differently"); }
        for (auto const& c : v) if (a < b && b < c) MC_CHECKF(a < c, "id order is not transitive");
    }
    for (auto const& a : v) { MC_CHECK(bool(a) == !(!a)); MC_CHECK(bool(a) == (a != fid())); }
}
template<int N> struct Model { bf::fiber h[N]; int own[N]; struct F { bool ended{ false }; int stop{ 0 }; fid id{}; bool held{ true }; }; std::vector<std::unique_ptr<F>> f; bf::mutex m; bf::condition_variable c; bool go{ false }; Model() { for (int& o : own) o = -1; }
    // fibers of kind 1 end only when told to
    int fresh() { f.emplace_back(new F); return (int)f.size() - 1; }
    std::function<void()> body(int i, int kind) { F* x = f[(size_t)i].get(); return [this, x, kind] { x->id = tf::get_id(); MC_CHECK(x->id != fid()); if (kind == 1) { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); } else if (kind == 2) tf::yield(); MC_CHECK(tf::get_id() == x->id); x->ended = true; }; }
    void release() { { std::unique_lock<bf::mutex> l(m); go = true; } c.notify_all(); }
    void verify() {
        std::vector<fid> v{ fid(), tf::get_id() };
        for (int i = 0; i < N; ++i) { MC_CHECKF(h[i].joinable() == (own[i] >= 0), "handle %d: joinable() is %d", i, (int)h[i].joinable()); MC_CHECKF((h[i].get_id() == fid()) == (own[i] < 0), "handle %d: get_id() does not agree with joinable()", i);
            if (own[i] >= 0) { F& x = *f[(size_t)own[i]]; if (x.id != fid()) MC_CHECKF(h[i].get_id() == x.id, "handle %d refers to another fiber", i); MC_CHECKF(h[i].get_id() != tf::get_id(), "handle %d refers to the calling fiber", i); v.push_back(h[i].get_id());
                for (int j = 0; j < i; ++j) if (own[j] >= 0) MC_CHECKF(h[i].get_id() != h[j].get_id(), "two handles own the same fiber"); }
            for (int j = 0; j < N; ++j) MC_CHECK((h[i] < h[j]) == (h[i].get_id() < h[j].get_id())); }
        order(v);
    }
    // a call that must end the program
    template<typename T> void dies(char const* what, T t) { mc::outcome("terminate: %s", what); mc::expect_terminate(true); t(); mc::expect_terminate(false); mc::fail("%s did not terminate the program", what); }
    void step() {
        int i = mc::choose(N), op = mc::choose(10); int j = op == 3 || op == 4 || op == 5 ? mc::choose(N) : 0; mc::log("op %d handle %d (%d)", op, i, j);
        switch (op) {
        case 0: case 1: case 2: { if (own[i] >= 0) mc::discard(); int k = fresh(); auto pol = op == 1 ? bf::launch::dispatch : bf::launch::post; h[i] = bf::fiber(pol, body(k, op == 2 ? 1 : op)); own[i] = k; if (op == 1) MC_CHECKF(f[(size_t)k]->id != fid(), "launch::dispatch did not enter the fiber"); break; }
        case 3: { if (own[i] >= 0) { dies("assigning to a joinable handle", [&] { h[i] = std::move(h[j]); }); } h[i] = std::move(h[j]); if (i != j) { own[i] = own[j]; own[j] = -1; } break; }
        case 4: { fid a = h[i].get_id(), b = h[j].get_id(); if (mc::choose(2)) { h[i].swap(h[j]); } else { using bf::swap; swap(h[i], h[j]); } std::swap(own[i], own[j]); MC_CHECK(h[i].get_id() == b && h[j].get_id() == a); break; }
        case 5: { fid a = h[i].get_id(); bf::fiber t(std::move(h[i])); MC_CHECKF(!h[i].joinable() && t.get_id() == a, "move construction"); int x = own[i]; own[i] = -1; if (own[j] >= 0) { h[i] = std::move(t); own[i] = x; break; } h[j] = std::move(t); own[j] = x; MC_CHECK(!t.joinable()); break; }
        case 6: { int k = own[i]; if (k < 0) { int e = err_of([&] { h[i].join(); }); MC_CHECKF(is_err(e, std::errc::invalid_argument), "join() of an empty handle: error %d", e); } else { release(); h[i].join(); own[i] = -1; MC_CHECKF(f[(size_t)k]->ended, "join() returned before the fiber ended"); go = false; } break; }
        case 7: { if (own[i] < 0) { int e = err_of([&] { h[i].detach(); }); MC_CHECKF(is_err(e, std::errc::invalid_argument), "detach() of an empty handle: error %d", e); } else { h[i].detach(); own[i] = -1; } break; }
        case 8: { if (own[i] >= 0) dies("destroying a joinable handle", [&] { bf::fiber t(std::move(h[i])); }); { bf::fiber t(std::move(h[i])); } { bf::fiber t; MC_CHECK(!t.joinable() && t.get_id() == fid()); } break; }
        case 9: { for (int n = 0; n <= i; ++n) tf::yield(); break; }
        }
        verify();
    }
    void end() { release(); for (int i = 0; i < N; ++i) if (own[i] >= 0) { h[i].join(); MC_CHECK(f[(size_t)own[i]]->ended); } for (auto& x : f) for (int n = 0; n < 20 && !x->ended; ++n) { release(); tf::yield(); } for (auto& x : f) MC_CHECKF(x->ended, "a detached fiber did not run"); }
};
template<int N> static void run(int depth) { Model<N> m; for (int i = 0; i < depth; ++i) m.step(); m.end(); }
MC_SCENARIO(C26, model, "every sequence of handle operations", o.quick = 0; o.thorough = 0) { run<3>(4); }
MC_SCENARIO(C26, model2, "longer sequences over two handles", o.quick = 0; o.thorough = 0; o.thorough_only = true) { run<2>(5); }
MC_SCENARIO(C26, model_two, "sequences over two handles", o.quick = 0; o.thorough = 0) { run<2>(4); }
// Errors of join(): by the fiber itself, through its own handle or one it was given
MC_SCENARIO(C26, self, "a fiber joins itself", o.quick = 0; o.thorough = 0) {
    bf::fiber f; int e = 0; int how = mc::choose(3); bool any = mc::choose(2); if (any) bf::use_scheduling_algorithm<Chooser>(ANY);
    auto go = [&] { tf::yield(); switch (how) { case 0: e = err_of([&] { f.join(); }); break; case 1: { bf::fiber g(std::move(f)); e = err_of([&] { g.join(); }); f = std::move(g); break; } default: { bf::fiber g(bf::launch::dispatch, [&] { tf::yield(); }); fid me = tf::get_id(); g.join(); MC_CHECK(tf::get_id() == me); e = err_of([&] { f.join(); }); } } MC_CHECK(f.joinable() && f.get_id() == tf::get_id()); };
    f = bf::fiber(go); f.join(); MC_CHECKF(is_err(e, std::errc::resource_deadlock_would_occur), "joining itself: error %d", e); MC_CHECK(!f.joinable());
    if (any) bf::use_scheduling_algorithm<bf::algo::round_robin>();
}
MC_SCENARIO(C26, main_self, "the main fiber has an id; empty handles never compare equal to it", o.quick = 0; o.thorough = 0) {
    fid me = tf::get_id(); MC_CHECK(me != fid() && me == tf::get_id()); bf::fiber e; MC_CHECK(e.get_id() != me); int r = err_of([&] { e.join(); }); MC_CHECK(is_err(r, std::errc::invalid_argument)); order({ me, fid(), e.get_id() });
    std::ostringstream a, b; a << me; b << fid(); MC_CHECK(a.str() != b.str());
    bf::fiber f([me] { MC_CHECK(tf::get_id() != me); fid mine = tf::get_id(); for (int i = 0; i < 3; ++i) { tf::yield(); MC_CHECK(tf::get_id() == mine); } }); while (mc::choose(2) && mc::reg(5)++ < 3) { tf::yield(); MC_CHECK(tf::get_id() == me); } f.join();
}
// Ids of all fibers alive at one time, in several threads, are different.
MC_SCENARIO(C26, ids_threads, "ids are unique across threads", o.quick = 2; o.thorough = 4) {
    bf::mutex m; bf::condition_variable c; std::vector<fid> v; bool go = false; int n = 0;
    auto reg = [&] { std::unique_lock<bf::mutex> l(m); fid me = tf::get_id(); for (auto x : v) MC_CHECKF(x != me, "two live fibers have the same id"); v.push_back(me); if (++n == 4) { go = true; c.notify_all(); } while (!go) c.wait(l); MC_CHECKF(tf::get_id() == me, "the id of a fiber changed"); };
    auto body = [&] { fid main = tf::get_id(); bf::fiber f(reg); MC_CHECK(f.get_id() != main); fid fi = f.get_id(); reg(); MC_CHECK(f.get_id() == fi && tf::get_id() == main); f.join(); };
    std::thread t(body); body(); t.join(); order(v);
}
// join() while the fiber ends, from the same or another thread; the handle is empty afterwards.
MC_SCENARIO(C26, join_race, "join() from another thread while the fiber ends", o.quick = 3; o.thorough = 5) {
    bf::fiber h; bool ended = false; std::mutex mx; std::condition_variable cv; bool have = false; int k = mc::choose(3);
    std::thread t([&] { bf::use_scheduling_algorithm<Polite>(); bf::fiber f(k ? bf::launch::post : bf::launch::dispatch, [&] { if (k == 2) tf::yield(); ended = true; }); { std::unique_lock<std::mutex> l(mx); h = std::move(f); have = true; } cv.notify_one(); });
    { std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return have; }); }
    h.join(); MC_CHECKF(ended, "join() returned before the fiber ended"); MC_CHECK(!h.joinable() && h.get_id() == fid()); int e = err_of([&] { h.join(); }); MC_CHECK(is_err(e, std::errc::invalid_argument)); t.join();
}
MC_SCENARIO(C26, dtor_thread, "the destructor of a joinable handle terminates, whatever the fiber's state", o.quick = 0; o.thorough = 0) {
    int st = mc::choose(4); auto p = new bf::fiber(st == 3 ? bf::launch::dispatch : bf::launch::post, [&] { if (st == 1) tf::yield(); }); if (st == 2) for (int i = 0; i < 3; ++i) tf::yield();
    MC_CHECKF(p->joinable(), "a handle whose fiber has ended is still joinable"); mc::expect_terminate(true); mc::outcome("terminate %d", st); delete p; mc::expect_terminate(false); mc::fail("the destructor of a joinable fiber returned");
}

// an exception that leaves the fiber's function ends the program; nobody sees the fiber as ended normally
MC_SCENARIO(C26, escapes, "an exception escapes from a fiber's function, at any point and whoever waits", o.quick = 0; o.thorough = 0) {
    auto pol = mc::choose(2) ? bf::launch::post : bf::launch::dispatch; int form = mc::choose(4), at = mc::choose(3), kind = mc::choose(3); bool blocked = mc::choose(2); bf::promise<void> p;
    auto boom = [&] { for (int i = 0; i < at; ++i) tf::yield(); if (blocked) p.get_future().wait(); if (kind == 0) throw 7; if (kind == 1) throw std::runtime_error("x"); throw bf::fiber_error(std::make_error_code(std::errc::io_error)); };
    auto go = [&] { bf::fiber f; switch (form) { case 0: f = bf::fiber(pol, [&] { boom(); }); break; case 1: f = bf::fiber(pol, std::allocator_arg, bf::fixedsize_stack(), [&](int) { boom(); }, 3); break; case 2: f = bf::fiber(pol, [&] { bf::fiber(pol, [&] { boom(); }).join(); }); break; case 3: bf::fiber(pol, [&] { boom(); }).detach(); break; }
        for (int i = 0; i < 4; ++i) tf::yield(); if (blocked) { p.set_value(); tf::yield(); tf::yield(); } if (f.joinable()) f.join(); };
    mc::outcome("terminate"); mc::expect_terminate(true); go(); mc::expect_terminate(false); mc::fail("an exception escaped from a fiber's function and the program goes on");
}
