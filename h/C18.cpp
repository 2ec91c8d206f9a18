// C18 packaged_task and async run the callable once and carry its outcome
#include "fut.h"

// callable with identity: counts its runs, tracks copies
struct Job { int id; int* runs; int mode; FV tag; Job(int i, int* r, int m) : id(i), runs(r), mode(m), tag(i) {}
    int operator()(int x, FV y) { ++*runs; tag.get(); if (mode == 1) throw Boom{ x }; if (mode == 2) tf::yield(); return id * 100 + x * 10 + y.get(); } };
struct JobV { int id; int* runs; int mode; FV tag; JobV(int i, int* r, int m) : id(i), runs(r), mode(m), tag(i) {}
    void operator()(int x, FV y) { ++*runs; tag.get(); y.get(); if (mode == 1) throw Boom{ x }; if (mode == 2) tf::yield(); } };
static int rcell[10];
struct JobR { int id; int* runs; int mode; FV tag; JobR(int i, int* r, int m) : id(i), runs(r), mode(m), tag(i) {}
    int& operator()(int x, FV y) { ++*runs; tag.get(); y.get(); if (mode == 1) throw Boom{ x }; if (mode == 2) tf::yield(); return rcell[x]; } };

template<typename R, typename J> struct TaskModel {
    using T = bf::packaged_task<R(int, FV)>;
    struct MT { int s{ -1 }; bool obt{ false }; int job{ 0 }, mode{ 0 }; };
    std::vector<MState> S; T t[2]; MT m[2]; bf::future<R> f[2]; int mf[2]{ -1, -1 }; int runs{ 0 }, want_runs{ 0 }, jobs{ 0 };
    int fresh() { S.push_back(MState{}); return (int)S.size() - 1; }
    void abandon(MT& x) { if (x.s >= 0 && x.obt && !S[x.s].ready) S[x.s] = { true, BROKEN }; x = MT{}; }
    int take(bf::future<R>& x) { if constexpr (std::is_void<R>::value) { x.get(); return OK; } else if constexpr (std::is_reference<R>::value) { return (int)(&x.get() - rcell); } else return x.get(); }
    void expect(char const* op, int got, int want) { MC_CHECKF(got == want, "%s: got %d, expected %d", op, got, want); }
    void step(int op, int i, int mode) {
        int j = 1 - i; MT& a = m[i];
        switch (op) {
        case 0: { int id = ++jobs; if (mode & 1) { J job(id, &runs, mode); t[i] = T(job); } else t[i] = T(J(id, &runs, mode)); abandon(a); a.s = fresh(); a.job = id; a.mode = mode; break; }
        case 1: { int want = a.obt ? RETRIEVED : a.s < 0 ? T_UNINIT : OK; expect("get_future", res([&] { f[i] = t[i].get_future(); return OK; }), want); if (want == OK) { a.obt = true; mf[i] = a.s; } break; }
        case 2: { int x = 3 + i; int want = a.s < 0 ? T_UNINIT : S[a.s].ready ? SATISFIED : OK; if (a.s >= 0) want_runs++;
            expect("call", res([&] { t[i](x, FV(4)); return OK; }), want);
            if (want == OK) S[a.s] = { true, a.mode == 1 ? BOOM - x : std::is_void<R>::value ? OK : std::is_reference<R>::value ? x : a.job * 100 + x * 10 + 4 }; if (want == SATISFIED) want_runs = runs; break; }
        case 3: { int want = a.s < 0 ? T_UNINIT : OK; expect("reset", res([&] { t[i].reset(); return OK; }), want); if (want == OK) { MT n; n.s = fresh(); n.job = a.job; n.mode = a.mode; abandon(a); a = n; } break; }
        case 4: { t[i] = std::move(t[j]); MT n = m[j]; m[j] = MT{}; abandon(a); a = n; break; }
        case 5: { if (i) t[i].swap(t[j]); else { using bf::swap; swap(t[i], t[j]); } std::swap(m[i], m[j]); break; }
        case 6: { if (mf[i] >= 0 && !S[mf[i]].ready) mc::discard(); int want = mf[i] < 0 ? F_UNINIT : S[mf[i]].r; expect("get", res([&] { return take(f[i]); }), want); mf[i] = -1; break; }
        case 7: { { T n(std::move(t[i])); MC_CHECK(!t[i].valid()); } abandon(a); break; }
        }
        for (int k = 0; k < 2; ++k) { MC_CHECKF(t[k].valid() == (m[k].s >= 0), "valid() is wrong"); MC_CHECK(f[k].valid() == (mf[k] >= 0)); if (mf[k] >= 0) { bool r = f[k].wait_for(ns(0)) == bf::future_status::ready; MC_CHECKF(r == S[mf[k]].ready, "the future is %sready", r ? "" : "not "); } }
        MC_CHECKF(runs == want_runs, "callable ran %d times, expected %d", runs, want_runs);
    }
};
template<typename R, typename J> void programs() {
    FBal bal; TaskModel<R, J> m; int n = mc::thorough() ? 6 : 5; int mode = mc::choose(3);
    m.step(0, 0, mode);
    for (int k = 1; k < n; ++k) { int c = mc::choose(16); m.step(c / 2, c & 1, mode); }
}
MC_SCENARIO(C18, programs_value, "every sequence of packaged_task operations against the reference model (value)", o.quick = 0; o.thorough = 0) { programs<int, Job>(); }
MC_SCENARIO(C18, programs_void, "every sequence of packaged_task operations against the reference model (void)", o.quick = 0; o.thorough = 0) { programs<void, JobV>(); }
MC_SCENARIO(C18, programs_ref, "every sequence of packaged_task operations against the reference model (reference)", o.quick = 0; o.thorough = 0) { programs<int&, JobR>(); }

// task run on another thread or fiber while somebody waits
MC_SCENARIO(C18, threads, "task invoked on another thread while its future is awaited", o.quick = 4; o.thorough = 6; o.spurious = true) {
    FBal bal; int runs = 0; int mode = mc::choose(3); bf::packaged_task<int(int, FV)> t(Job(1, &runs, mode)); auto f = t.get_future();
    std::thread a([q = std::move(t)]() mutable { q(3, FV(4)); });
    int r = res([&] { return f.get(); }); MC_CHECK(runs == 1); MC_CHECK(r == (mode == 1 ? BOOM - 3 : 134));
    a.join();
}
MC_SCENARIO(C18, in_fiber, "task moved into a fiber by each launch policy, awaited by others", o.quick = 0; o.thorough = 0) {
    FBal bal; int runs = 0; int mode = mc::choose(3); bool disp = mc::choose(2), det = mc::choose(2); bf::packaged_task<int(int, FV)> t(Job(1, &runs, mode)); auto f = t.get_future();
    bf::fiber x(disp ? bf::launch::dispatch : bf::launch::post, std::move(t), 3, FV(4)); MC_CHECK(!t.valid()); MC_CHECK(!disp || runs == 1); MC_CHECK(disp || runs == 0);
    if (det) x.detach();
    bf::shared_future<int> s = f.share(); int got = 0;
    bf::fiber y([&] { got = res([&] { return s.get(); }); });
    int r = res([&] { return s.get(); }); MC_CHECK(r == (mode == 1 ? BOOM - 3 : 134)); y.join(); MC_CHECK(got == r && runs == 1);
    if (!det) x.join();
}
// async: once, arguments forwarded, future ready only when the function has finished; destroying the future does not block or cancel
template<typename F> static auto call_async(int how, F f) {
    switch (how) {
    case 0: return bf::async(f, 3, FV(4));
    case 1: return bf::async(bf::launch::dispatch, f, 3, FV(4));
    case 2: return bf::async(bf::launch::post, std::allocator_arg, boost::context::fixedsize_stack(64 * 1024), f, 3, FV(4));
    default: return bf::async(bf::launch::post, std::allocator_arg, boost::context::fixedsize_stack(64 * 1024), std::allocator<char>(), f, 3, FV(4));
    }
}
MC_SCENARIO(C18, async, "async with every signature, outcome, and order of waiting", o.quick = 0; o.thorough = 0) {
    FBal bal; int how = mc::choose(4), mode = mc::choose(3), w = mc::choose(4); int runs = 0; bool fin = false;
    {
        auto f = call_async(how, [&, j = Job(1, &runs, mode)](int x, FV y) mutable { struct G { bool& b; ~G() { b = true; } } g{ fin }; return j(x, y); });
        MC_CHECK(how != 1 || mode == 2 || (runs == 1 && fin)); MC_CHECK(how == 1 || runs == 0);
        bool rdy = f.wait_for(ns(0)) == bf::future_status::ready; MC_CHECK(!rdy || fin);
        for (int i = mc::choose(3); i; --i) tf::yield();
        rdy = w && f.wait_for(ns(0)) == bf::future_status::ready; MC_CHECKF(!rdy || fin, "async's future is ready before its function finished");
        if (w == 1) { int r = res([&] { return f.get(); }); MC_CHECK(fin && runs == 1 && r == (mode == 1 ? BOOM - 3 : 134)); }
        else if (w == 2) { f.wait(); MC_CHECK(fin && runs == 1); }
        else if (w == 3) { auto s = f.share(); bf::fiber x([&] { s.wait(); MC_CHECK(fin); }); x.join(); MC_CHECK(res([&] { return s.get(); }) == (mode == 1 ? BOOM - 3 : 134)); }
    }   // w == 0: the future is dropped, the function still runs
    while (!fin) tf::yield();
    tf::yield(); tf::yield();
    MC_CHECK(runs == 1);
}
MC_SCENARIO(C18, async_mt, "results of async carried to another thread", o.quick = 3; o.thorough = 5) {
    FBal bal; int runs = 0; int mode = mc::choose(3); int data = 0; bf::future<int> f;
    std::thread a([&] {
        bf::promise<bf::future<int>> p; auto pf = p.get_future();
        bf::promise<void> done; auto df = done.get_future();
        std::thread b([&] { auto g = pf.get(); int r = res([&] { return g.get(); }); MC_CHECK(data == 9); MC_CHECK(r == (mode == 1 ? BOOM - 3 : 134)); done.set_value(); });
        p.set_value(bf::async([&](int x, FV y) { data = 9; return Job(1, &runs, mode)(x, y); }, 3, FV(4)));
        df.wait(); b.join();
    });
    a.join();
    MC_CHECK(runs == 1);
}
// arguments: by value, moved, references via std::ref
MC_SCENARIO(C18, args, "argument passing of packaged_task and async", o.quick = 0; o.thorough = 0) {
    FBal bal; int x = 1; FV keep(5);
    auto f = bf::async(mc::choose(2) ? bf::launch::post : bf::launch::dispatch, [](std::reference_wrapper<int> r, FV a, std::unique_ptr<int> p) { r.get() += *p; return a; }, std::ref(x), keep, std::unique_ptr<int>(new int(6)));
    FV r = f.get(); MC_CHECK(r.get() == 5 && keep.get() == 5 && x == 7);
    bf::packaged_task<std::unique_ptr<int>(std::unique_ptr<int>)> t([](std::unique_ptr<int> p) { ++*p; return p; }); auto g = t.get_future(); t(std::unique_ptr<int>(new int(1))); MC_CHECK(*g.get() == 2);
}

// a callable or argument given as an rvalue is moved, never copied (so that move-only ones work and state is not duplicated)
struct Cnt { int v; static long& copies() { return mc::reg(70); } explicit Cnt(int x) : v(x) {} Cnt(Cnt const& o) : v(o.v) { ++copies(); } Cnt(Cnt&& o) noexcept : v(o.v) { o.v = -1; } Cnt& operator=(Cnt const& o) { v = o.v; ++copies(); return *this; } Cnt& operator=(Cnt&& o) noexcept { v = o.v; o.v = -1; return *this; } };
struct CFn { Cnt c; int n{ 0 }; int operator()(Cnt a) { ++n; return c.v * 100 + a.v * 10 + n; } };
MC_SCENARIO(C18, moved, "callables and arguments given as rvalues, through every construction, move, swap, reset and launch", o.quick = 0; o.thorough = 0) {
    Cnt::copies() = 0; int form = mc::choose(4); auto pol = mc::choose(2) ? bf::launch::post : bf::launch::dispatch; int got = -1, want = 731;
    if (form == 0) { bf::packaged_task<int(Cnt)> t(CFn{ Cnt(7) }); int used = 0;
        for (int i = 0; i < 3; ++i) switch (mc::choose(5)) { case 0: { bf::packaged_task<int(Cnt)> u(std::move(t)); t = std::move(u); break; } case 1: { bf::packaged_task<int(Cnt)> u; u.swap(t); t.swap(u); break; } case 2: t.reset(); break; case 3: { auto f = t.get_future(); t(Cnt(3)); ++used; MC_CHECK(f.get() == 730 + used); t.reset(); break; } case 4: break; }
        auto f = t.get_future(); if (mc::choose(2)) bf::fiber(pol, std::move(t), Cnt(3)).join(); else t(Cnt(3)); got = f.get(); want = 731 + used; }
    else if (form == 1) got = bf::async(pol, CFn{ Cnt(7) }, Cnt(3)).get();
    else if (form == 2) { CFn fn{ Cnt(7) }; bf::fiber(pol, [&got, fn = std::move(fn)](Cnt a) mutable { got = fn(std::move(a)); }, Cnt(3)).join(); }
    else { bf::packaged_task<int(Cnt)> t(std::allocator_arg, std::allocator<char>(), CFn{ Cnt(7) }); t.reset(); auto f = t.get_future(); t(Cnt(3)); got = f.get(); }
    MC_CHECKF(got == want, "called with %d instead of %d", got, want); MC_CHECKF(Cnt::copies() == 0, "%ld copies", Cnt::copies());
}
