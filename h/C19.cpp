// C19 fiber_specific_ptr: per fiber values, cleaned up exactly once
#include "common.h"
#include <boost/fiber/algo/shared_work.hpp>
// value; every object has an id whose fate is recorded
struct Obj { int id; explicit Obj(int i) : id(i) { mc::reg(i)++; } ~Obj() { MC_CHECKF(mc::reg(id) == 1, "object destroyed twice"); mc::reg(id)--; mc::reg(100 + id)++; } };
static void custom(Obj* o) { MC_CHECKF(o != nullptr, "cleanup function called with a null pointer"); mc::reg(60)++; delete o; }
using FP = bf::fiber_specific_ptr<Obj>;

// two actors (main fiber, launched fiber), two pointers (default, custom cleanup)
static void programs(bool disp) {
    for (int i = 0; i < 256; ++i) mc::reg(i) = 0;
    struct M { Obj* p{ nullptr }; int id{ 0 }; }; M m[2][2]; int next = 1; bool released[40] = {}; bool cleaned[40] = {}; Obj* mine[40] = {};
    {
        auto p0 = std::make_unique<FP>(); auto p1 = std::make_unique<FP>(&custom); FP* p[2] = { p0.get(), p1.get() };
        int cmd = -1; bool stop = false;
        auto exec = [&](int a, int c) { int q = c & 1, op = c >> 1; FP& f = *p[q]; M& x = m[a][q];
            switch (op) {
            case 0: { int id = next++; Obj* o = new Obj(id); mine[id] = o; int before = mc::reg(60); f.reset(o); if (x.p) { cleaned[x.id] = true; MC_CHECK(mc::reg(60) == before + q); } else MC_CHECK(mc::reg(60) == before); x.p = o; x.id = id; break; }
            case 1: { f.reset(nullptr); if (x.p) cleaned[x.id] = true; x = M{}; break; }
            case 2: { Obj* o = f.release(); MC_CHECK(o == x.p); if (o) released[x.id] = true; x = M{}; break; }
            case 3: { f.reset(x.p); break; }
            } };
        auto look = [&](int a) { for (int q = 0; q < 2; ++q) { MC_CHECKF(p[q]->get() == m[a][q].p, "fiber sees a wrong value"); if (m[a][q].p) { MC_CHECK((*p[q])->id == m[a][q].id && (**p[q]).id == m[a][q].id); } }
            for (int i = 1; i < next; ++i) MC_CHECKF(mc::reg(100 + i) == (cleaned[i] ? 1 : 0), "object %d: cleaned up %d times, expected %d", i, (int)mc::reg(100 + i), (int)cleaned[i]); };
        bf::fiber w(disp ? bf::launch::dispatch : bf::launch::post, [&] { look(1); while (!stop) { if (cmd >= 0) { exec(1, cmd); cmd = -1; } look(1); tf::yield(); } look(1); });
        int n = mc::thorough() ? 6 : 5;
        look(0);
        for (int k = 0; k < n; ++k) { int c = mc::choose(k == 0 ? 16 : 17); if (c == 16) break; if (c < 8) exec(0, c); else { cmd = c - 8; tf::yield(); MC_CHECK(cmd == -1); } look(0); }
        stop = true; w.join();
        for (int q = 0; q < 2; ++q) if (m[1][q].p) cleaned[m[1][q].id] = true;     // the fiber's exit
        m[1][0] = m[1][1] = M{}; look(0);
        if (mc::choose(2)) { p0.reset(); p1.reset(); } else { p1.reset(); p0.reset(); }
        for (int q = 0; q < 2; ++q) if (m[0][q].p) cleaned[m[0][q].id] = true;
    }
    for (int i = 1; i < next; ++i) { MC_CHECKF(mc::reg(100 + i) == (cleaned[i] ? 1 : 0), "object %d: cleaned up %d times, expected %d", i, (int)mc::reg(100 + i), (int)cleaned[i]); MC_CHECK(cleaned[i] != released[i]); if (released[i]) { delete mine[i]; } }
}
MC_SCENARIO(C19, programs, "every sequence of reset/release/get in the main fiber and a launched fiber, two pointers", o.quick = 0; o.thorough = 0) { programs(false); }
MC_SCENARIO(C19, programs_dispatch, "the same with a dispatch-launched fiber", o.quick = 0; o.thorough = 0) { programs(true); }

// pointer destroyed by the fiber while the fiber goes on; a new pointer reusing the storage starts null; the fiber exits afterwards
MC_SCENARIO(C19, reuse, "pointer destroyed in a fiber and its storage reused, every mix of values", o.quick = 0; o.thorough = 0) {
    for (int i = 0; i < 256; ++i) mc::reg(i) = 0;
    alignas(FP) unsigned char buf[sizeof(FP)]; int n = 0; bool a = mc::choose(2), b = mc::choose(2), ca = mc::choose(2), cb = mc::choose(2), rel = mc::choose(2), inmain = mc::choose(2);
    auto body = [&] {
        FP* f = ca ? new (buf) FP(&custom) : new (buf) FP(); MC_CHECK(f->get() == nullptr); Obj* held = nullptr;
        if (a) { f->reset(new Obj(++n)); if (rel) held = f->release(); } else if (rel) MC_CHECK(f->release() == nullptr);
        f->~FP(); if (a) MC_CHECK(mc::reg(101) == (rel ? 0 : 1)); delete held;
        f = cb ? new (buf) FP(&custom) : new (buf) FP(); MC_CHECKF(f->get() == nullptr, "a new fiber_specific_ptr is not null");
        if (b) { f->reset(new Obj(++n)); MC_CHECK(f->get()->id == n); }
        if (mc::choose(2)) f->reset(nullptr);
        f->~FP(); };
    if (inmain) body(); else bf::fiber(body).join();
    for (int i = 1; i <= n; ++i) MC_CHECKF(mc::reg(100 + i) == 1 && mc::reg(i) == 0, "value %d cleaned up %d times", i, (int)mc::reg(100 + i));
}
// a null cleanup function means no cleanup
MC_SCENARIO(C19, nullfn, "null cleanup function", o.quick = 0; o.thorough = 0) {
    for (int i = 0; i < 256; ++i) mc::reg(i) = 0;
    Obj o(1); FP f(static_cast<void(*)(Obj*)>(nullptr)); bf::fiber w([&] { f.reset(&o); if (mc::choose(2)) f.reset(nullptr); if (mc::choose(2)) f.reset(&o); }); w.join(); f.reset(&o);
    MC_CHECK(mc::reg(101) == 0);
}
// join from another thread: the clean-up belongs to what the fiber did
struct Note { int* w; ~Note() { *w = 7; } };
MC_SCENARIO(C19, join_mt, "the values of a fiber are cleaned up before join() returns on another thread", o.quick = 5; o.thorough = 7) {
    bf::fiber_specific_ptr<Note> f; int cell = 0; int hand = mc::choose(2);
    bf::fiber x; bf::mutex m; bf::condition_variable c; bool ok = false;
    std::thread t([&] { bf::fiber w([&] { f.reset(new Note{ &cell }); if (hand) tf::yield(); }); { std::unique_lock<bf::mutex> l(m); x = std::move(w); ok = true; } c.notify_one(); });
    { std::unique_lock<bf::mutex> l(m); c.wait(l, [&] { return ok; }); }
    x.join();
    MC_CHECKF(cell == 7, "join() returned before the fiber-specific value was cleaned up");
    t.join();
}
// cleanup functions may use synchronisation
static bf::mutex* g_mtx; static int g_cnt;
struct Locker { ~Locker() { std::unique_lock<bf::mutex> l(*g_mtx); ++g_cnt; tf::yield(); ++g_cnt; } };
MC_SCENARIO(C19, cleanup_blocks, "a cleanup function that locks a mutex and yields at fiber exit", o.quick = 3; o.thorough = 5) {
    bf::mutex m; g_mtx = &m; g_cnt = 0; bf::fiber_specific_ptr<Locker> f;
    auto run = [&] { bf::fiber a([&] { f.reset(new Locker); }), b([&] { f.reset(new Locker); std::unique_lock<bf::mutex> l(m); tf::yield(); }); a.join(); b.join(); };
    std::thread t(run); run(); t.join();
    MC_CHECK(g_cnt == 8);
}
// values follow a fiber that migrates between threads
MC_SCENARIO(C19, migrate, "fibers migrating between two threads (shared_work) keep their own values", o.quick = 4; o.thorough = 6) {
    for (int i = 0; i < 256; ++i) mc::reg(i) = 0;
    FP f(&custom); std::atomic<int> done{ 0 }; bf::mutex m; bf::condition_variable_any c; bool fin = false;
    std::thread t([&] { bf::use_scheduling_algorithm<bf::algo::shared_work>(true); std::unique_lock<bf::mutex> l(m); c.wait(l, [&] { return fin; }); MC_CHECK(f.get() == nullptr); });
    bf::use_scheduling_algorithm<bf::algo::shared_work>(true);
    auto body = [&](int id) { MC_CHECK(f.get() == nullptr); f.reset(new Obj(id)); tf::yield(); MC_CHECKF(f.get() && f->id == id, "a migrated fiber lost its value"); tf::yield(); f.reset(new Obj(id + 10)); MC_CHECK(mc::reg(100 + id) == 1); };
    bf::fiber a(body, 1), b(body, 2); a.join(); b.join();
    MC_CHECK(f.get() == nullptr);
    for (int id : { 1, 2, 11, 12 }) MC_CHECKF(mc::reg(100 + id) == 1, "value %d cleaned %d times", id, (int)mc::reg(100 + id));
    { std::unique_lock<bf::mutex> l(m); fin = true; } c.notify_all(); t.join();
}
// clean-up functions that use fiber-specific pointers themselves: nothing is cleaned twice, forgotten, or visible after its clean-up
struct Re { int id, act; };
static bf::fiber_specific_ptr<Re>* g_re[2]; static int g_next, g_act; 
static void re_look() { for (int q = 0; q < 2; ++q) { Re* r = g_re[q]->get(); if (r) MC_CHECKF(mc::reg(100 + r->id) == 0, "a value is still visible after its clean-up"); } }
static void re_act(int act, int q) {
    switch (act) {
    case 0: break;
    case 1: g_re[q]->reset(nullptr); break;
    case 2: if (g_next < 6) { int id = ++g_next; mc::reg(id) = 1; g_re[q]->reset(new Re{ id, 0 }); } break;
    case 3: if (Re* r = g_re[q]->get()) { if (mc::reg(150 + r->id)) break; g_re[q]->release(); mc::reg(200 + r->id) = 1; delete r; } break;
    }
}
static void re_clean(Re* r) {
    MC_CHECKF(r && mc::reg(r->id) == 1 && mc::reg(150 + r->id) == 0 && mc::reg(200 + r->id) == 0, "value passed to the clean-up function twice or after release()");
    mc::reg(150 + r->id) = 1; re_look(); if (r->act) re_act(r->act >> 1, r->act & 1); re_look(); mc::reg(100 + r->id) = 1; delete r;
}
MC_SCENARIO(C19, reenter, "clean-up functions that reset, release and read fiber-specific pointers", o.quick = 0; o.thorough = 0) {
    for (int i = 0; i < 256; ++i) mc::reg(i) = 0;
    g_next = 0; int inmain = mc::choose(2), n = 3 + mc::thorough();
    {
        bf::fiber_specific_ptr<Re> a(&re_clean), b(&re_clean); g_re[0] = &a; g_re[1] = &b; if (mc::choose(2)) std::swap(g_re[0], g_re[1]);
        auto body = [&] {
            for (int k = 0; k < n; ++k) { int op = mc::choose(6); if (op == 5) break;
                if (op < 2) { int act = mc::choose(8), id = ++g_next; mc::reg(id) = 1; Re* r = new Re{ id, act }; g_re[op]->reset(r); Re* now = g_re[op]->get(); MC_CHECKF(now == r || act || id > 1, "the value is not the one just set"); }
                else if (op < 4) g_re[op - 2]->reset(nullptr); else re_act(3, 0);
                re_look(); } };
        if (inmain) body(); else { bf::fiber f(body); f.join(); }
        if (inmain) { while (g_re[0]->get() || g_re[1]->get()) { g_re[0]->reset(nullptr); g_re[1]->reset(nullptr); } }
    }
    for (int i = 1; i <= g_next; ++i) MC_CHECKF(mc::reg(100 + i) + mc::reg(200 + i) == 1, "value %d was never cleaned up", i);
}

// size: anything that depends on how many there are
MC_SCENARIO(C19, many, "1..30 pointers in 1..6 fibers", o.quick = 0; o.thorough = 0) {
    static int cleaned[200]; for (int& x : cleaned) x = 0; int np = 1 + mc::choose(30), nf = 1 + mc::choose(6), drop = mc::choose(3); using P = bf::fiber_specific_ptr<int>; struct F { static void clean(int* p) { ++cleaned[*p]; delete p; } };
    { std::vector<std::unique_ptr<P>> ps; for (int i = 0; i < np; ++i) ps.emplace_back(new P(&F::clean)); std::vector<bf::fiber> f;
        for (int k = 0; k < nf; ++k) f.emplace_back([&, k] { for (int i = 0; i < np; ++i) ps[i]->reset(new int(k * np + i)); tf::yield(); for (int i = 0; i < np; ++i) MC_CHECKF(**ps[i] == k * np + i, "pointer %d of fiber %d", i, k); if (drop == 1) for (int i = 0; i < np; i += 2) { ps[i]->reset(nullptr); MC_CHECK(!ps[i]->get()); } else if (drop == 2) for (int i = 0; i < np; i += 3) { int* q = ps[i]->release(); MC_CHECK(q && !ps[i]->get()); F::clean(q); } for (int i = 0; i < np; ++i) if (ps[i]->get()) MC_CHECK(**ps[i] == k * np + i); });
        for (auto& x : f) x.join(); }
    for (int i = 0; i < np * nf; ++i) MC_CHECKF(cleaned[i] == 1, "value %d cleaned up %d times", i, cleaned[i]);
}
