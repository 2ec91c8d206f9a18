// C02 default scheduling is FIFO
#include "algo.h"
#include <deque>

// An interpreter: whichever fiber runs picks the next operation; a queue model predicts who runs next.
struct Interp {
    static constexpr int N = 4;              // fiber 0 is the main fiber
    enum St { NONE, READY, RUN, BLOCKED, JOINING, DEAD };
    St st[N]{ RUN }; std::deque<int> q; int cur{ 0 }; int n{ 1 }; int budget; int joins[N]{ -1, -1, -1, -1 }; bool joined[N]{};
    bf::fiber h[N]; bf::mutex m[N]; bf::condition_variable c[N]; bool woken[N]{}; int kind;
    explicit Interp(int b, int k) : budget(b), kind(k) {}
    void next() { MC_CHECK(!q.empty()); cur = q.front(); q.pop_front(); st[cur] = RUN; }
    void ready(int f) { st[f] = READY; q.push_back(f); }
    void resumed(int me) { MC_CHECKF(cur == me, "fiber %d runs, but the first fiber that became ready is %d", me, cur); MC_CHECK(st[me] == RUN); look(); }
    void look() { if (!q.empty()) MC_CHECKF(bf::has_ready_fibers(), "has_ready_fibers() is false although a fiber is ready"); }
    void wait_point(int f) { (void)f; }
    // operations
    void yield(int me) { ready(me); next(); tf::yield(); resumed(me); }
    void launch(int me, bool disp) {
        int f = n++; if (disp) { ready(me); cur = f; st[f] = RUN; } else ready(f);
        h[f] = bf::fiber(disp ? bf::launch::dispatch : bf::launch::post, [this, f] { resumed(f); run(f); last(f); die(f); });
        resumed(me); }
    void block(int me) { st[me] = BLOCKED; next(); std::unique_lock<bf::mutex> l(m[me]); woken[me] = false;
        if (kind == 0) c[me].wait(l, [&] { return woken[me]; }); else { bool r = c[me].wait_for(l, std::chrono::hours(1), [&] { return woken[me]; }); MC_CHECK(r); } resumed(me); }
    void wake(int me, int f) { (void)me; ready(f); woken[f] = true; if (kind) c[f].notify_all(); else c[f].notify_one(); look(); }
    void join(int me, int f) { if (st[f] != DEAD) { joins[me] = f; st[me] = JOINING; next(); } joined[f] = true; h[f].join(); resumed(me); }
    // nobody else could run once this fiber is gone: wake a blocked one
    void last(int me) { if (!q.empty()) return; for (int i = 0; i < N; ++i) if (joins[i] == me) return; for (int i = 0; i < N; ++i) if (st[i] == BLOCKED) { wake(me, i); return; } }
    void die(int me) { st[me] = DEAD; for (int i = 0; i < N; ++i) if (joins[i] == me) { joins[i] = -1; ready(i); } next(); }
    void run(int me) {
        while (budget > 0) {
            --budget; int op[16], arg[16], k = 0;
            op[k] = 0; arg[k++] = 0;                                                        // stop
            if (!q.empty()) { op[k] = 1; arg[k++] = 0; op[k] = 4; arg[k++] = 0; }            // yield, block
            if (n < N) { op[k] = 2; arg[k++] = 0; op[k] = 3; arg[k++] = 0; }                 // launch post / dispatch
            for (int f = 0; f < n; ++f) if (st[f] == BLOCKED) { op[k] = 5; arg[k++] = f; }
            for (int f = 1; f < n; ++f) if (f != me && h[f].joinable() && !joined[f] && (st[f] == DEAD || (!q.empty() && !cycle(me, f)))) { op[k] = 6; arg[k++] = f; }
            int i = mc::choose(k); mc::log("fiber %d op %d arg %d", me, op[i], arg[i]);
            switch (op[i]) { case 0: return; case 1: yield(me); break; case 4: block(me); break; case 2: launch(me, false); break; case 3: launch(me, true); break; case 5: wake(me, arg[i]); break; case 6: join(me, arg[i]); break; }
        }
    }
    bool cycle(int me, int f) { for (int k = 0; k < N && f >= 0; ++k) { if (f == me) return true; f = st[f] == JOINING ? joins[f] : -1; } return false; }
    void main() {
        run(0);
        for (;;) { bool any = false; for (int f = 1; f < n; ++f) if (st[f] == BLOCKED) { wake(0, f); any = true; }
            if (!q.empty()) { yield(0); continue; } if (!any) break; }
        for (int f = 1; f < n; ++f) { MC_CHECKF(st[f] == DEAD, "fiber %d was starved", f); if (!joined[f]) { joined[f] = true; h[f].join(); } }
    }
};
// everybody blocks in run(): the last runnable fiber must not end while main is blocked; main is woken by whoever stops last
static void programs(int b, int kind) {
    Interp in(b, kind);
    in.main();
}
MC_SCENARIO(C02, programs, "every program of launch/yield/block/wake/join/exit over four fibers against a queue model", o.quick = 0; o.thorough = 0) { programs(mc::thorough() ? 11 : 9, 0); }
MC_SCENARIO(C02, programs_timed, "the same, blocking with a timeout and notify_all", o.quick = 0; o.thorough = 0) { programs(mc::thorough() ? 11 : 9, 1); }

// a yielding ring: nobody is overtaken, with fibers joining and leaving the ring
MC_SCENARIO(C02, ring, "rings of yielding fibers keep their order", o.quick = 0; o.thorough = 0) {
    int n = 2 + mc::choose(3), laps[4]; std::vector<int> tr; bf::fiber h[4]; int disp = mc::choose(2);
    for (int i = 0; i < n; ++i) laps[i] = 1 + mc::choose(3);
    for (int i = 0; i < n; ++i) h[i] = bf::fiber(disp ? bf::launch::dispatch : bf::launch::post, [&, i] { for (int k = 0; k < laps[i]; ++k) { tr.push_back(i * 10 + k); tf::yield(); } });
    for (int i = 0; i < n; ++i) h[i].join();
    if (!disp) { size_t p = 0; for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) if (k < laps[i]) { MC_CHECKF(p < tr.size() && tr[p] == i * 10 + k, "a yielding fiber was overtaken"); ++p; } MC_CHECK(p == tr.size()); }
    else for (int i = 0; i < n; ++i) MC_CHECK(std::count(tr.begin(), tr.end(), i * 10) == 1);
}
// has_ready_fibers inside the idle hook and the wake order of several waiters of each primitive
MC_SCENARIO(C02, wake_order, "waiters of one primitive resume in the order in which they blocked", o.quick = 0; o.thorough = 0) {
    int prim = mc::choose(5); std::vector<int> order, want; bf::mutex m; bf::condition_variable c; bool go = false; bf::promise<void> p; auto s = p.get_future().share(); bf::barrier b(4); bf::buffered_channel<int> ch(4); bf::fiber h[3]; int perm = mc::choose(6);
    static int const P[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
    if (prim == 0) m.lock();
    for (int k = 0; k < 3; ++k) { int i = P[perm][k]; want.push_back(i); h[i] = bf::fiber(mc::choose(2) ? bf::launch::dispatch : bf::launch::post, [&, i] {
        switch (prim) { case 0: m.lock(); order.push_back(i); m.unlock(); break; case 1: { std::unique_lock<bf::mutex> l(m); while (!go) c.wait(l); order.push_back(i); break; } case 2: s.get(); order.push_back(i); break;
            case 3: b.wait(); order.push_back(i); break; case 4: { int v; ch.pop(v); MC_CHECK((int)order.size() == v); order.push_back(i); break; } } });
        tf::yield(); }
    switch (prim) { case 0: m.unlock(); break; case 1: { std::unique_lock<bf::mutex> l(m); go = true; } if (mc::choose(2)) c.notify_all(); else { c.notify_one(); c.notify_one(); c.notify_one(); } break; case 2: p.set_value(); break; case 3: b.wait(); break; case 4: ch.push(0); ch.push(1); ch.push(2); break; }
    for (auto& x : h) x.join();
    if (prim != 3) MC_CHECKF(order == want, "waiters resumed out of order (primitive %d)", prim); else MC_CHECK(order == want);
}
// Fibers of one thread released one after the other by other threads resume in the order of the releases, whatever their thread does meanwhile.
template<int N> static void remote_order(bool two_threads, bool busy) {
    int prim = two_threads ? 1 : mc::choose(4), perm = mc::choose(N == 2 ? 2 : 6); std::vector<int> order; std::atomic<int> blocked{ 0 }, released{ 0 };
    static int const P3[6][3] = { { 0, 1, 2 }, { 1, 0, 2 }, { 2, 0, 1 }, { 0, 2, 1 }, { 1, 2, 0 }, { 2, 1, 0 } };
    bf::mutex m[N]; bf::timed_mutex tm[N]; bf::mutex cm[N]; bf::condition_variable c[N]; bool go[N]{};
    auto far = (clk::time_point::max)();
    if (prim == 0) for (auto& x : m) x.lock();
    if (prim == 2) for (auto& x : tm) x.lock();
    std::thread owner([&] {
        bf::fiber h[N];
        for (int i = 0; i < N; ++i) h[i] = bf::fiber(bf::launch::dispatch, [&, i] {
            switch (prim) { case 0: m[i].lock(); break; case 2: MC_CHECK(tm[i].try_lock_until(far)); break;
                default: { std::unique_lock<bf::mutex> l(cm[i]); if (prim == 1) c[i].wait(l, [&] { return go[i]; }); else MC_CHECK(c[i].wait_until(l, far, [&] { return go[i]; })); } }
            order.push_back(i); if (prim == 0) m[i].unlock(); if (prim == 2) tm[i].unlock(); });
        blocked.store(1, std::memory_order_release);          // all of them have suspended
        if (busy) for (int k = 0; k < 2; ++k) tf::yield();
        for (auto& x : h) x.join(); });
    while (!blocked.load(std::memory_order_acquire)) mc::yield();
    auto rel = [&](int i) { switch (prim) { case 0: m[i].unlock(); break; case 2: tm[i].unlock(); break; default: { { std::unique_lock<bf::mutex> l(cm[i]); go[i] = true; } c[i].notify_one(); } } };
    auto at = [&](int k) { return N == 2 ? (k ^ perm) : P3[perm][k]; };
    if (!two_threads) for (int k = 0; k < N; ++k) rel(at(k));
    else { std::thread t([&] { rel(at(0)); }); t.join(); for (int k = 1; k < N; ++k) rel(at(k)); }
    owner.join();
    for (int k = 0; k < N; ++k) MC_CHECKF((int)order.size() == N && order[k] == at(k), "fibers released by another thread resumed in another order");
}
MC_SCENARIO(C02, remote_order2, "two fibers released by another thread, one after the other; their thread idle", o.quick = 4; o.thorough = 6) { remote_order<2>(false, false); }
MC_SCENARIO(C02, remote_order2_busy, "the same, their thread yields meanwhile", o.quick = 3; o.thorough = 5) { remote_order<2>(false, true); }
MC_SCENARIO(C02, remote_order3, "three fibers released by another thread, one after the other; their thread idle", o.quick = 2; o.thorough = 4) { remote_order<3>(false, false); }
MC_SCENARIO(C02, remote_order_two, "two fibers released by two threads, one after the other", o.quick = 3; o.thorough = 4) { remote_order<2>(true, false); }
MC_SCENARIO(C02, remote_order_two3, "three fibers released by two threads, one after the other", o.quick = 2; o.thorough = 3) { remote_order<3>(true, mc::choose(2)); }

// size: anything that depends on how many there are
MC_SCENARIO(C02, many, "1..40 fibers yielding or blocked one by one and released in any order: order of resumption", o.quick = 0; o.thorough = 0) {
    int n = 1 + mc::choose(40), how = mc::choose(4), perm = mc::choose(3); std::vector<int> log; std::deque<bf::mutex> m; std::deque<bf::condition_variable> c; std::deque<bf::promise<void>> p; std::deque<bf::buffered_channel<int>> ch; std::vector<char> go(n); std::vector<bf::fiber> f;
    for (int i = 0; i < n; ++i) { m.emplace_back(); c.emplace_back(); p.emplace_back(); ch.emplace_back(2); if (how == 1) m[i].lock(); }
    for (int i = 0; i < n; ++i) f.emplace_back(bf::launch::post, [&, i, fu = p[i].get_future()]() mutable {
        switch (how) { case 0: tf::yield(); break; case 1: m[i].lock(); m[i].unlock(); break; case 2: { std::unique_lock<bf::mutex> l(m[i]); while (!go[i]) c[i].wait(l); break; } case 3: { int v; if (i & 1) fu.wait(); else ch[i].pop(v); break; } }
        log.push_back(i); });
    tf::yield();
    auto at = [&](int k) { return how == 0 || perm == 0 ? k : perm == 1 ? n - 1 - k : n % 7 == 0 ? k : (k * 7 + n / 2) % n; };
    for (int k = 0; k < n; ++k) { int i = at(k); if (how == 1) m[i].unlock(); else if (how == 2) { m[i].lock(); go[i] = 1; m[i].unlock(); c[i].notify_one(); } else if (how == 3) { if (i & 1) p[i].set_value(); else ch[i].push(1); } }
    MC_CHECK(log.empty());
    for (auto& x : f) x.join();
    MC_CHECK((int)log.size() == n); for (int k = 0; k < n; ++k) MC_CHECKF(log[k] == at(k), "fiber %d resumed at position %d of %d", log[k], k, n);
}
