// C32 built without atomic operations: threads that share no synchronisation object do not disturb each other
// (the guarantees within one thread are the scenarios of the other properties, run in the same build)
#include "fut.h"

static constexpr int64_t MS = 1000000;
static void program(int p) {
    bf::mutex m; bf::timed_mutex tm; bf::condition_variable c; bf::barrier b(2); bf::buffered_channel<int> ch(2); bf::unbuffered_channel<int> uc; bf::promise<int> pr; auto sf = pr.get_future().share(); Guarded g; int cnt = 0, sum = 0; bool flag = false; bf::fiber_specific_ptr<int> fss; int64_t t0 = mc::now_ns(); auto me = std::this_thread::get_id();
    auto body = [&](int i) {
        fss.reset(new int(i));
        switch (p) {
        case 0: for (int k = 0; k < 2; ++k) { m.lock(); g.enter(i); tf::yield(); g.leave(i); m.unlock(); } break;
        case 1: { std::unique_lock<bf::mutex> l(m); if (i == 2) { flag = true; c.notify_all(); } else while (!flag) c.wait(l); break; }
        case 2: sum += b.wait(); sum += b.wait(); break;
        case 3: if (i == 1) { for (int k = 0; k < 2; ++k) MC_CHECK(ch.push(k) == bf::channel_op_status::success); ch.close(); } else { int v; while (ch.pop(v) == bf::channel_op_status::success) sum += v + 1; } break;
        case 4: if (i == 1) { for (int k = 0; k < 2; ++k) MC_CHECK(uc.push(k) == bf::channel_op_status::success); uc.close(); } else { int v; while (uc.pop(v) == bf::channel_op_status::success) sum += v + 1; } break;
        case 5: if (i == 1) pr.set_value(3); else sum += sf.get(); break;
        case 6: tf::sleep_until(at_ns(t0 + (3 - i) * MS)); MC_CHECK(mc::now_ns() >= t0 + (3 - i) * MS); break;
        case 7: if (tm.try_lock_until(at_ns(t0 + MS))) { g.enter(i); tf::sleep_for(ms(2)); g.leave(i); tm.unlock(); ++sum; } else MC_CHECK(mc::now_ns() >= t0 + MS); break;
        }
        MC_CHECK(*fss == i && std::this_thread::get_id() == me); ++cnt;
    };
    bf::fiber x(bf::launch::post, body, 1), y(bf::launch::dispatch, body, 2); x.join(); y.join();
    MC_CHECK(cnt == 2); static int const want[] = { 0, 0, 2, 3, 3, 3, 0, 1 }; MC_CHECKF(sum == want[p], "program %d: %d instead of %d", p, sum, want[p]);
}
MC_SCENARIO(C32, apart2, "two threads, each with fibers and objects of its own, any two of eight programs", o.quick = 3; o.thorough = 5; o.spurious = true) {
    int p = mc::choose(8), q = mc::choose(8);
    std::thread t([=] { program(p); }); program(q); t.join(); mc::outcome("%d %d", p, q);
}
MC_SCENARIO(C32, apart3, "three threads, each with fibers and objects of its own", o.quick = 1; o.thorough = 3; o.spurious = true) {
    int p = mc::choose(8), q = mc::choose(8);
    std::thread t([=] { program(p); }), u([=] { program(q); }); program(p); t.join(); u.join(); mc::outcome("%d %d", p, q);
}
MC_SCENARIO(C32, after, "a thread with fibers starts a second one between its own suspensions and joins it from a fiber", o.quick = 3; o.thorough = 5) {
    int p = mc::choose(8); int n = 0;
    bf::fiber f([&] { tf::yield(); std::thread t([=] { program(p); }); tf::yield(); t.join(); ++n; }); bf::fiber g([&] { tf::sleep_for(ms(1)); ++n; }); program(p); f.join(); g.join(); MC_CHECK(n == 2);
}
