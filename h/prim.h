// Every blocking primitive with a matching release, for scenarios "blocked on one thread, released by another".
#ifndef H_PRIM_H
#define H_PRIM_H
#include "algo.h"
#include "fut.h"
// One blocking primitive each: block() suspends until rel() was called by another thread. The data written before rel() must be
// visible afterwards (plain memory), rel() is called exactly once per block() and never otherwise.
enum Prim { MUTEX, TIMED, RECURSIVE, RECTIMED, CV, CV_TIMED, CVANY, BARRIER, BUF_POP, BUF_PUSH, UNB_POP, UNB_PUSH, FUTURE, SHARED, JOIN, MUTEX_TRY, BUF_POP_T, UNB_POP_T, UNB_PUSH_T, NPRIM };
struct P {
    int k; int data{ 0 }; bool flag{ false };
    bf::mutex m; bf::timed_mutex tm; bf::recursive_mutex rm; bf::recursive_timed_mutex rtm; bf::condition_variable c; bf::condition_variable_any ca; bf::barrier bar; bf::buffered_channel<int> ch; bf::unbuffered_channel<int> uc; bf::promise<int> pr; bf::future<int> fu; bf::shared_future<int> sf; bf::fiber f;
    explicit P(int kind) : k(kind), bar(2), ch(2) { if (k == SHARED) sf = pr.get_future().share(); else fu = pr.get_future(); }
    // runs on the releasing thread/fiber before the blocker can start (so that there is something to wait for)
    void prepare() { switch (k) { case MUTEX: m.lock(); break; case TIMED: case MUTEX_TRY: tm.lock(); break; case RECURSIVE: rm.lock(); rm.lock(); break; case RECTIMED: rtm.lock(); break; case BUF_PUSH: MC_CHECK(ch.try_push(1) == bf::channel_op_status::success); break; default: break; } }
    void block() {
        auto far = (clk::time_point::max)();   // never: a lost wake-up must not be hidden by the timeout
        switch (k) {
        case MUTEX: m.lock(); MC_CHECK(data == 1); m.unlock(); break;
        case TIMED: tm.lock(); MC_CHECK(data == 1); tm.unlock(); break;
        case MUTEX_TRY: MC_CHECK(tm.try_lock_until(far)); MC_CHECK(data == 1); tm.unlock(); break;
        case RECURSIVE: rm.lock(); MC_CHECK(data == 1); rm.unlock(); break;
        case RECTIMED: rtm.lock(); MC_CHECK(data == 1); rtm.unlock(); break;
        case CV: { std::unique_lock<bf::mutex> l(m); while (!flag) c.wait(l); MC_CHECK(data == 1); break; }
        case CV_TIMED: { std::unique_lock<bf::mutex> l(m); while (!flag) MC_CHECK(c.wait_until(l, far) == bf::cv_status::no_timeout); MC_CHECK(data == 1); break; }
        case CVANY: { std::unique_lock<bf::timed_mutex> l(tm); while (!flag) ca.wait(l); MC_CHECK(data == 1); break; }
        case BARRIER: bar.wait(); MC_CHECK(data == 1); break;
        case BUF_POP: { int v = 0; MC_CHECK(ch.pop(v) == bf::channel_op_status::success && v == 7); MC_CHECK(data == 1); break; }
        case BUF_POP_T: { int v = 0; MC_CHECK(ch.pop_wait_until(v, far) == bf::channel_op_status::success && v == 7); MC_CHECK(data == 1); break; }
        case BUF_PUSH: MC_CHECK(ch.push(2) == bf::channel_op_status::success); MC_CHECK(data == 1); break;
        case UNB_POP: { int v = 0; MC_CHECK(uc.pop(v) == bf::channel_op_status::success && v == 7); MC_CHECK(data == 1); break; }
        case UNB_POP_T: { int v = 0; MC_CHECK(uc.pop_wait_until(v, far) == bf::channel_op_status::success && v == 7); MC_CHECK(data == 1); break; }
        case UNB_PUSH: MC_CHECK(uc.push(8) == bf::channel_op_status::success); MC_CHECK(data == 1); break;
        case UNB_PUSH_T: MC_CHECK(uc.push_wait_until(8, far) == bf::channel_op_status::success); MC_CHECK(data == 1); break;
        case FUTURE: MC_CHECK(fu.get() == 7); MC_CHECK(data == 1); break;
        case SHARED: MC_CHECK(sf.get() == 7); MC_CHECK(data == 1); break;
        case JOIN: f.join(); MC_CHECK(data == 1); break;
        }
    }
    void rel() {
        if (k == JOIN) return;
        if (k == CV || k == CV_TIMED) { { std::unique_lock<bf::mutex> l(m); data = 1; flag = true; } c.notify_one(); return; }
        if (k == CVANY) { { std::unique_lock<bf::timed_mutex> l(tm); data = 1; flag = true; } ca.notify_all(); return; }
        data = 1;
        switch (k) {
        case MUTEX: m.unlock(); break; case TIMED: case MUTEX_TRY: tm.unlock(); break; case RECURSIVE: rm.unlock(); rm.unlock(); break; case RECTIMED: rtm.unlock(); break;
        case BARRIER: bar.wait(); break; case BUF_POP: case BUF_POP_T: MC_CHECK(ch.push(7) == bf::channel_op_status::success); break; case BUF_PUSH: { int v = 0; MC_CHECK(ch.pop(v) == bf::channel_op_status::success && v == 1); break; }
        case UNB_POP: case UNB_POP_T: MC_CHECK(uc.push(7) == bf::channel_op_status::success); break; case UNB_PUSH: case UNB_PUSH_T: { int v = 0; MC_CHECK(uc.pop(v) == bf::channel_op_status::success && v == 8); break; }
        case FUTURE: case SHARED: pr.set_value(7); break;
        }
    }
};
static char const* const names[] = { "mutex", "timed_mutex", "recursive_mutex", "recursive_timed_mutex", "cv", "cv timed", "cv any", "barrier", "buffered pop", "buffered push", "unbuffered pop", "unbuffered push", "future", "shared_future", "join", "try_lock_for", "buffered timed pop", "unbuffered timed pop", "unbuffered timed push" };

// blocker: the main fiber (its thread goes idle), or a launched fiber beside a main fiber that joins / yields
static void two(int prim, bool custom) {
    mc::log("primitive %s", names[prim]);
    P p(prim); int who = mc::choose(2); int runs = 0; auto inst = [&] { if (custom) bf::use_scheduling_algorithm<Chooser>(FIFO); };
    inst();
    if (prim == JOIN) {
        std::thread t([&] { inst(); p.f = bf::fiber([&] { p.data = 1; }); mc::reg(0) = 1; }); t.join(); p.block(); return; }
    p.prepare();
    std::thread t([&] { inst(); if (who == 0) { p.block(); ++runs; } else { int other = 0; bf::fiber a([&] { p.block(); ++runs; }); bf::fiber b([&] { ++other; }); b.join(); a.join(); MC_CHECK(other == 1); } });
    if (who == 1 && mc::choose(2)) { bf::fiber r([&] { if (prim == MUTEX || prim == TIMED || prim == MUTEX_TRY || prim == RECURSIVE || prim == RECTIMED) return; p.rel(); }); r.join(); if (prim == MUTEX || prim == TIMED || prim == MUTEX_TRY || prim == RECURSIVE || prim == RECTIMED) p.rel(); }
    else p.rel();
    t.join(); MC_CHECKF(runs == 1, "the blocked fiber was resumed %d times", runs);
}
#endif
