// C23 all guarantees hold in every locking configuration
#include "prim.h"
#include <boost/fiber/detail/spinlock.hpp>
using Spl = bf::detail::spinlock;

// the lock itself: mutual exclusion, visibility, progress
static void contend(int threads, int rounds, bool tries) {
    Spl l; int inside = 0, value = 0, tried = 0; 
    auto crit = [&] { MC_CHECKF(inside == 0, "two threads inside one critical section"); inside = 1; ++value; MC_CHECK(inside == 1); inside = 0; };
    auto work = [&] { for (int r = 0; r < rounds; ++r) {
        int how = tries ? mc::choose(3) : 0;
        if (how == 0) { bf::detail::spinlock_lock lk{ l }; crit(); }
        else if (how == 1) { bf::detail::spinlock_lock lk{ l, std::try_to_lock }; if (lk.owns_lock()) crit(); else { lk.lock(); crit(); } ++mc::reg(0); }
        else { if (l.try_lock()) { crit(); l.unlock(); } else ++mc::reg(1); } } };
    mc::reg(0) = mc::reg(1) = 0; std::vector<std::thread> th; for (int i = 1; i < threads; ++i) th.emplace_back(work); work(); for (auto& t : th) t.join();
    MC_CHECKF(value == threads * rounds - (int)mc::reg(1), "a critical section was lost"); mc::outcome("missed %d", (int)mc::reg(1)); (void)tried;
    { bf::detail::spinlock_lock lk{ l }; ++value; } MC_CHECKF(l.try_lock(), "a free lock cannot be taken"); l.unlock();
}
MC_SCENARIO(C23, lock2, "two threads, three critical sections each", o.quick = 4; o.thorough = 6) { contend(2, 3, false); }
MC_SCENARIO(C23, lock3, "three threads, two critical sections each", o.quick = 3; o.thorough = 4) { contend(3, 2, false); }
MC_SCENARIO(C23, lock2_weak, "two threads, stale loads", o.quick = 4; o.thorough = 5; o.weak = true) { contend(2, 2, false); }
MC_SCENARIO(C23, lock3_weak, "three threads, stale loads", o.quick = 2; o.thorough = 3; o.weak = true) { contend(3, 1, false); }
MC_SCENARIO(C23, try2, "two threads, lock, try_lock and deferred locks", o.quick = 3; o.thorough = 4) { contend(2, 2, true); }
MC_SCENARIO(C23, try2_weak, "two threads, lock, try_lock, stale loads", o.quick = 3; o.thorough = 4; o.weak = true) { contend(2, 2, true); }
MC_SCENARIO(C23, try3, "three threads, lock, try_lock and deferred locks", o.quick = 2; o.thorough = 3) { contend(3, 1, true); }
// the owner hands data on through the lock only (message passing)
MC_SCENARIO(C23, message, "a flag and data guarded by the lock", o.quick = 3; o.thorough = 5; o.weak = true) {
    Spl l; bool ready = false; int data = 0; std::thread t([&] { bf::detail::spinlock_lock lk{ l }; data = 7; ready = true; });
    for (int i = 0; i < 2; ++i) { bf::detail::spinlock_lock lk{ l }; if (ready) MC_CHECK(data == 7); else MC_CHECK(data == 0); }
    t.join(); bf::detail::spinlock_lock lk{ l }; MC_CHECK(ready && data == 7);
}
// the primitives built on it
#define TWO(NAME, PRIM, Q, T) MC_SCENARIO(C23, NAME, "blocked on one thread, released by another (" #NAME ")", o.quick = Q; o.thorough = T) { two(PRIM, false); } \
    MC_SCENARIO(C23, NAME##_weak, "blocked on one thread, released by another (" #NAME "), stale loads", o.quick = Q - 1; o.thorough = T - 1; o.weak = true) { two(PRIM, false); }
TWO(mutex, MUTEX, 3, 5) TWO(timed_mutex, MUTEX_TRY, 3, 5) TWO(recursive, RECURSIVE, 3, 5) TWO(cv, CV_TIMED, 3, 5) TWO(cv_any, CVANY, 3, 4) TWO(barrier, BARRIER, 3, 5) TWO(buf_pop, BUF_POP, 3, 5) TWO(buf_push, BUF_PUSH, 3, 5) TWO(unb_pop, UNB_POP, 3, 5) TWO(unb_push, UNB_PUSH_T, 3, 5) TWO(future, FUTURE, 3, 5) TWO(join, JOIN, 3, 5)
template<typename M> static void excl() {
    M m; Guarded g; auto w = [&](int me) { for (int k = 0; k < 2; ++k) { std::unique_lock<M> l(m); g.enter(me); if (k == 0) tf::yield(); g.leave(me); } };
    std::thread t([&] { bf::fiber a(w, 1), b(w, 2); a.join(); b.join(); }); w(3); t.join(); MC_CHECK(g.value == 6);
}
MC_SCENARIO(C23, excl_mutex, "mutual exclusion over two threads and three fibers (mutex)", o.quick = 2; o.thorough = 4) { excl<bf::mutex>(); }
MC_SCENARIO(C23, excl_rectimed, "mutual exclusion over two threads and three fibers (recursive_timed_mutex)", o.quick = 2; o.thorough = 4) { excl<bf::recursive_timed_mutex>(); }
MC_SCENARIO(C23, channel, "two producers, one consumer thread over a full channel", o.quick = 2; o.thorough = 3) {
    bf::buffered_channel<int> ch(2); int sum = 0, n = 0; std::thread t([&] { int v; while (ch.pop(v) == bf::channel_op_status::success) { sum += v; ++n; } });
    auto p = [&](int b) { for (int i = 0; i < 2; ++i) MC_CHECK(ch.push(b + i) == bf::channel_op_status::success); }; bf::fiber a(p, 1), b(p, 10); a.join(); b.join(); ch.close(); t.join(); MC_CHECK(n == 4 && sum == 24);
}
