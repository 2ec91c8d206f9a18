// C21 shared_work: each ready fiber is resumed by exactly one thread
#include "pool.h"
struct Inst { bool suspend; void operator()(int) const { install<bf::algo::shared_work>(suspend, suspend); } };
static void run(int threads, bool suspend, int prog, int k) {
    mc::log("program: %s, %d threads, %s", prog_names[prog], threads, suspend ? "sleeping" : "polling");
    Pool p(threads, Inst{ suspend }); program(prog, k); p.stop();
}
#define SC(NAME, PROG, K, Q, T) \
    MC_SCENARIO(C21, NAME##_sleep, "2 threads that sleep when idle, program " #NAME, o.quick = Q; o.thorough = T; o.spurious = true) { run(2, true, PROG, K); } \
    MC_SCENARIO(C21, NAME##_poll, "2 threads that poll when idle, program " #NAME, o.quick = Q; o.thorough = T) { run(2, false, PROG, K); } \
    MC_SCENARIO(C21, NAME##_sleep3, "3 threads that sleep when idle, program " #NAME, o.quick = Q - 2; o.thorough = T - 2) { run(3, true, PROG, K); }
SC(yield, P_YIELD, 2, 3, 4) SC(join, P_JOIN, 2, 3, 4) SC(mutex, P_MUTEX, 2, 3, 4) SC(recmutex, P_RECMUTEX, 2, 3, 4) SC(cv, P_CV, 3, 3, 4) SC(buffered, P_BUF, 2, 3, 4) SC(unbuffered, P_UNB, 2, 3, 4) SC(future, P_FUTURE, 3, 3, 4) SC(sleep, P_SLEEP, 2, 3, 4) SC(dispatch, P_DISPATCH, 2, 3, 4) SC(detach, P_DETACH, 2, 3, 4) SC(nest, P_NEST, 2, 3, 4) SC(fss, P_FSS, 2, 3, 4) SC(barrier, P_BARRIER, 2, 3, 4) SC(timed, P_TIMED, 3, 3, 4)
MC_SCENARIO(C21, both_sleep, "both threads launch and join fibers (sleeping)", o.quick = 2; o.thorough = 3) { both_launch(2, Inst{ true }); }
MC_SCENARIO(C21, both_poll, "both threads launch and join fibers (polling)", o.quick = 2; o.thorough = 3) { both_launch(2, Inst{ false }); }
MC_SCENARIO(C21, exit_sleep, "a participating thread returns after launching detached fibers (sleeping)", o.quick = 3; o.thorough = 4) { early_exit(Inst{ true }, mc::choose(8)); }
MC_SCENARIO(C21, exit_poll, "a participating thread returns after launching detached fibers (polling)", o.quick = 2; o.thorough = 3) { early_exit(Inst{ false }, mc::choose(8)); }
