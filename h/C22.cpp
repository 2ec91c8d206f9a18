// C22 work_stealing: no fiber is lost, duplicated or stolen when pinned
#include "ws.h"
struct Inst { int n; bool suspend; void operator()(int) const { install<bf::algo::work_stealing>(suspend, (std::uint32_t)n, suspend); } };
static void run(int threads, bool suspend, int prog, int k) {
    mc::log("program: %s, %d threads, %s", prog_names[prog], threads, suspend ? "sleeping" : "polling");
    if (threads > 2) mc::seed(mc::choose(mc::thorough() ? 4 : 2));
    Pool p(threads, Inst{ threads, suspend }); program(prog, k); p.stop();
}
// the array of schedulers is static and keeps the algorithms alive: leak accounting does not apply
// (every 3-thread scenario doubles as a check that random victim selection with different seeds changes nothing)
#define SC(NAME, PROG, K, QS, QP, ONLY3) \
    MC_SCENARIO(C22, NAME##_sleep, "2 threads that sleep when idle, program " #NAME, o.quick = QS; o.thorough = 3; o.spurious = true; o.leak = false) { run(2, true, PROG, K); } \
    MC_SCENARIO(C22, NAME##_poll, "2 threads that poll when idle, program " #NAME, o.quick = QP; o.thorough = 3; o.leak = false) { run(2, false, PROG, K); } \
    MC_SCENARIO(C22, NAME##_sleep3, "3 threads that sleep when idle, program " #NAME, o.quick = 1; o.thorough = 2; o.leak = false; o.thorough_only = ONLY3) { run(3, true, PROG, K); }
SC(yield, P_YIELD, 2, 2, 2, false) SC(join, P_JOIN, 2, 2, 1, true) SC(mutex, P_MUTEX, 2, 2, 2, false) SC(recmutex, P_RECMUTEX, 2, 2, 1, true) SC(cv, P_CV, 3, 2, 2, false) SC(buffered, P_BUF, 2, 2, 1, true) SC(unbuffered, P_UNB, 2, 2, 1, true) SC(future, P_FUTURE, 3, 2, 1, true) SC(sleep, P_SLEEP, 2, 2, 2, false) SC(dispatch, P_DISPATCH, 2, 2, 1, true) SC(detach, P_DETACH, 2, 2, 2, false) SC(nest, P_NEST, 2, 2, 1, true) SC(fss, P_FSS, 2, 2, 1, true) SC(barrier, P_BARRIER, 2, 2, 1, true) SC(timed, P_TIMED, 3, 2, 1, true)
MC_SCENARIO(C22, single_thread, "a single participating thread, every program", o.quick = 1; o.thorough = 2; o.leak = false) { run(1, mc::choose(2) == 0, mc::choose(NPROG), 2 + mc::choose(2)); }
MC_SCENARIO(C22, both_sleep, "both threads launch and join fibers (sleeping)", o.quick = 2; o.thorough = 3; o.leak = false) { both_launch(2, Inst{ 2, true }); }
MC_SCENARIO(C22, both_poll, "both threads launch and join fibers (polling)", o.quick = 2; o.thorough = 3; o.leak = false) { both_launch(2, Inst{ 2, false }); }
MC_SCENARIO(C22, exit_sleep, "a participating thread returns after launching detached fibers (sleeping)", o.quick = 2; o.thorough = 3; o.leak = false) { early_exit(Inst{ 2, true }, mc::choose(8)); }
MC_SCENARIO(C22, exit_poll, "a participating thread returns after launching detached fibers (polling)", o.quick = 1; o.thorough = 3; o.leak = false) { early_exit(Inst{ 2, false }, mc::choose(8)); }
#define QT(NAME, TYPE, LIFO, WEAK) \
    MC_SCENARIO(C22, NAME##_seq, #NAME ": every operation sequence on one thread, small capacity", o.quick = 0; o.thorough = 0) { queue_seq<TYPE, LIFO>(1 + mc::choose(4), mc::thorough() ? 9 : 7); } \
    MC_SCENARIO(C22, NAME##_1thief, #NAME ": owner against one thief, small capacity", o.quick = 3; o.thorough = 5; o.weak = WEAK) { queue_conc<TYPE>(1 + mc::choose(2), 1, 3, mc::thorough() ? 4 : 3); } \
    MC_SCENARIO(C22, NAME##_2thieves, #NAME ": owner against two thieves, small capacity", o.quick = 2; o.thorough = 3; o.weak = WEAK) { queue_conc<TYPE>(1 + mc::choose(2), 2, 2, mc::thorough() ? 4 : 3); }

#ifdef BOOST_FIBERS_USE_SPMC_QUEUE
QT(spmc_queue, bf::detail::context_spmc_queue, true, true)
#else
QT(spinlock_queue, bf::detail::context_spinlock_queue, false, false)
#endif
