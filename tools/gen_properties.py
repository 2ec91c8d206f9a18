#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A fiber runs exactly once and join waits for its completion",
 "Every launched fiber executes its function exactly once with exactly the arguments it was given, whether launched with post or dispatch, and whether it is later joined or detached. join() returns only after the function has returned, everything the fiber did is visible to the joiner, and every joiner (also one on another thread) eventually returns. A thread does not finish before the detached fibers it launched have completed.",
 ["schedules", "programs"],
 "All programs of a few fibers over launch policy, join/detach order and joiner thread; all interleavings of the joiner thread with the fiber's thread, and all choices a scheduling algorithm may make.",
 "test_fiber_* run one round-robin order on one thread; join racing with termination on another thread, and custom pick orders, are never exercised systematically.",
 ["src/fiber.cpp", "src/context.cpp", "src/scheduler.cpp", "include/boost/fiber/fiber.hpp", "include/boost/fiber/context.hpp"],
 [("join / terminate hand-shake", "src/context.cpp context::join, context::terminate"), ("launch", "src/fiber.cpp fiber::start_"), ("thread shutdown waits for workers", "src/scheduler.cpp scheduler::dispatch, ~scheduler")],
 [("terminated flag", "the fiber-function has returned", "include/boost/fiber/context.hpp"), ("wait queue of joiners", "who to wake at termination", "src/context.cpp")],
 ["join() return", "side effects of the fiber-function", "thread exit"])

prop("C02", "Default scheduling is FIFO: launch, yield and wake order",
 "With the default scheduler, fibers that become ready are resumed in the order in which they became ready, a dispatch-launched fiber runs immediately and its launcher becomes ready, and yield() puts the caller behind every fiber that is already ready. No ready fiber is skipped or starved, and has_ready_fibers() is never false while another fiber is ready.",
 ["programs", "histories"],
 "All short programs of launch(post/dispatch)/yield/block/wake/exit over up to 3 fibers, compared step by step with a queue model.",
 "The tests check two or three fixed launch orders; they do not check order for arbitrary mixes of yield, blocking and wake-ups.",
 ["src/algo/round_robin.cpp", "src/scheduler.cpp", "src/context.cpp", "include/boost/fiber/operations.hpp"],
 [("round_robin ready queue", "src/algo/round_robin.cpp"), ("yield/suspend", "src/scheduler.cpp scheduler::yield, suspend")],
 None, ["execution trace of the fibers"])

prop("C03", "A wake-up from another thread is never lost",
 "If a fiber blocks on any synchronisation object and another thread performs the operation that should release it, the fiber becomes ready and is resumed exactly once, on exactly one thread, no matter how the release races with the fiber's suspension or with its thread going idle. A thread whose fibers are all blocked sleeps rather than missing that wake-up, and what the releasing thread wrote before is visible to the resumed fiber.",
 ["schedules"],
 "All interleavings (up to a preemption bound) of two to three OS threads where one suspends and the other releases, for every blocking primitive.",
 "The tests that use two threads run one lucky interleaving; the window between deciding to block and being suspended is a handful of instructions.",
 ["src/scheduler.cpp", "src/context.cpp", "src/waker.cpp", "include/boost/fiber/waker.hpp", "src/algo/round_robin.cpp", "include/boost/fiber/detail/spinlock_ttas.hpp"],
 [("remote ready queue", "src/scheduler.cpp schedule_from_remote, remote_ready2ready_"), ("waker epoch", "src/waker.cpp, src/context.cpp context::wake"), ("idle sleep", "src/algo/round_robin.cpp suspend_until/notify")],
 [("waker epoch", "identifies one suspension so that it is resumed at most once", "include/boost/fiber/context.hpp")])

prop("C04", "Sleeps and timeouts never fire early and always fire",
 "sleep_for/sleep_until and every timed wait never return before their time point unless the awaited event happened, always return once it has passed (even if every fiber of the thread is blocked), and sleepers of one thread become ready in the order of their time points. A time point that is already past does not block.",
 ["schedules", "histories", "inputs"],
 "All assignments of a small set of time points (past, equal, boundary, later, maximum) to up to 3 fibers, all interleavings with cross-thread wake-ups, under a controlled clock.",
 "The tests sleep a few real milliseconds with generous tolerances; boundary instants, ties and a wake-up racing the expiry are not reachable with a real clock.",
 ["src/scheduler.cpp", "src/context.cpp", "src/algo/round_robin.cpp", "include/boost/fiber/detail/convert.hpp", "include/boost/fiber/operations.hpp"],
 [("sleep queue", "src/scheduler.cpp sleep2ready_, wait_until"), ("idle sleep with deadline", "src/scheduler.cpp dispatch")])

prop("C05", "Mutexes: mutual exclusion, no stuck waiter, documented errors",
 "For each of the four mutex types at most one fiber owns the lock at any time (over all threads), critical sections are totally ordered with full visibility, no lock() stays blocked while the mutex is free (owners that stop locking are succeeded by the waiters; fairness between competitors is not promised), and try_lock() never blocks and succeeds only on a free (or own recursive) lock. lock()/try_lock() on an already owned non-recursive mutex throws resource_deadlock_would_occur, unlocking one not owned throws operation_not_permitted, and neither changes the lock.",
 ["schedules", "programs"],
 "All interleavings of fibers on 1-3 threads performing lock/try_lock/unlock up to a preemption bound and all short single-thread operation sequences compared with a reference lock.",
 "test_mutex_* contend on one or two threads once per run; hand-over racing with a new locker is a few instructions wide.",
 ["src/mutex.cpp", "src/timed_mutex.cpp", "src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/waker.cpp", "include/boost/fiber/mutex.hpp"],
 [("ownership field guarded by spinlock, wait queue hand-over", "src/*mutex.cpp")],
 [("owner", "fiber holding the lock", "include/boost/fiber/*mutex.hpp")])

prop("C06", "Recursive mutexes free only at the outermost unlock",
 "A recursive (timed) mutex acquired n times by one fiber, by any mix of lock, try_lock and timed try_lock, is released to others exactly at the n-th unlock, and by no other fiber's unlock attempt.",
 ["programs", "schedules"],
 "All operation sequences up to depth 6 over two fibers, and interleavings with a second thread.",
 "The tests use one nesting pattern.",
 ["src/recursive_mutex.cpp", "src/recursive_timed_mutex.cpp"],
 [("count", "src/recursive*_mutex.cpp lock/unlock")])

prop("C07", "A timed lock attempt either owns the lock or leaves no trace",
 "try_lock_for/try_lock_until return true exactly when the caller owns the mutex on return and false only once the time point has passed; a timed-out attempt neither consumes a hand-over nor prevents any later locker from getting the lock. So when an owner unlocks while waiters time out, some live waiter gets the lock. A time point that is already past behaves like try_lock().",
 ["schedules", "histories"],
 "All interleavings of an unlock with one or two timed waiters whose deadline expires before, at or after the unlock, also when the waiter is resumed late, on one or two threads.",
 "Needs the deadline to expire between the hand-over and the moment the waiter runs; real-time tests cannot place it there.",
 ["src/timed_mutex.cpp", "src/recursive_timed_mutex.cpp", "src/waker.cpp", "src/scheduler.cpp"],
 [("wait_queue::suspend_and_wait_until", "src/waker.cpp"), ("retry after wake", "src/timed_mutex.cpp try_lock_until_")])

prop("C08", "Condition variables lose no notification and hold the lock on return",
 "A notify_one() issued while holding (or after) the mutex wakes one fiber that was already waiting, notify_all() wakes all of them, and no waiter returns from an untimed wait without a notification. The mutex is released atomically with starting to wait and is owned again by the waiter whenever any wait returns, for condition_variable and condition_variable_any.",
 ["schedules", "programs"],
 "All interleavings of waiters and notifiers on one to three threads up to a preemption bound, for plain and predicate waits.",
 "Tests notify after sleeping, so the atomicity window between unlocking and blocking is never hit.",
 ["include/boost/fiber/condition_variable.hpp", "src/condition_variable.cpp", "src/waker.cpp"],
 [("wait queue under spinlock, lock released after enqueuing", "include/boost/fiber/condition_variable.hpp wait")])

prop("C09", "Timed condition waits report what happened and do not eat notifications",
 "wait_for/wait_until on a condition variable return timeout only after the time point has passed, return no_timeout only if notified, return with the mutex owned in every case, and the predicate forms return the predicate's value at return. A notify_one() is consumed by a waiter that reports no_timeout, or by no waiter if none was waiting; one that times out leaves the notification to the remaining waiters.",
 ["schedules", "histories"],
 "All interleavings of notify_one/notify_all with one or two timed waiters, with the deadline expiring at every point.",
 "Needs expiry at a precise instant relative to the notification.",
 ["include/boost/fiber/condition_variable.hpp", "src/waker.cpp", "src/scheduler.cpp"],
 [("wait_queue::suspend_and_wait_until", "src/waker.cpp"), ("cv_status decision", "include/boost/fiber/condition_variable.hpp wait_until")])

prop("C10", "A barrier releases exactly its group, once per cycle",
 "No participant leaves barrier::wait() before all n of its cycle have arrived, all n then leave, exactly one of them gets true, and the barrier is immediately reusable for the next cycle, even when fast participants re-enter while slow ones have not left. A barrier for zero participants is rejected with invalid_argument.",
 ["schedules", "inputs"],
 "n = 1..3 over 1..3 threads and 2-3 cycles, all interleavings up to a preemption bound.",
 "The tests run one schedule; re-entry before the last participant left is timing-dependent.",
 ["src/barrier.cpp", "include/boost/fiber/barrier.hpp"],
 [("cycle counter", "src/barrier.cpp barrier::wait")])

prop("C11", "buffered_channel is a bounded FIFO that loses and duplicates nothing",
 "Over all producers and consumers, every value whose push succeeded is popped exactly once and in an order consistent with a FIFO queue of capacity N-1; try_push/try_pop return full/empty exactly when the queue is full/empty, and blocked pushes and pops proceed as soon as they can. After close() every push returns closed and adds nothing, every value pushed before is still popped, and then every pop returns closed (value_pop throws); every blocked operation is released.",
 ["schedules", "histories", "inputs"],
 "All sequences of operations up to a bound against a reference queue, and all interleavings of 2-3 threads' push/pop/try/close up to a preemption bound, checked for linearizability.",
 "The tests are single-threaded except two smoke tests and never race close() with blocked operations.",
 ["include/boost/fiber/buffered_channel.hpp", "src/waker.cpp"],
 [("ring buffer indices under spinlock", "include/boost/fiber/buffered_channel.hpp"), ("waiting producers/consumers queues", "include/boost/fiber/buffered_channel.hpp")])

prop("C12", "Timed buffered_channel operations: a timeout has no effect",
 "push_wait_for/until and pop_wait_for/until return success exactly when the value was transferred, timeout only after the time point has passed and without having transferred anything, and closed only on a closed channel. A timed-out operation never consumes the wake-up another waiter needs: whenever the channel has room or values, no remaining waiter stays blocked.",
 ["schedules", "histories"],
 "All interleavings of a timed waiter's expiry with pushes, pops and close on one to two threads, with an additional untimed waiter.",
 "Real-time tests cannot let a deadline pass between a notification and the waiter's resumption.",
 ["include/boost/fiber/buffered_channel.hpp", "src/waker.cpp"],
 [("wait_queue::suspend_and_wait_until", "src/waker.cpp")])

prop("C13", "unbuffered_channel is a rendezvous that hands over each value once",
 "push() returns success exactly when one pop received that very value, pop() returns success exactly with one pushed value, each producer's values arrive in its push order, and a push does not return before its value was taken or the channel was closed. close() releases every blocked operation with closed, after it no operation succeeds, and no value is handed over after its push() returned.",
 ["schedules", "histories"],
 "All interleavings of up to 3 threads/fibers pushing, popping and closing up to a preemption bound; all single-thread fiber orders.",
 "Tests rendezvous in one fixed order; close racing with a rendezvous and two producers racing for the slot are not covered.",
 ["include/boost/fiber/unbuffered_channel.hpp"],
 [("slot exchange by CAS and waker in the slot", "include/boost/fiber/unbuffered_channel.hpp push, pop, close")],
 [("slot", "the offered value of the current producer, living on its stack", "include/boost/fiber/unbuffered_channel.hpp")])

prop("C14", "Timed unbuffered_channel operations: timeout means not transferred",
 "push_wait_for/until return success exactly when a pop received the value, and timeout or closed exactly when no pop ever receives it; pop_wait_for/until never return timeout having taken a value. A timed-out operation leaves the channel usable: nobody touches the returned caller's value, and remaining waiters are not left blocked when a partner is available.",
 ["schedules", "histories"],
 "All interleavings of expiry with a partner's operation and with close, on one and two threads.",
 "Needs the expiry to fall between the hand-over and the resumption of the producer.",
 ["include/boost/fiber/unbuffered_channel.hpp"],
 [("try to withdraw the slot after the wait", "include/boost/fiber/unbuffered_channel.hpp push_wait_until")])

prop("C15", "Channel element and iterator lifetimes are balanced",
 "Whatever is pushed into a channel is destroyed exactly once: each element is moved out and destroyed by the pop that receives it, elements still buffered are destroyed with the channel, and a failed push on a buffered_channel leaves the caller's value intact. Range iteration yields every value exactly once and ends when the channel is closed and drained, for element types with non-trivial copy, move and destructor.",
 ["programs", "histories"],
 "All operation sequences up to depth 6 including iteration, with element type counting constructions and destructions and tracking identity.",
 "Tests iterate over ints, where double destruction is invisible.",
 ["include/boost/fiber/buffered_channel.hpp", "include/boost/fiber/unbuffered_channel.hpp"],
 [("iterator storage", "buffered_channel.hpp / unbuffered_channel.hpp iterator::increment_, operator++"), ("slot array", "buffered_channel.hpp")])

prop("C16", "promise/future deliver one result, once, to the waiter",
 "The value or exception stored first in a promise is what the future's get() yields (moved or referenced faithfully), exactly once; storing twice, retrieving the future twice, and using a promise or future without state fail with promise_already_satisfied, future_already_retrieved, promise_uninitialized and future_uninitialized and change nothing. A wait that started before, during or after the result was stored always returns after it, with the setter's effects visible, also when setter and waiter are on different threads, when the future is destroyed at any moment and when the promise is destroyed right after its call returned.",
 ["schedules", "programs"],
 "All short API sequences for R, R&, void and move-only R against a reference model; all interleavings of setter/waiter/destruction on two threads up to a preemption bound.",
 "The tests call a fixed sequence on one thread.",
 ["include/boost/fiber/future/promise.hpp", "include/boost/fiber/future/future.hpp", "include/boost/fiber/future/detail/shared_state.hpp", "include/boost/fiber/future/detail/shared_state_object.hpp", "src/future.cpp"],
 [("ready flag, mutex, condition variable", "future/detail/shared_state.hpp"), ("reference count", "future/detail/shared_state.hpp intrusive_ptr_add_ref/release")])

prop("C17", "Abandoned promises break, shared and timed future waits agree",
 "Destroying or overwriting a promise or packaged_task whose future was retrieved and which has no result makes that future ready with broken_promise, so nobody waits for ever. Every copy of a shared_future yields the same result any number of times on any thread; wait_for/wait_until return ready exactly if a result is available at return and timeout only after the time point has passed.",
 ["schedules", "programs"],
 "All short sequences with moves, assignments, share() and destruction; all interleavings of two waiters and the setter or the promise's destruction on up to three threads; expiry at every point.",
 "Tests check a single broken promise on one thread and one timed wait.",
 ["include/boost/fiber/future/future.hpp", "include/boost/fiber/future/promise.hpp", "include/boost/fiber/future/detail/shared_state.hpp"],
 [("owner_destroyed", "future/detail/shared_state.hpp"), ("obtained flag", "future/detail/... promise_base.hpp")])

prop("C18", "packaged_task and async run the callable once and carry its outcome",
 "Calling a packaged_task (and async) invokes the stored callable exactly once with the given arguments (callables and arguments given as rvalues are moved, never copied) and makes the associated future ready with its value or with the exact exception thrown. reset() abandons the previous result and gives a fresh state that works like new; moved-from or empty tasks report packaged_task_uninitialized; async's future is ready only after the fiber's function finished.",
 ["programs", "schedules"],
 "All API sequences up to depth 5 (construct, get_future, call, reset, move, swap, destroy, get) against a reference model; async under all pick orders and from two threads.",
 "Tests follow one path through the API each.",
 ["include/boost/fiber/future/packaged_task.hpp", "include/boost/fiber/future/async.hpp", "include/boost/fiber/future/detail/task_object.hpp", "include/boost/fiber/future/detail/task_base.hpp"],
 [("task_object::run/reset", "future/detail/task_object.hpp")])

prop("C19", "Fiber-specific pointers are per fiber and cleaned up exactly once",
 "Each fiber sees its own value of every fiber_specific_ptr, initially null, unaffected by other fibers on any thread and by migration. A non-null value is passed to the cleanup function exactly once - on reset to another value, on destruction of the pointer in that fiber, or at a launched fiber's exit (before join() on it returns) - and never after release(), also when a cleanup function itself uses fiber-specific pointers; the cleanup is not called for null.",
 ["programs", "schedules"],
 "All sequences of get/reset/release/switch over 2 fibers and 2 pointers up to depth 6 against a map model, including migration between threads.",
 "Tests use one reset per fiber.",
 ["include/boost/fiber/fss.hpp", "include/boost/fiber/detail/fss.hpp", "src/context.cpp"],
 [("fss map keyed by the pointer object", "src/context.cpp get_fss_data, set_fss_data, terminate")])

prop("C20", "A custom scheduling algorithm gets every ready fiber exactly once",
 "For any user-supplied algorithm that returns every fiber it was given, in whatever order it likes, all other guarantees hold: each time a fiber becomes ready it is handed to awakened() exactly once, is resumed only when picked, is never handed over while still running, and fiber properties attached to it stay with it. The idle hook is entered only when nothing is ready, with the earliest pending time point, and notify() is issued whenever another thread makes a fiber ready.",
 ["schedules", "programs"],
 "All orders in which the algorithm may pick among ready fibers, for programs of 3-4 fibers using each blocking primitive; with a monitor inside the algorithm.",
 "Tests use only the stock algorithms, so only FIFO and one stealing order are seen.",
 ["include/boost/fiber/algo/algorithm.hpp", "src/algo/algorithm.cpp", "src/scheduler.cpp", "src/context.cpp", "src/properties.cpp", "include/boost/fiber/properties.hpp"],
 [("awakened/pick_next/suspend_until/notify protocol", "src/scheduler.cpp"), ("property_change", "src/properties.cpp")])

prop("C21", "shared_work: each ready fiber is resumed by exactly one thread",
 "With shared_work, every ready fiber is resumed exactly once per readiness by exactly one of the participating threads, sees its own earlier writes and those of whoever made it ready, and is eventually resumed as long as the thread that made it ready does not block outside the library; main and dispatcher fibers never migrate, and a participating thread does not finish while fibers it left ready could be lost. All fibers complete and joins and synchronisation between migrating fibers behave as on one thread.",
 ["schedules"],
 "All interleavings of two to three threads sharing a few fibers that yield, block and wake each other, up to a preemption bound, with and without suspension.",
 "test_fiber_*'s shared_work use runs one schedule; double resumption needs a specific interleaving.",
 ["src/algo/shared_work.cpp", "src/context.cpp", "src/scheduler.cpp"],
 [("global ready queue under mutex; local queue for pinned contexts", "src/algo/shared_work.cpp"), ("attach/detach", "src/context.cpp")])

prop("C22", "work_stealing: no fiber is lost, duplicated or stolen when pinned",
 "With work_stealing, every ready fiber is resumed exactly once per readiness, either by its own thread or by exactly one thief, however many fibers are queued and however steals race with the owner's push and pop; main and dispatcher fibers are never stolen. All fibers complete, as long as the thread that made them ready does not block outside the library, and a participating thread that finishes loses no fiber.",
 ["schedules", "configurations"],
 "All interleavings of an owner and one or two thieves over queues that become empty, have one element, wrap and grow, for both queue implementations and both suspension modes, up to a preemption bound.",
 "Steal-versus-pop on the last element and steal during growth are races of a few instructions; tests hit them by luck only.",
 ["src/algo/work_stealing.cpp", "include/boost/fiber/algo/work_stealing.hpp", "include/boost/fiber/detail/context_spinlock_queue.hpp", "include/boost/fiber/detail/context_spmc_queue.hpp"],
 [("context_spinlock_queue push/pop/steal/resize_", "include/boost/fiber/detail/context_spinlock_queue.hpp"), ("Chase-Lev deque", "include/boost/fiber/detail/context_spmc_queue.hpp")])

prop("C23", "All guarantees hold in every locking configuration",
 "Whichever internal lock the library is configured with (test-and-test-and-set, adaptive, futex-based, adaptive futex, std::mutex), with or without transactional lock elision (BOOST_USE_TSX) and whether or not transactions ever commit, it is mutually exclusive, publishes the critical section's writes, and every contender eventually gets it. The synchronisation primitives built on it therefore compile and give the same results in every configuration.",
 ["configurations", "schedules"],
 "All spinlock build options, lock elision with a simulated transactional memory (conflicts, explicit aborts, system calls inside transactions, transactions that always abort); all interleavings of 2-3 threads contending directly and through mutex/condition/channel, up to a preemption bound.",
 "The repository's tests are built in one configuration only.",
 ["include/boost/fiber/detail/spinlock.hpp", "include/boost/fiber/detail/spinlock_ttas.hpp", "include/boost/fiber/detail/spinlock_ttas_adaptive.hpp", "include/boost/fiber/detail/spinlock_ttas_futex.hpp", "include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp", "include/boost/fiber/detail/spinlock_rtm.hpp", "include/boost/fiber/detail/futex.hpp"],
 [("lock word protocol", "include/boost/fiber/detail/spinlock_ttas*.hpp"), ("lock elision and its fall-back", "include/boost/fiber/detail/spinlock_rtm.hpp")])

prop("C24", "Every fiber's resources are released exactly once, at the right time",
 "Every fiber's stack, function object, arguments and control data are released exactly once, on normal completion, after join or detach, at thread exit and with custom stack allocators, with the same allocator and size they came from, never while still in use, and nothing remains when the thread has finished. The function object and arguments the fiber ran with are destroyed before join() returns.",
 ["schedules", "programs"],
 "All interleavings of the last handle's release, termination and thread exit over one to three threads; all pick orders; every allocation and release accounted for.",
 "No existing test counts allocations, and use-after-release shows only under one interleaving.",
 ["src/context.cpp", "src/scheduler.cpp", "include/boost/fiber/context.hpp", "include/boost/fiber/fiber.hpp", "include/boost/fiber/stack_allocator_wrapper.hpp"],
 [("intrusive reference counting and terminated queue", "src/scheduler.cpp release_terminated_, include/boost/fiber/context.hpp"), ("worker_context::destroy_", "include/boost/fiber/context.hpp")])

prop("C25", "Failed allocations and throwing user code leave everything consistent",
 "When memory or a stack cannot be allocated, or copying/moving the callable, an argument or a channel element throws, the operation reports that exception to its caller, releases everything it had acquired, and leaves the scheduler, channel, promise or handle as before the call. Subsequent operations work normally.",
 ["fault_sequences", "programs"],
 "Every single allocation or user copy in a set of API scenarios is made to fail in turn (all fault points).",
 "No test injects faults.",
 ["include/boost/fiber/fiber.hpp", "include/boost/fiber/context.hpp", "include/boost/fiber/buffered_channel.hpp", "include/boost/fiber/future/promise.hpp", "include/boost/fiber/future/async.hpp", "src/context.cpp"],
 [("exception safety of constructors and push", "include/boost/fiber/*.hpp")])

prop("C26", "Fiber handles: move, swap, joinable, ids and errors",
 "A fiber handle owns at most one fiber; construction, move, move-assignment, swap, detach and join change joinable() and get_id() exactly as documented, ids of distinct live fibers differ, equal ids hash equally, the id order is a strict total order with not-a-fiber equal to a default id. join() on a non-joinable handle throws invalid_argument, self-join throws resource_deadlock_would_occur, detach() of a non-joinable handle throws invalid_argument, and destroying or overwriting a joinable handle terminates the program, as does an exception that escapes from a fiber's function.",
 ["programs", "histories"],
 "All sequences of handle operations up to depth 5 over three handles against a reference model.",
 "Tests check single operations, not their combinations.",
 ["src/fiber.cpp", "include/boost/fiber/fiber.hpp", "include/boost/fiber/context.hpp"],
 [("impl_ pointer hand-over", "include/boost/fiber/fiber.hpp"), ("context::id comparisons", "include/boost/fiber/context.hpp")])

prop("C27", "Installing a scheduler keeps ready fibers and initialises a thread once",
 "use_scheduling_algorithm()/initialize_thread() put the given algorithm in charge of the calling thread; fibers already ready are not lost and run under the new algorithm, sleeping and blocked ones still wake. initialize_thread() returns true exactly for the first initialisation of a thread, then uses the given stack allocator for the thread's own fiber, and an algorithm is destroyed exactly once and never used afterwards, also with threads waking each other while one is exiting.",
 ["schedules", "programs"],
 "All programs launching fibers before/after (re)installing an algorithm; all interleavings of a remote wake-up with the target thread's exit.",
 "Tests install one algorithm at thread start.",
 ["src/context.cpp", "src/scheduler.cpp", "include/boost/fiber/operations.hpp", "include/boost/fiber/stack_allocator_wrapper.hpp"],
 [("set_algo hands ready fibers over", "src/scheduler.cpp set_algo"), ("context_initializer", "src/context.cpp")])

prop("C28", "NUMA topology reflects exactly what the system reports",
 "On Linux, topology() returns one node per NUMA node that has an online CPU, each with exactly its online logical CPUs and its full distance list, for every well-formed system description (any list/range syntax of online CPUs, any node numbering); without node information all online CPUs form node 0, and without an online CPU list the result is empty. pin_thread() binds exactly the given thread to exactly the given CPU or throws system_error.",
 ["inputs", "configurations"],
 "All system descriptions over up to 4 CPUs and 3 nodes with every online subset in several spellings, all CPU-to-node maps, present/absent distance and node information; every CPU id and error answer for pinning.",
 "No test runs this code; it sees one machine.",
 ["src/numa/linux/topology.cpp", "src/numa/topology.cpp", "src/numa/linux/pin_thread.cpp", "src/numa/pin_thread.cpp"],
 [("sysfs parsing", "src/numa/linux/topology.cpp"), ("affinity call", "src/numa/linux/pin_thread.cpp")])

prop("C29", "NUMA work_stealing: exactly-once execution, local victims first",
 "With the NUMA-aware work_stealing algorithm over any topology, every ready fiber is resumed exactly once by exactly one thread, main and dispatcher fibers never migrate, each participating thread is pinned to its CPU, and a thread takes work from another NUMA node only after failing to get any from its own. All fibers complete as long as the thread that made them ready does not block outside the library, also on a machine or node with a single CPU.",
 ["schedules", "configurations"],
 "Topologies of 1-2 nodes and 2-3 CPUs; all interleavings of the threads over a few fibers up to a preemption bound.",
 "No test uses it.",
 ["src/numa/algo/work_stealing.cpp", "include/boost/fiber/numa/algo/work_stealing.hpp"],
 [("victim selection", "src/numa/algo/work_stealing.cpp pick_next")])

prop("C30", "GPU completion callbacks wake the waiting fiber",
 "boost::fibers::cuda::waitfor_all() and boost::fibers::hip::waitfor_all() suspend only the calling fiber until all given streams have finished and return every distinct stream exactly once with the status the driver gave it, or with the error if the driver refused the callback. This holds whenever the driver runs its callbacks, also before the wait has begun, and neither side touches the other's data after the wait has returned.",
 ["schedules"],
 "One to three streams, one or two driver threads, every subset of refused registrations and failed streams, waits from main and launched fibers on one or two threads; all interleavings of the callbacks with the waits up to a preemption bound, against a stand-in for the driver.",
 "No test includes these headers and no GPU runtime is installed.",
 ["include/boost/fiber/cuda/waitfor.hpp", "include/boost/fiber/hip/waitfor.hpp"],
 [("callback rendezvous", "include/boost/fiber/cuda/waitfor.hpp")])

prop("C31", "The library's own assertions hold in every correct program",
 "In a build with assertions enabled no program that follows the documentation ever fails one of the library's internal assertions (queue membership, ownership, scheduler state, intrusive-hook safety), whatever the schedule: with fibers woken by other threads, also while the owning thread is finishing, with fibers migrating between threads, timeouts racing with notifications, changed scheduling algorithms and fiber properties. Apart from the assertions such a build behaves exactly like a release build.",
 ["schedules", "programs"],
 "The scenarios of the other properties, repeated with assertions compiled in, one deviation less than in the property's own check.",
 "The existing tests run with assertions in one build type only and on few schedules; the failing orders need a remote wake-up or a migration at one particular point.",
 ["src/context.cpp", "src/scheduler.cpp", "src/properties.cpp", "src/waker.cpp", "src/algo/algorithm.cpp", "include/boost/fiber/context.hpp", "include/boost/fiber/condition_variable.hpp"],
 [("BOOST_ASSERT on scheduler and queue state", "src/scheduler.cpp, src/context.cpp"), ("assertions on mutex ownership after waiting", "include/boost/fiber/condition_variable.hpp")])

prop("C32", "The configuration without atomics gives the same guarantees within a thread",
 "Built with BOOST_FIBERS_NO_ATOMICS the library compiles, and every guarantee about fibers, mutexes, condition variables, barriers, channels, futures, timeouts, fiber-local storage, scheduling algorithms and resource release holds for all fibers of one thread. Several threads may each run fibers of their own without disturbing one another, as long as no synchronisation object is shared between threads.",
 ["configurations", "programs", "schedules"],
 "Every single-threaded execution of the other properties' scenarios, repeated in that build; two and three threads running independent programs, all interleavings up to a preemption bound, data races reported.",
 "The repository's tests are never built in this configuration.",
 ["include/boost/fiber/context.hpp", "include/boost/fiber/detail/spinlock.hpp", "include/boost/fiber/scheduler.hpp", "include/boost/fiber/waker.hpp", "src/context.cpp", "src/scheduler.cpp", "doc/overview.qbk"],
 [("non-atomic reference count and waker epoch", "include/boost/fiber/context.hpp, src/context.cpp context::wake"), ("no remote-ready queue", "src/scheduler.cpp, include/boost/fiber/scheduler.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
