// C29 NUMA work_stealing: no fiber is lost, duplicated or stolen when pinned; threads are pinned to their CPU; local victims first
#include "ws.h"
#include <boost/fiber/numa/algo/work_stealing.hpp>
#include <boost/fiber/numa/topology.hpp>
#include <system_error>
namespace nu = bf::numa;
typedef nu::algo::work_stealing WS;

// a machine: thread i of the program runs on CPU cpu[i] of node node[i]
struct Machine { std::vector<nu::node> topo; std::vector<std::uint32_t> cpu, node; };
// kinds: 0 one node, two CPUs; 1 two nodes with one CPU each; 2 one node with sparse CPU numbers; 3 two nodes, sparse, the higher node first
static Machine machine2(int kind) {
    Machine m; auto nd = [&](std::uint32_t id, std::set<std::uint32_t> c) { nu::node n; n.id = id; n.logical_cpus = c; m.topo.push_back(n); for (auto x : c) { m.cpu.push_back(x); m.node.push_back(id); } };
    switch (kind) { case 0: nd(0, { 0, 1 }); break; case 1: nd(0, { 0 }); nd(1, { 1 }); break; case 2: nd(3, { 2, 7 }); break; default: nd(4, { 6 }); nd(1, { 2 }); }
    return m;
}
// three CPUs: 0 on one node; 1 two + one; 2 three nodes; 3 one + two, sparse; 4 the two-CPU node last in number, first in order
static Machine machine3(int kind) {
    Machine m; auto nd = [&](std::uint32_t id, std::set<std::uint32_t> c) { nu::node n; n.id = id; n.logical_cpus = c; m.topo.push_back(n); for (auto x : c) { m.cpu.push_back(x); m.node.push_back(id); } };
    switch (kind) { case 0: nd(0, { 0, 1, 2 }); break; case 1: nd(0, { 0, 1 }); nd(1, { 2 }); break; case 2: nd(0, { 0 }); nd(1, { 1 }); nd(2, { 2 }); break; case 3: nd(0, { 1 }); nd(2, { 4, 9 }); break; default: nd(7, { 0, 3 }); nd(2, { 1 }); }
    return m;
}
struct Inst {
    Machine const* m; bool suspend;
    void operator()(int i) const {
        std::uint32_t cpu = m->cpu[(size_t)i]; uint64_t self = (uint64_t)pthread_self();
        install<WS>(suspend, cpu, m->node[(size_t)i], m->topo, suspend);
        int seen = 0; for (int k = 0; k < mc::affinity_count(); ++k) { auto a = mc::affinity_get(k); if (a.thread != self) continue; ++seen; MC_CHECKF(a.cpus == 1 && a.cpu == (int)cpu, "a thread meant for CPU %u was pinned to %d CPUs from %d on", cpu, a.cpus, a.cpu); }
        MC_CHECKF(seen >= 1, "the thread of CPU %u was not pinned", cpu);
    }
};
static void run(int threads, bool suspend, int prog, int k) {
    mc::log("program: %s, %d threads, %s", prog_names[prog], threads, suspend ? "sleeping" : "polling");
    Machine m = threads == 1 ? Machine() : threads == 2 ? machine2(mc::choose(4)) : machine3(mc::choose(5));
    if (threads == 1) { nu::node n; n.id = 1; n.logical_cpus = { 4 }; m.topo = { n }; m.cpu = { 4 }; m.node = { 1 }; }
    if (threads > 2 && mc::thorough()) mc::seed(mc::choose(2));
    Pool p(threads, Inst{ &m, suspend }); program(prog, k); p.stop();
    std::set<uint64_t> th; for (int i = 0; i < mc::affinity_count(); ++i) th.insert(mc::affinity_get(i).thread); MC_CHECKF((int)th.size() == threads, "%zu threads were pinned", th.size());
}
// the array of schedulers is static and keeps the algorithms alive: leak accounting does not apply
#define SC(NAME, PROG, K, QS, QP, Q3, ONLY3) \
    MC_SCENARIO(C29, NAME##_sleep, "2 CPUs on 1 or 2 nodes, threads that sleep when idle, program " #NAME, o.quick = QS; o.thorough = 3; o.spurious = true; o.leak = false) { run(2, true, PROG, K); } \
    MC_SCENARIO(C29, NAME##_poll, "2 CPUs on 1 or 2 nodes, threads that poll when idle, program " #NAME, o.quick = QP; o.thorough = 3; o.leak = false) { run(2, false, PROG, K); } \
    MC_SCENARIO(C29, NAME##_sleep3, "3 CPUs on 1, 2 or 3 nodes, threads that sleep when idle, program " #NAME, o.quick = Q3; o.thorough = 2; o.leak = false; o.thorough_only = ONLY3) { run(3, true, PROG, K); } \
    MC_SCENARIO(C29, NAME##_one, "1 CPU, program " #NAME, o.quick = 2; o.thorough = 3; o.leak = false) { run(1, mc::choose(2) == 0, PROG, K); }
SC(yield, P_YIELD, 2, 2, 2, 1, false) SC(join, P_JOIN, 2, 2, 2, 0, true) SC(mutex, P_MUTEX, 2, 2, 2, 1, false) SC(cv, P_CV, 3, 2, 2, 0, true) SC(buffered, P_BUF, 2, 2, 2, 0, true) SC(unbuffered, P_UNB, 2, 2, 2, 0, true) SC(future, P_FUTURE, 3, 2, 2, 1, true) SC(sleep, P_SLEEP, 2, 2, 2, 0, false) SC(dispatch, P_DISPATCH, 2, 2, 2, 0, true) SC(detach, P_DETACH, 2, 2, 2, 1, false) SC(nest, P_NEST, 2, 2, 2, 0, true) SC(fss, P_FSS, 2, 2, 2, 0, true) SC(barrier, P_BARRIER, 2, 2, 2, 0, true) SC(timed, P_TIMED, 2, 2, 2, 0, true)
MC_SCENARIO(C29, both_sleep, "both threads launch and join fibers (sleeping)", o.quick = 2; o.thorough = 3; o.leak = false) { Machine m = machine2(mc::choose(4)); both_launch(2, Inst{ &m, true }); }
MC_SCENARIO(C29, both_poll, "both threads launch and join fibers (polling)", o.quick = 1; o.thorough = 3; o.leak = false) { Machine m = machine2(mc::choose(4)); both_launch(2, Inst{ &m, false }); }
MC_SCENARIO(C29, exit_sleep, "a participating thread returns after launching detached fibers (sleeping)", o.quick = 1; o.thorough = 3; o.leak = false) { Machine m = machine2(mc::choose(4)); early_exit(Inst{ &m, true }, mc::choose(8)); }

// Every other thread keeps its own CPU busy inside one fiber while a second fiber waits in its ready queue; the thief has to fetch
// those fibers, and those of its own node first.
struct Ev { std::mutex m; std::condition_variable c; int n{ 0 }; void signal() { { std::unique_lock<std::mutex> l(m); ++n; } c.notify_all(); } void wait(int k) { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return n >= k; }); } };
static void busy_victims(Machine const& m, int thief, bool suspend, std::vector<int> locals_first) {
    int n = (int)m.cpu.size(); Ev ready, fin; std::mutex om; std::vector<int> order; std::vector<int> ran((size_t)n), ranby((size_t)n);
    struct { bf::mutex m; bf::condition_variable c; int left; } sh; sh.left = n - 1; Inst inst{ &m, suspend };
    auto stolen = [&](int i) { { std::unique_lock<std::mutex> l(om); order.push_back(i); ++ran[(size_t)i]; ranby[(size_t)i] = mc::tid(); } std::unique_lock<bf::mutex> l(sh.m); if (--sh.left == 0) sh.c.notify_all(); };
    // both fibers become ready while the dispatcher is about to run, without this thread ever being idle: it then runs one, and the other is at the end thieves take from
    auto victim = [&](int i) {
        inst(i); bf::promise<void> go; bf::shared_future<void> sf = go.get_future().share(); bool busy = false; int home = mc::tid();
        auto body = [&, i] { sf.wait(); if (mc::tid() == home && !busy) { busy = true; ready.signal(); fin.wait(1); } else stolen(i); };
        bf::fiber a(bf::launch::dispatch, body), b(bf::launch::dispatch, body); std::thread w([&] { go.set_value(); }); w.join(); a.join(); b.join(); };
    auto doit = [&] { inst(thief); ready.wait(n - 1); { std::unique_lock<bf::mutex> l(sh.m); while (sh.left) sh.c.wait(l); } fin.signal(); };
    std::vector<std::thread> th; int ttid = -1;
    for (int i = 1; i < n; ++i) th.emplace_back([&, i] { if (i == thief) { ttid = mc::tid(); doit(); } else victim(i); });
    if (thief == 0) { ttid = mc::tid(); doit(); } else victim(0);
    for (auto& t : th) t.join();
    for (int i = 0; i < n; ++i) if (i != thief) { MC_CHECKF(ran[(size_t)i] == 1, "a waiting fiber ran %d times", ran[(size_t)i]); MC_CHECKF(ranby[(size_t)i] == ttid, "a fiber waiting behind a busy one was not taken by the idle thread"); }
    for (size_t k = 0; k < locals_first.size(); ++k) MC_CHECKF(order[k] == locals_first[k], "the idle thread took the fiber of CPU %u (another node) while one of its own node was ready", m.cpu[(size_t)order[k]]);
    for (int i : order) mc::outcome("%d", i);
}
MC_SCENARIO(C29, fetch2, "an idle thread fetches the fiber waiting behind a busy one: 2 CPUs on 1 or 2 nodes", o.quick = 2; o.thorough = 4; o.leak = false) { Machine m = machine2(mc::choose(4)); int t = mc::choose(2); bool s = mc::choose(2) == 0; busy_victims(m, t, s, {}); }
MC_SCENARIO(C29, local_first, "with work ready on its own and on another node, an idle thread takes that of its own node first", o.quick = 0; o.thorough = 1; o.leak = false) {
    int kind = mc::choose(3); Machine m = machine3(kind == 0 ? 1 : kind == 1 ? 3 : 4); mc::seed(mc::choose(mc::thorough() ? 6 : 3)); bool s = mc::choose(2) == 0; int one = kind == 1 ? 1 : 0;   // the two CPUs of the shared node: one, one+1
    int t = one + mc::choose(2); busy_victims(m, t, s, { t == one ? one + 1 : one });
}
MC_SCENARIO(C29, all_remote, "an idle thread alone on its node fetches from every other node", o.quick = 0; o.thorough = 2; o.leak = false) { int kind = mc::choose(3); Machine m = machine3(kind == 0 ? 2 : kind == 1 ? 1 : 3); int t = kind == 0 ? mc::choose(3) : kind == 1 ? 2 : 0; mc::seed(mc::choose(3)); busy_victims(m, t, false, {}); }   // polling: victims are drawn at random, a sleeping thread may miss one
MC_SCENARIO(C29, pin_error, "the thread cannot be pinned: the constructor reports it", o.quick = 0; o.thorough = 0; o.leak = false) {
    nu::node n; n.id = 0; n.logical_cpus = { 0 }; std::vector<nu::node> topo{ n }; static int const errs[] = { EINVAL, EPERM, ESRCH }; int e = errs[mc::choose(3)]; mc::affinity_fail(e); int got = 0;
    try { WS* w = new WS(0, 0, topo, false); (void)w; } catch (std::system_error const& x) { got = x.code().value(); }
    MC_CHECKF(got == e, "error %d was reported as %d", e, got);
}
