// A user-written scheduling algorithm that may pick any ready fiber, with a monitor.
#ifndef H_ALGO_H
#define H_ALGO_H
#include "common.h"
#include <mutex>
#include <condition_variable>

enum Pick { ANY, FIFO, LIFO };
// Base: algo::algorithm or algo::algorithm_with_properties<P>
struct Monitor {
    std::vector<bf::context*> rq; Pick how; std::mutex mtx; std::condition_variable cnd; bool flag{ false }; int budget{ -1 };
    long awakened_n{ 0 }, picked_n{ 0 }, idle_n{ 0 }, notify_n{ 0 }; std::thread::id home{ std::this_thread::get_id() }; bf::context* picked_last{ nullptr };
    std::function<void(clk::time_point)> on_idle;
    explicit Monitor(Pick h) : how(h) {}
    ~Monitor() { MC_CHECKF(rq.empty(), "algorithm destroyed with ready fibers"); }
    void in(bf::context* c) {
        MC_CHECKF(std::this_thread::get_id() == home, "awakened() called on a foreign thread");
        MC_CHECKF(c != nullptr, "awakened(nullptr)");
        for (auto r : rq) MC_CHECKF(r != c, "a ready fiber was handed to awakened() a second time");
        MC_CHECKF(bf::context::active() != c, "a running fiber was handed to awakened()");
        MC_CHECKF(c->is_resumable(), "a fiber that cannot be resumed was handed to awakened()");
        rq.push_back(c); ++awakened_n;
    }
    bf::context* out() {
        MC_CHECKF(std::this_thread::get_id() == home, "pick_next() called on a foreign thread");
        if (rq.empty()) return nullptr;
        size_t i = how == FIFO ? 0 : how == LIFO ? rq.size() - 1 : (budget == 0 ? 0 : (size_t)mc::choose((int)rq.size()));
        if (budget > 0 && rq.size() > 1) --budget;
        // a LIFO order must not starve the dispatcher: prefer anything else only while there is something else
        bf::context* c = rq[i]; rq.erase(rq.begin() + (long)i); ++picked_n;
        return c;
    }
    void idle(clk::time_point tp) {
        MC_CHECKF(std::this_thread::get_id() == home, "suspend_until() called on a foreign thread");
        MC_CHECKF(rq.empty(), "idle hook entered although %d fibers are ready", (int)rq.size());
        MC_CHECKF(bf::context::active()->is_context(bf::type::dispatcher_context), "idle hook not entered by the dispatcher");
        ++idle_n; if (on_idle) on_idle(tp);
        std::unique_lock<std::mutex> lk(mtx);
        if (tp == (clk::time_point::max)()) cnd.wait(lk, [&] { return flag; }); else cnd.wait_until(lk, tp, [&] { return flag; });
        flag = false;
    }
    void wake() { std::unique_lock<std::mutex> lk(mtx); flag = true; ++notify_n; lk.unlock(); cnd.notify_all(); }
};
struct Chooser : bf::algo::algorithm {
    Monitor m; Chooser** self{ nullptr };
    explicit Chooser(Pick h = ANY, int budget = -1) : m(h) { m.budget = budget; }
    explicit Chooser(Chooser** s, Pick h = ANY, int budget = -1) : m(h), self(s) { m.budget = budget; *s = this; }
    void awakened(bf::context* c) noexcept override { m.in(c); }
    bf::context* pick_next() noexcept override { return m.out(); }
    bool has_ready_fibers() const noexcept override { return !m.rq.empty(); }
    void suspend_until(clk::time_point const& t) noexcept override { m.idle(t); }
    void notify() noexcept override { m.wake(); }
};
// round_robin whose thread polls politely: while a thread is shutting down (or an algorithm wakes itself) its dispatcher
// spins through notify()/suspend_until(); let the others run first instead of exploring every turn of that loop
struct Polite : bf::algo::round_robin {
    std::thread::id home{ std::this_thread::get_id() }; bool self{ false }, idle{ false };
    bf::context* pick_next() noexcept override { bf::context* c = bf::algo::round_robin::pick_next(); if (c && idle) { idle = false; mc::busy(); } return c; }
    void suspend_until(clk::time_point const& t) noexcept override { if (self) { self = false; idle = true; mc::idle(t == (clk::time_point::max)() ? INT64_MAX : tp_ns(t)); } bf::algo::round_robin::suspend_until(t); }
    void notify() noexcept override { if (std::this_thread::get_id() == home) self = true; bf::algo::round_robin::notify(); }
};
#endif
