// direct tests of the queues behind work_stealing; Q is the queue type
#ifndef H_WS_H
#define H_WS_H
#include "pool.h"
#include <deque>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
// real contexts to put into a queue: launched fibers that wait until they are released (never run while in the queue), plus the main context (pinned)
struct Ctxs {
    std::vector<bf::context*> v; std::vector<bf::fiber> f; bf::promise<void> go; bf::shared_future<void> sf; bf::context* pinned;
    explicit Ctxs(int n) : v((size_t)n) { sf = go.get_future().share(); for (int i = 0; i < n; ++i) f.emplace_back(bf::launch::dispatch, [this, i] { v[(size_t)i] = bf::context::active(); sf.wait(); }); pinned = bf::context::active(); }
    ~Ctxs() { go.set_value(); for (auto& x : f) x.join(); }
    // 0..n-1: fibers, n: the pinned context
    int index(bf::context* c) const { if (c == pinned) return (int)v.size(); for (size_t i = 0; i < v.size(); ++i) if (v[i] == c) return (int)i; mc::fail("the queue returned something that was never pushed"); }
    bf::context* at(int i) const { return i == (int)v.size() ? pinned : v[(size_t)i]; }
};
// one thread, every operation sequence, against a deque; LIFO: pop takes the newest
template<typename Q, bool LIFO> static void queue_seq(int cap, int len) {
    int const n = len < 6 ? len : 6; Ctxs c(n); Q q((size_t)cap); std::deque<int> model; int next = 0; bool pin_out = true;
    q.push(c.pinned); MC_CHECK(!q.empty()); MC_CHECK(q.steal() == nullptr); MC_CHECK(q.pop() == c.pinned); MC_CHECK(q.empty());
    auto got = [&](bf::context* r, bool back) { if (model.empty()) { MC_CHECKF(!r, "an empty queue returned something"); return; } MC_CHECKF(r, "a non-empty queue returned nothing"); int i = c.index(r); int want = back ? model.back() : model.front(); MC_CHECKF(i == want, "the queue returned entry %d instead of %d", i, want); if (back) model.pop_back(); else model.pop_front(); if (i == n) pin_out = true; };
    for (int k = 0; k < len; ++k) {
        switch (mc::choose(4)) {
        case 0: if (next < n) { q.push(c.at(next)); model.push_back(next++); } break;
        case 1: got(q.pop(), LIFO); break;
        case 2: if (!model.empty() && model.front() == n) MC_CHECKF(q.steal() == nullptr, "a pinned context was stolen"); else got(q.steal(), false); break;
        case 3: if (pin_out) { q.push(c.pinned); model.push_back(n); pin_out = false; } break;
        }
        MC_CHECKF(q.empty() == model.empty(), "empty() is wrong");
    }
    while (!model.empty()) got(q.pop(), LIFO);
    MC_CHECK(q.pop() == nullptr && q.steal() == nullptr && q.empty());
}
// the owner pushes and pops while thieves steal
template<typename Q> static void queue_conc(int cap, int thieves, int steals, int len) {
    int const n = len; Ctxs c(n); Q q((size_t)cap); std::vector<int> payload((size_t)n + 1), taken((size_t)n + 1); int next = 0; bool pin_out = true; int npushed = 0;
    q.push(c.pinned); MC_CHECK(q.pop() == c.pinned);
    // how far the ring has advanced before the race: wrap-around
    for (int i = mc::choose(3); i > 0; --i) { q.push(c.pinned); MC_CHECK(q.pop() == c.pinned); }
    if (mc::choose(2)) { payload[0] = 1; q.push(c.at(next++)); }
    auto take = [&](bf::context* r, bool thief) { if (!r) return false; int i = c.index(r); MC_CHECKF(!thief || i != n, "a pinned context was stolen"); MC_CHECKF(payload[(size_t)i] == 1 || i == n, "what the pusher wrote is not visible"); if (i == n) { pin_out = true; return true; } MC_CHECKF(taken[(size_t)i] == 0, "an entry was taken twice"); taken[(size_t)i] = thief ? 2 : 1; return true; };
    std::vector<std::thread> th; for (int t = 0; t < thieves; ++t) th.emplace_back([&] { for (int k = 0; k < steals; ++k) take(q.steal(), true); });
    for (int k = 0; k < len; ++k) {
        switch (mc::choose(3)) {
        case 0: if (next < n) { payload[(size_t)next] = 1; q.push(c.at(next++)); } break;
        case 1: take(q.pop(), false); break;
        case 2: if (pin_out) { q.push(c.pinned); pin_out = false; } break;
        }
    }
    for (auto& t : th) t.join(); (void)npushed;
    while (take(q.pop(), false)) {}
    for (int i = 0; i < next; ++i) MC_CHECKF(taken[(size_t)i] != 0, "entry %d was lost", i);
    MC_CHECKF(pin_out, "the pinned entry was lost"); MC_CHECK(q.empty()); for (int i = 0; i < next; ++i) mc::outcome("%d", taken[(size_t)i]);
}
#endif
