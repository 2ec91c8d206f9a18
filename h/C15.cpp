// C15 channel element and iterator lifetimes are balanced
#include "common.h"
using st = bf::channel_op_status;

// element type that owns a resource and tracks object lifetime
struct Tr {
    // live objects; owners per resource (outside the instrumented program)
    struct Regs { struct R { int k; operator int() const { return (int)mc::reg(k); } void operator++(int) const { mc::reg(k)++; } void operator--(int) const { mc::reg(k)--; } }; R operator[](int i) const { return R{ 101 + i }; } };
    static constexpr Regs own{}; static constexpr Regs::R objs{ 100 };
    enum : uint32_t { ALIVE = 0xA11FE123u, DEAD = 0xDEADDEADu };
    uint32_t magic; int id; Tr* self;
    Tr(int i = -1) : magic(ALIVE), id(i), self(this) { objs++; if (i >= 0) own[i]++; }
    void ok() const { MC_CHECKF(magic == ALIVE && self == this, "use of an element that is not alive"); }
    Tr(Tr const& o) : magic(ALIVE), id(o.id), self(this) { o.ok(); objs++; if (id >= 0) own[id]++; }
    Tr(Tr&& o) noexcept : magic(ALIVE), id(o.id), self(this) { o.ok(); o.id = -1; objs++; }
    Tr& operator=(Tr const& o) { ok(); o.ok(); if (this != &o) { if (id >= 0) own[id]--; id = o.id; if (id >= 0) own[id]++; } return *this; }
    Tr& operator=(Tr&& o) noexcept { ok(); o.ok(); if (this != &o) { if (id >= 0) own[id]--; id = o.id; o.id = -1; } return *this; }
    ~Tr() { ok(); magic = DEAD; objs--; if (id >= 0) own[id]--; MC_CHECKF(objs >= 0, "more destructions than constructions"); }
};
constexpr Tr::Regs Tr::own; constexpr Tr::Regs::R Tr::objs;
struct Balance { ~Balance() { MC_CHECKF(Tr::objs == 0, "%d elements were not destroyed", (int)Tr::objs); for (int i = 0; i < 64; ++i) MC_CHECKF(Tr::own[i] == 0, "element %d has %d owners after the channel's destruction", i, (int)Tr::own[i]); } };

MC_SCENARIO(C15, buf_seq, "every sequence of operations of one fiber on a buffered_channel, then destruction", o.quick = 0; o.thorough = 0) {
    Balance bal; int n = mc::thorough() ? 7 : 6;
    {
        int cap = 2 << mc::choose(2); bf::buffered_channel<Tr> c(cap); int want[64], h = 0, t = 0, v = 0; bool closed = false;
        for (int i = 0; i < n; ++i) {
            bool full = t - h == cap - 1, empty = t == h; st expect = closed ? st::closed : full ? st::full : st::success;
            switch (mc::choose(7)) {
            case 0: { Tr x(v); st r = c.try_push(x); MC_CHECK(r == expect); MC_CHECKF(x.id == v, "copying push changed its argument"); MC_CHECK(Tr::own[v] == (r == st::success ? 2 : 1)); if (r == st::success) want[t++] = v; v++; break; }
            case 1: { Tr x(v); st r = c.try_push(std::move(x)); MC_CHECK(r == expect); MC_CHECKF((x.id == v) == (r != st::success), "failed push took the caller's value (or successful one did not)"); MC_CHECK(Tr::own[v] == 1); if (r == st::success) want[t++] = v; v++; break; }
            case 2: { if (full && !closed) mc::discard(); Tr x(v); st r = mc::choose(2) ? c.push(std::move(x)) : c.push_wait_for(std::move(x), ms(1)); MC_CHECK(r == expect); MC_CHECKF((x.id == v) == (r != st::success), "failed push took the caller's value"); if (r == st::success) want[t++] = v; v++; break; }
            case 3: { if (!full || closed) mc::discard(); Tr x(v); st r = c.push_wait_for(std::move(x), ms(1)); MC_CHECK(r == st::timeout); MC_CHECKF(x.id == v, "timed out push took the caller's value"); v++; break; }
            case 4: { Tr x(60); int how = mc::choose(3); if (how == 1 && empty && !closed) mc::discard(); st r = how == 0 ? c.try_pop(x) : how == 1 ? c.pop(x) : c.pop_wait_for(x, ms(1)); if (empty) { MC_CHECK(r == (closed ? st::closed : how == 0 ? st::empty : st::timeout)); MC_CHECK(x.id == 60); } else { MC_CHECK(r == st::success && x.id == want[h] && Tr::own[want[h]] == 1 && Tr::own[60] == 0); h++; } break; }
            case 5: { if (empty && !closed) mc::discard(); try { Tr x = c.value_pop(); MC_CHECK(!empty && x.id == want[h] && Tr::own[x.id] == 1); h++; } catch (bf::fiber_error const&) { MC_CHECK(empty && closed); } break; }
            case 6: { if (closed) mc::discard(); c.close(); closed = true; break; }
            }
            for (int k = 0; k < 60; ++k) { bool in = false; for (int j = h; j < t; ++j) in |= want[j] == k; MC_CHECKF(Tr::own[k] == (in ? 1 : 0), "element %d: %d owners, expected %d", k, (int)Tr::own[k], in); }
        }
    }
}

// iteration: copies and moves of iterators, break at any point, destruction of iterators with a value in hand
template<typename C> static void iterate(C& c, int total, bool closes) {
    int seen = 0, stop = mc::choose(total + 2), cnt = 0;
    int style = mc::choose(3);
    if (style == 0) {
        for (Tr& x : c) { x.ok(); MC_CHECKF(x.id == seen, "iteration yields %d, expected %d", x.id, seen); seen++; if (mc::choose(2)) { Tr y(std::move(x)); } if (++cnt == stop) break; }
    } else if (style == 1) {
        auto it = begin(c); auto e = end(c);
        while (it != e) { (*it).ok(); MC_CHECK(it->id == seen); seen++; if (++cnt == stop) break; auto& r = ++it; MC_CHECK(&r == &it); }
        if (it == e) { auto f = it; MC_CHECK(f == e); }
    } else {
        auto it = begin(c); decltype(it) e;
        while (!(it == e)) { MC_CHECK((*it).id == seen); seen++; if (++cnt == stop) break; { auto copy = it; MC_CHECK(copy == it); decltype(it) a2; a2 = it; MC_CHECK(a2 == it); } ++it; }
    }
    if (stop > total || stop == 0) MC_CHECKF(seen == total, "iteration ended after %d of %d elements", seen, total);
    else MC_CHECK(seen == stop);
    (void)closes;
}
MC_SCENARIO(C15, buf_iter, "range iteration over a buffered_channel, closed or fed meanwhile, left at any point", o.quick = 0; o.thorough = 0) {
    Balance bal;
    {
        bf::buffered_channel<Tr> c(mc::choose(2) ? 2 : 8); int total = mc::choose(4);
        bf::fiber p([&] { for (int i = 0; i < total; ++i) { if (mc::choose(2)) tf::yield(); if (mc::choose(2)) c.push(Tr(i)); else { Tr x(i); c.push(x); } } c.close(); });
        iterate(c, total, true);
        c.close();
        p.join();
    }
}
MC_SCENARIO(C15, unbuf_iter, "range iteration over an unbuffered_channel, closed or fed meanwhile, left at any point", o.quick = 0; o.thorough = 0) {
    Balance bal;
    {
        bf::unbuffered_channel<Tr> c; int total = mc::choose(4);
        bf::fiber p([&] { for (int i = 0; i < total; ++i) { if (mc::choose(2)) tf::yield(); if (mc::choose(2)) c.push(Tr(i)); else { Tr x(i); c.push(x); } } c.close(); });
        iterate(c, total, true);
        c.close();
        p.join();
    }
}
MC_SCENARIO(C15, unbuf_ops, "operations on an unbuffered_channel incl. timeout and close; elements owned exactly once", o.quick = 0; o.thorough = 0) {
    Balance bal;
    {
        bf::unbuffered_channel<Tr> c; int n = mc::thorough() ? 4 : 3;
        bf::fiber p([&] { for (int i = 0; i < n; ++i) { Tr x(i); st r;
            switch (mc::choose(5)) { case 0: r = c.push(x); MC_CHECK(x.id == i); break; case 1: r = c.push(std::move(x)); MC_CHECK(r != st::success || x.id == -1); break; case 2: r = c.push_wait_for(x, ms(2)); MC_CHECK(x.id == i); break;
                case 3: r = c.push_wait_for(std::move(x), ms(2)); MC_CHECK(r != st::success || x.id == -1); break; case 4: tf::yield(); r = st::success; break; }
            (void)r; } c.close(); });
        int last = -1;
        for (int i = 0; i < n; ++i) {
            Tr x(60); st r;
            switch (mc::choose(5)) {
            case 0: r = c.pop(x); break; case 1: r = c.pop_wait_for(x, ms(1)); break;
            case 2: try { Tr y = c.value_pop(); x = std::move(y); r = st::success; } catch (bf::fiber_error const&) { r = st::closed; } break;
            case 3: tf::sleep_for(ms(2)); continue;
            default: if (mc::choose(2)) c.close(); else tf::yield(); continue; }
            if (r == st::success) { MC_CHECKF(x.id > last && x.id < n, "received %d", x.id); MC_CHECKF(Tr::own[60] == 0, "the channel keeps what the variable held before"); last = x.id; } else MC_CHECK(x.id == 60);
        }
        c.close(); p.join();
    }
}
// threads: iteration against a producer thread and a closing one
template<typename C> static void mt_iter(C& c, int total) {
    std::thread p([&] { for (int i = 0; i < total; ++i) c.push(Tr(i)); c.close(); });
    int seen = 0; for (Tr& x : c) { MC_CHECK(x.id == seen); seen++; }
    MC_CHECK(seen == total); p.join();
}
MC_SCENARIO(C15, mt_buf_iter, "iteration over a buffered_channel fed by another thread", o.quick = 4; o.thorough = 5) { Balance b; { bf::buffered_channel<Tr> c(2); mt_iter(c, 3); } }
MC_SCENARIO(C15, mt_unbuf_iter, "iteration over an unbuffered_channel fed by another thread", o.quick = 4; o.thorough = 5) { Balance b; { bf::unbuffered_channel<Tr> c; mt_iter(c, 2); } }
// move-only elements and references to const work
MC_SCENARIO(C15, move_only, "move-only elements", o.quick = 3; o.thorough = 5) {
    using P = std::unique_ptr<int>;
    bf::buffered_channel<P> b(4); bf::unbuffered_channel<P> u;
    std::thread t([&] { for (int i = 0; i < 2; ++i) { b.push(P(new int(i))); u.push(P(new int(i))); } b.push(P(new int(7))); b.close(); u.close(); });
    int n = 0; for (P& p : u) { MC_CHECK(*p == n); n++; }
    P q; MC_CHECK(b.pop(q) == st::success && *q == 0); MC_CHECK(*b.value_pop() == 1);
    t.join();       // one element stays in the buffer: destroyed with the channel (leak check)
}
