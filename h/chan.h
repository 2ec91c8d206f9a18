// Channel harness pieces: a payload with identity, logged operations, reference checks.
#ifndef H_CHAN_H
#define H_CHAN_H
#include "common.h"

enum { PUSH, TRY_PUSH, POP, TRY_POP, CLOSE, VALUE_POP, TPUSH, TPOP, ISCLOSED };
inline char const* opname(int k) { static char const* n[] = { "push", "try_push", "pop", "try_pop", "close", "value_pop", "push_wait", "pop_wait", "is_closed" }; return n[k]; }
using st = bf::channel_op_status;

// a value whose content is reachable only through data written by the producer before the push (publication is checked by
// the race detector), emptied when moved from
struct Val {
    int v{ -1 }; int* data{ nullptr };
    Val() = default;
    Val(int x, int* d) : v(x), data(d) { *d = x * 7 + 1; }
    Val(Val const&) = default; Val& operator=(Val const&) = default;
    Val(Val&& o) noexcept : v(o.v), data(o.data) { o.v = -1; o.data = nullptr; }
    Val& operator=(Val&& o) noexcept { v = o.v; data = o.data; if (this != &o) { o.v = -1; o.data = nullptr; } return *this; }
    int get() const { MC_CHECKF(v >= 0 && data, "received an empty value"); MC_CHECKF(*data == v * 7 + 1, "received a corrupted value"); return v; }
};
struct Store { int d[64]; };

template<typename T> struct IsBuf : std::false_type {};
template<typename T> struct IsBuf<bf::buffered_channel<T>> : std::true_type {};
template<typename C> struct Ch {
    C& c; Store& s;   // a push that did not succeed leaves the caller's value alone (buffered_channel)
    st push(int v, bool rv = false) {
        Val x(v, &s.d[v]); int id = mc::op_begin(PUSH, v);
        st r = rv ? c.push(std::move(x)) : c.push(x);
        mc::op_end(id, (long)r); 
        if (!rv || (IsBuf<C>::value && r != st::success)) MC_CHECKF(x.v == v, "push with status %d changed the caller's value", (int)r);
        MC_CHECKF(r == st::success || r == st::closed, "push returned status %d", (int)r); return r;
    }
    st try_push(int v, bool rv = false) {
        Val x(v, &s.d[v]); int id = mc::op_begin(TRY_PUSH, v);
        st r = rv ? c.try_push(std::move(x)) : c.try_push(x);
        mc::op_end(id, (long)r);
        if (!rv || r != st::success) MC_CHECKF(x.v == v, "try_push without success changed the caller's value");
        MC_CHECKF(r == st::success || r == st::closed || r == st::full, "try_push returned status %d", (int)r); return r;
    }
    st tpush(int v, int64_t tp, bool rel = false, bool rv = false) {
        Val x(v, &s.d[v]); int id = mc::op_begin(TPUSH, v); st r;
        if (rel) { ns d(tp - mc::now_ns()); r = rv ? c.push_wait_for(std::move(x), d) : c.push_wait_for(x, d); }
        else r = rv ? c.push_wait_until(std::move(x), at_ns(tp)) : c.push_wait_until(x, at_ns(tp));
        mc::op_end(id, (long)r);
        MC_CHECKF(r == st::success || r == st::closed || r == st::timeout, "timed push returned status %d", (int)r);
        if (!rv || (IsBuf<C>::value && r != st::success)) MC_CHECKF(x.v == v, "timed push with status %d changed the caller's value", (int)r);
        if (r == st::timeout) MC_CHECKF(mc::now_ns() >= tp, "push timed out before the time point");
        return r;
    }
    st pop(int* out = nullptr) { Val x; int id = mc::op_begin(POP); st r = c.pop(x); return popped(id, r, x, out); }
    st try_pop(int* out = nullptr) { Val x; int id = mc::op_begin(TRY_POP); st r = c.try_pop(x); MC_CHECK(r != st::timeout); return popped(id, r, x, out); }
    st tpop(int64_t tp, bool rel = false, int* out = nullptr) {
        Val x; int id = mc::op_begin(TPOP);
        st r = rel ? c.pop_wait_for(x, ns(tp - mc::now_ns())) : c.pop_wait_until(x, at_ns(tp));
        if (r == st::timeout) MC_CHECKF(mc::now_ns() >= tp, "pop timed out before the time point");
        return popped(id, r, x, out);
    }
    st value_pop(int* out = nullptr) {
        int id = mc::op_begin(VALUE_POP);
        try { Val x = c.value_pop(); return popped(id, st::success, x, out); }
        catch (bf::fiber_error const& e) { MC_CHECK(e.code() == std::make_error_code(std::errc::operation_not_permitted)); mc::op_end(id, (long)st::closed); return st::closed; }
    }
    st popped(int id, st r, Val& x, int* out) {
        long v = -1;
        if (r == st::success) v = x.get(); else MC_CHECKF(x.v == -1, "a value was transferred by a pop that returned status %d", (int)r);
        mc::op_end(id, (long)r, v); if (out) *out = (int)v; return r;
    }
    void close() { int id = mc::op_begin(CLOSE); c.close(); mc::op_end(id, 0); }
    bool is_closed() { int id = mc::op_begin(ISCLOSED); bool r = c.is_closed(); mc::op_end(id, r); return r; }
};

// sequential specification of buffered_channel; state: count, closed, values...; ctx = capacity
inline bool buffered_spec(long* s, mc::Op const& o, void* ctx) {
    long room = *(long*)ctx - 1; st r = (st)o.res;
    switch (o.kind) {
    case PUSH: case TRY_PUSH: case TPUSH:
        if (r == st::timeout) return o.kind == TPUSH;
        if (r == st::closed) return s[1];
        if (s[1]) return false;
        if (r == st::full) return o.kind == TRY_PUSH && s[0] == room;
        if (r != st::success || s[0] == room) return false;
        s[2 + s[0]++] = o.arg; return true;
    case POP: case TRY_POP: case TPOP: case VALUE_POP:
        if (r == st::timeout) return o.kind == TPOP;
        if (r == st::closed) return s[1] && !s[0];
        if (r == st::empty) return o.kind == TRY_POP && !s[0] && !s[1];
        if (r != st::success || !s[0] || s[2] != o.val) return false;
        for (int i = 1; i < s[0]; ++i) s[1 + i] = s[2 + i];
        s[1 + s[0]] = 0; s[0]--; return true;
    case CLOSE: s[1] = 1; return true;
    case ISCLOSED: return (s[1] != 0) == (o.res != 0);
    }
    return false;
}
inline std::string history() {
    std::string h; char b[96];
    for (int i = 0; i < mc::op_count(); ++i) { auto o = mc::op_get(i); snprintf(b, sizeof b, "%s[t%d %s", i ? "; " : "", o.tid, opname(o.kind)); h += b;
        if (o.kind == PUSH || o.kind == TRY_PUSH || o.kind == TPUSH) { snprintf(b, sizeof b, "(%ld)", o.arg); h += b; }
        snprintf(b, sizeof b, "=%ld", o.res); h += b; if (o.val >= 0 && o.kind != CLOSE && o.kind != ISCLOSED && !(o.kind == PUSH || o.kind == TPUSH || o.kind == TRY_PUSH)) { snprintf(b, sizeof b, ":%ld", o.val); h += b; }
        snprintf(b, sizeof b, " %d-%d]", o.inv, o.resp); h += b; }
    return h;
}
inline void check_buffered(long cap) {
    long init[16] = {}; 
    if (!mc::linearizable(init, 16, buffered_spec, &cap)) mc::fail("history is not that of a bounded FIFO queue of %ld: %s", cap - 1, history().c_str());
    for (int i = 0; i < mc::op_count(); ++i) mc::outcome("%ld%ld", mc::op_get(i).res, mc::op_get(i).val);
}
// rendezvous: successful pushes and pops pair up, overlap, and happen before the close that the closed results report
inline void check_rendezvous() {
    int n = mc::op_count(); long lastpair = -1; 
    auto ispush = [](mc::Op const& o) { return o.kind == PUSH || o.kind == TPUSH; };
    auto ispop = [](mc::Op const& o) { return o.kind == POP || o.kind == TPOP || o.kind == VALUE_POP; };
    for (int i = 0; i < n; ++i) {
        auto a = mc::op_get(i);
        if (ispush(a)) {
            int got = 0;
            for (int j = 0; j < n; ++j) { auto b = mc::op_get(j);
                if (!ispop(b) || (st)b.res != st::success || b.val != a.arg) continue;
                got++;
                if (a.resp < b.inv || b.resp < a.inv) mc::fail("value %ld was handed over outside its push: %s", a.arg, history().c_str());
                lastpair = std::max(lastpair, (long)std::max(a.inv, b.inv)); }
            if (got > 1) mc::fail("value %ld was received %d times: %s", a.arg, got, history().c_str());
            if (((st)a.res == st::success) != (got == 1)) mc::fail("push of %ld returned status %ld but was received %d times: %s", a.arg, a.res, got, history().c_str());
        } else if (ispop(a) && (st)a.res == st::success) {
            int src = 0; for (int j = 0; j < n; ++j) { auto b = mc::op_get(j); if (ispush(b) && b.arg == a.val) src++; }
            if (src != 1) mc::fail("received a value (%ld) nobody pushed: %s", a.val, history().c_str());
        }
    }
    long firstclose = 1 << 30; for (int i = 0; i < n; ++i) { auto a = mc::op_get(i); if (a.kind == CLOSE) firstclose = std::min<long>(firstclose, a.inv); }
    for (int i = 0; i < n; ++i) { auto a = mc::op_get(i);
        bool closed = a.kind == CLOSE || (a.kind == ISCLOSED && a.res) || ((ispush(a) || ispop(a)) && (st)a.res == st::closed);
        if (!closed) continue;
        if (a.resp < firstclose) mc::fail("closed reported before close() was called: %s", history().c_str());
        if (lastpair > a.resp) mc::fail("a rendezvous succeeded after the channel was seen closed: %s", history().c_str()); }
    for (int i = 0; i < n; ++i) mc::outcome("%ld%ld", mc::op_get(i).res, mc::op_get(i).val);
}
#endif
