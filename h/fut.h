// Futures: value kits and an executable reference model of promise / future / shared_future.
#ifndef H_FUT_H
#define H_FUT_H
#include "common.h"

// value with lifetime tracking (objs counts live objects outside the instrumented program)
struct FV { int v; uint32_t magic{ 0xA11FE123u };   // a moved-from object (v == -2) no longer counts
    explicit FV(int x = -1) : v(x) { mc::reg(200)++; } FV(FV const& o) : v(o.get()) { if (v != -2) mc::reg(200)++; } FV(FV&& o) noexcept : v(o.get()) { o.v = -2; }
    FV& operator=(FV const& o) { int x = o.get(); drop(); v = x; if (v != -2) mc::reg(200)++; return *this; } FV& operator=(FV&& o) noexcept { if (this != &o) { drop(); v = o.get(); o.v = -2; } return *this; }
    ~FV() { drop(); magic = 0xDEADDEADu; }
    void drop() { get(); if (v != -2) mc::reg(200)--; }
    int get() const { MC_CHECKF(magic == 0xA11FE123u, "use of a value that is not alive"); return v; } };
struct FBal { ~FBal() { MC_CHECKF(mc::reg(200) == 0, "%d result objects were not destroyed", (int)mc::reg(200)); } };
struct Boom { int v; };

struct KVal { using R = FV; static void set(bf::promise<R>& p, int v) { if (v & 1) { FV x(v); p.set_value(x); MC_CHECK(x.get() == v); } else p.set_value(FV(v)); }
    static int get(bf::future<R>& f) { FV x = f.get(); return x.get(); } static int sget(bf::shared_future<R> const& f) { return f.get().get(); } };
struct KPtr { using R = std::unique_ptr<int>; static void set(bf::promise<R>& p, int v) { p.set_value(R(new int(v))); }
    static int get(bf::future<R>& f) { R x = f.get(); MC_CHECK(x); return *x; } static int sget(bf::shared_future<R> const& f) { MC_CHECK(f.get()); return *f.get(); } };
struct KRef { using R = int&; static int& cell(int v) { static int c[64]; return c[v]; }
    static void set(bf::promise<R>& p, int v) { p.set_value(cell(v)); }
    static int get(bf::future<R>& f) { int& x = f.get(); return (int)(&x - &cell(0)); } static int sget(bf::shared_future<R> const& f) { int& x = f.get(); return (int)(&x - &cell(0)); } };
struct KVoid { using R = void; static void set(bf::promise<R>& p, int) { p.set_value(); } static int get(bf::future<R>& f) { f.get(); return -1; } static int sget(bf::shared_future<R> const& f) { f.get(); return -1; } };

// what a call did: >= 0 value, -1 void/ok, -100-x exception Boom{x}, others: future errors
enum { OK = -1, SATISFIED = -10, RETRIEVED = -11, P_UNINIT = -12, F_UNINIT = -13, BROKEN = -14, T_UNINIT = -15, OTHER = -20, BOOM = -100 };
inline int classify() {
    try { throw; }
    catch (bf::promise_already_satisfied const&) { return SATISFIED; } catch (bf::future_already_retrieved const&) { return RETRIEVED; }
    catch (bf::promise_uninitialized const&) { return P_UNINIT; } catch (bf::future_uninitialized const&) { return F_UNINIT; }
    catch (bf::broken_promise const&) { return BROKEN; } catch (bf::packaged_task_uninitialized const&) { return T_UNINIT; }
    catch (Boom const& b) { return BOOM - b.v; } catch (...) { return OTHER; }
}
template<typename F> int res(F&& f) { try { return f(); } catch (...) { return classify(); } }
inline int eptr(std::exception_ptr e) { if (!e) return OK; try { std::rethrow_exception(e); } catch (...) { return classify(); } }

struct MState { bool ready{ false }; int r{ 0 }; };
template<typename K> struct FutModel {
    using R = typename K::R; static constexpr bool isvoid = std::is_void<R>::value;
    struct MP { int s{ -1 }; bool obt{ false }; };
    std::vector<MState> S; 
    bf::promise<R> p[2]; MP mp[2]; bf::future<R> f[2]; int mf[2]{ -1, -1 }; bf::shared_future<R> sf[2]; int msf[2]{ -1, -1 }; int val{ 1 };
    FutModel() { for (int i = 0; i < 2; ++i) { mp[i].s = fresh(); } }
    int fresh() { S.push_back(MState{}); return (int)S.size() - 1; }
    void abandon(MP& m) { if (m.s >= 0 && m.obt && !S[m.s].ready) { S[m.s].ready = true; S[m.s].r = BROKEN; } m = MP{}; }
    void expect(char const* op, int got, int want) { MC_CHECKF(got == want, "%s: got %d, expected %d", op, got, want); }
    void check() { for (int i = 0; i < 2; ++i) { MC_CHECK(f[i].valid() == (mf[i] >= 0)); MC_CHECK(sf[i].valid() == (msf[i] >= 0));
        if (mf[i] >= 0) { bool r = f[i].wait_for(ms0()) == bf::future_status::ready; MC_CHECKF(r == S[mf[i]].ready, "future is %sready", r ? "" : "not "); }
        if (msf[i] >= 0) { bool r = sf[i].wait_for(ms0()) == bf::future_status::ready; MC_CHECKF(r == S[msf[i]].ready, "shared_future is %sready", r ? "" : "not "); } } }
    static ns ms0() { return ns(0); }
    void step(int op, int i) {
        int j = 1 - i; MP& m = mp[i];
        switch (op) {
        case 0: { int want = m.obt ? RETRIEVED : m.s < 0 ? P_UNINIT : OK; int got = res([&] { f[j] = p[i].get_future(); return OK; }); expect("get_future", got, want); if (want == OK) { m.obt = true; mf[j] = m.s; } break; }
        case 1: { int v = val++; int want = m.s < 0 ? P_UNINIT : S[m.s].ready ? SATISFIED : OK; int got = res([&] { K::set(p[i], v); return OK; }); expect("set_value", got, want); if (want == OK) S[m.s] = { true, isvoid ? OK : v }; break; }
        case 2: { int v = val++; int want = m.s < 0 ? P_UNINIT : S[m.s].ready ? SATISFIED : OK; int got = res([&] { p[i].set_exception(std::make_exception_ptr(Boom{ v })); return OK; }); expect("set_exception", got, want); if (want == OK) S[m.s] = { true, BOOM - v }; break; }
        case 3: { p[i] = std::move(p[j]); MP t = mp[j]; mp[j] = MP{}; abandon(m); m = t; break; }
        case 4: { if (i) p[i].swap(p[j]); else { using bf::swap; swap(p[i], p[j]); } std::swap(mp[i], mp[j]); break; }
        case 5: { p[i] = bf::promise<R>(); abandon(m); m.s = fresh(); break; }
        case 6: { if (mf[i] >= 0 && !S[mf[i]].ready) mc::discard(); int want = mf[i] < 0 ? F_UNINIT : S[mf[i]].r; expect("get", res([&] { return K::get(f[i]); }), want); mf[i] = -1; break; }
        case 7: { f[i] = std::move(f[j]); mf[i] = mf[j]; mf[j] = -1; break; }
        case 8: { if (mf[i] >= 0 && !S[mf[i]].ready) mc::discard(); int want = mf[i] < 0 ? F_UNINIT : S[mf[i]].r <= BROKEN ? S[mf[i]].r : OK; expect("get_exception_ptr", res([&] { return eptr(f[i].get_exception_ptr()); }), want); if (want == F_UNINIT) { expect("wait", res([&] { f[i].wait(); return OK; }), F_UNINIT); expect("wait_for", res([&] { (void)f[i].wait_for(ms(1)); return OK; }), F_UNINIT); expect("wait_until", res([&] { (void)f[i].wait_until(in_ms(1)); return OK; }), F_UNINIT); } else { f[i].wait(); } break; }
        case 9: { bf::promise<R> t(std::move(p[i])); p[i] = std::move(t); break; }
        // shared futures
        case 10: { int want = mf[i] < 0 ? F_UNINIT : OK; expect("share", res([&] { sf[i] = f[i].share(); return OK; }), want); if (want == OK) { msf[i] = mf[i]; mf[i] = -1; } break; }
        case 11: { sf[i] = sf[j]; msf[i] = msf[j]; break; }
        case 12: { sf[i] = std::move(sf[j]); msf[i] = msf[j]; msf[j] = -1; break; }
        case 13: { sf[i] = std::move(f[i]); msf[i] = mf[i]; mf[i] = -1; break; }
        case 14: { if (msf[i] >= 0 && !S[msf[i]].ready) mc::discard(); int want = msf[i] < 0 ? F_UNINIT : S[msf[i]].r; for (int k = 0; k < 2; ++k) expect("shared get", res([&] { return K::sget(sf[i]); }), want);
            int we = msf[i] < 0 ? F_UNINIT : S[msf[i]].r <= BROKEN ? S[msf[i]].r : OK; expect("shared get_exception_ptr", res([&] { return eptr(sf[i].get_exception_ptr()); }), we); expect("shared wait", res([&] { sf[i].wait(); return OK; }), msf[i] < 0 ? F_UNINIT : OK); break; }
        case 15: { bf::shared_future<R> c(sf[i]), d(std::move(c)); MC_CHECK(!c.valid() && d.valid() == (msf[i] >= 0)); sf[j] = d; msf[j] = msf[i]; break; }
        }
        check();
    }
};
#endif
