// C16 promise/future deliver one result, once, to the waiter
#include "fut.h"
#define FORALL_KIT(prop, name, what, tmpl, ...) \
    MC_SCENARIO(prop, name##_value, what " (value)", __VA_ARGS__) { tmpl<KVal>(); } \
    MC_SCENARIO(prop, name##_moveonly, what " (move-only)", __VA_ARGS__) { tmpl<KPtr>(); } \
    MC_SCENARIO(prop, name##_ref, what " (reference)", __VA_ARGS__) { tmpl<KRef>(); } \
    MC_SCENARIO(prop, name##_void, what " (void)", __VA_ARGS__) { tmpl<KVoid>(); }

template<typename K> void programs() {
    FBal bal; FutModel<K> m; int n = mc::thorough() ? 5 : 4;
    for (int k = 0; k < n; ++k) { int c = mc::choose(k ? 20 : 10); m.step(c % 10, k ? c / 10 : 0); }   // first step on promise 0 (symmetry)
}
FORALL_KIT(C16, programs, "every sequence of promise and future operations against the reference model", programs, o.quick = 0; o.thorough = 0)

// a fiber that waits before/after the result is stored by another fiber
template<typename K> void fibers() {
    FBal bal; bf::promise<typename K::R> p; bf::future<typename K::R> f = p.get_future(); bool exc = mc::choose(2); int how = mc::choose(4); bool set = false;
    bf::fiber w([&] { for (int i = mc::choose(3); i; --i) tf::yield();
        if (how == 1) { f.wait(); MC_CHECK(set); } else if (how == 2) { MC_CHECK(f.wait_for(ms(50)) == bf::future_status::ready); MC_CHECK(set); } else if (how == 3) { MC_CHECK(eptr(f.get_exception_ptr()) == (exc ? BOOM - 5 : OK)); MC_CHECK(set); }
        int r = res([&] { return K::get(f); }); MC_CHECK(set); MC_CHECKF(r == (exc ? BOOM - 5 : std::is_void<typename K::R>::value ? OK : 6), "got %d", r); });
    bf::fiber s([&, q = std::move(p)]() mutable { for (int i = mc::choose(3); i; --i) tf::yield(); set = true; if (exc) q.set_exception(std::make_exception_ptr(Boom{ 5 })); else K::set(q, 6); });
    w.join(); s.join();
}
FORALL_KIT(C16, fibers, "waiter and setter are fibers of one thread, in every order", fibers, o.quick = 0; o.thorough = 0)

// waiter and setter on different threads; the effects of the setter are visible; the promise dies right after setting
template<typename K> void threads() {
    FBal bal; bf::promise<typename K::R> p; int data = 0; bool exc = mc::choose(2); int how = mc::choose(4);
    bf::future<typename K::R> f = p.get_future();
    std::thread t([&, q = std::move(p)]() mutable { data = 42; if (exc) q.set_exception(std::make_exception_ptr(Boom{ 5 })); else K::set(q, 6); });
    if (how == 1) { f.wait(); MC_CHECK(data == 42); } else if (how == 2) { if (f.wait_for(ms(3000)) == bf::future_status::ready) MC_CHECK(data == 42); else MC_CHECK(mc::now_ns() >= 3000000000); } else if (how == 3) { MC_CHECK(eptr(f.get_exception_ptr()) == (exc ? BOOM - 5 : OK)); MC_CHECK(data == 42); }
    int r = res([&] { return K::get(f); });
    MC_CHECK(data == 42); MC_CHECKF(r == (exc ? BOOM - 5 : std::is_void<typename K::R>::value ? OK : 6), "got %d", r); MC_CHECK(!f.valid());
    t.join();
}
FORALL_KIT(C16, threads, "waiter and setter on two threads, promise destroyed after setting", threads, o.quick = 4; o.thorough = 7; o.spurious = true)

// the future is destroyed, or never waited for, while the setter runs
template<typename K> void drop() {
    FBal bal; bf::promise<typename K::R> p; bool exc = mc::choose(2);
    auto f = std::make_unique<bf::future<typename K::R>>(p.get_future());
    std::thread t([&, q = std::move(p)]() mutable { if (exc) q.set_exception(std::make_exception_ptr(Boom{ 5 })); else K::set(q, 6); MC_CHECK(res([&] { K::set(q, 7); return OK; }) == SATISFIED); });
    if (mc::choose(2)) (void)f->wait_for(ns(0));
    f.reset();
    t.join();
}
FORALL_KIT(C16, drop, "the future is destroyed at any point of the setter's call", drop, o.quick = 4; o.thorough = 7)

// two setters race: exactly one succeeds and its result arrives
template<typename K> void race() {
    FBal bal; bf::promise<typename K::R> p; auto f = p.get_future(); int a = 0, b = 0;
    std::thread t([&] { a = res([&] { K::set(p, 1); return OK; }); });
    std::thread u([&] { b = res([&] { p.set_exception(std::make_exception_ptr(Boom{ 2 })); return OK; }); });
    int r = res([&] { return K::get(f); });
    t.join(); u.join();
    MC_CHECK((a == OK && b == SATISFIED) || (a == SATISFIED && b == OK));
    MC_CHECK(r == (a == OK ? (std::is_void<typename K::R>::value ? OK : 1) : BOOM - 2));
    mc::outcome("%d", r);
}
FORALL_KIT(C16, race, "two threads set the same promise", race, o.quick = 2; o.thorough = 4)

// several waiters on copies of one shared_future: all of them return
template<typename K> void waiters() {
    FBal bal; using R = typename K::R; bf::promise<R> p; bf::shared_future<R> s = p.get_future().share(); bool exc = mc::choose(2), set = false; int done = 0, how = mc::choose(3), when = mc::choose(4);
    auto w = [&](bf::shared_future<R> c) { if (how == 1) c.wait(); else if (how == 2) MC_CHECK(c.wait_for(ms(50)) == bf::future_status::ready); int r = res([&] { return K::sget(c); }); MC_CHECK(set); MC_CHECKF(r == (exc ? BOOM - 5 : std::is_void<R>::value ? OK : 6), "got %d", r); ++done; };
    bf::fiber a([&, s] { w(s); }), b([&, s] { w(s); }), c([&, s] { w(s); });
    for (int i = 0; i < when; ++i) tf::yield();
    set = true; if (exc) p.set_exception(std::make_exception_ptr(Boom{ 5 })); else K::set(p, 6);
    a.join(); b.join(); c.join(); MC_CHECK(done == 3);
}
FORALL_KIT(C16, waiters, "three fibers wait on copies of one shared_future", waiters, o.quick = 0; o.thorough = 0)

// promise with allocator
template<typename T> struct Al { using value_type = T; int* n; Al(int* k) : n(k) {} template<typename U> Al(Al<U> const& o) : n(o.n) {} T* allocate(size_t k) { ++*n; return (T*)::operator new(k * sizeof(T)); } void deallocate(T* p, size_t) { --*n; ::operator delete(p); }
    template<typename U> bool operator==(Al<U> const&) const { return true; } template<typename U> bool operator!=(Al<U> const&) const { return false; } };
template<typename K> void alloc() {
    FBal bal; int n = 0;
    { bf::promise<typename K::R> p(std::allocator_arg, Al<char>(&n)); MC_CHECK(n == 1); bool early = mc::choose(2); { auto f = p.get_future(); if (early) { K::set(p, 6); MC_CHECK(res([&] { return K::get(f); }) == (std::is_void<typename K::R>::value ? OK : 6)); } } MC_CHECK(n == 1); if (mc::choose(2)) { bf::promise<typename K::R> q(std::move(p)); } }
    MC_CHECK(n == 0);
}
FORALL_KIT(C16, alloc, "promise with an allocator releases its state", alloc, o.quick = 0; o.thorough = 0)

// an error is recognised by its type or by its code, also after it travelled through an exception_ptr
MC_SCENARIO(C16, codes, "the code of every error", o.quick = 0; o.thorough = 0) {
    int k = mc::choose(8), t = mc::choose(4); bool travel = mc::choose(2); using bf::future_errc;
    auto go = [&](auto tag) { using R = std::remove_pointer_t<decltype(tag)>; bf::promise<R> p; auto setx = [](bf::promise<R>& q) { q.set_exception(std::make_exception_ptr(Boom{ 1 })); };
        switch (k) { case 0: { auto f = p.get_future(); p = bf::promise<R>(); f.get(); break; } case 1: { auto f = p.get_future(); p.get_future(); break; } case 2: setx(p); setx(p); break; case 3: { bf::promise<R> q(std::move(p)); setx(p); break; } case 4: { bf::promise<R> q(std::move(p)); p.get_future(); break; } case 5: bf::future<R>().get(); break; case 6: bf::shared_future<R>().wait(); break; case 7: { bf::packaged_task<R()> z; z.get_future(); break; } } };
    auto all = [&] { if (t == 0) go((int*)nullptr); else if (t == 1) go((void*)nullptr); else if (t == 2) go((std::unique_ptr<int>*)nullptr); else go((long*)nullptr); };
    future_errc want = k == 0 ? future_errc::broken_promise : k == 1 ? future_errc::future_already_retrieved : k == 2 ? future_errc::promise_already_satisfied : future_errc::no_state;
    auto look = [&](bf::future_error const& e) { std::error_code c = e.code(); MC_CHECKF(c.category() == bf::future_category() && c.value() == (int)want && c == std::make_error_code(want), "case %d: code %d", k, c.value());
        for (auto w : { future_errc::broken_promise, future_errc::future_already_retrieved, future_errc::promise_already_satisfied, future_errc::no_state }) { std::error_condition d = std::make_error_condition(w); MC_CHECKF((c == d) == (w == want), "case %d: the code is %sequivalent to condition %d", k, c == d ? "" : "not ", (int)w); MC_CHECK((c.default_error_condition() == d) == (w == want)); MC_CHECK((c.message() == std::make_error_code(w).message()) == (w == want)); }
        MC_CHECK(c != std::error_code((int)want, std::generic_category()) && c != std::error_condition((int)want, std::generic_category())); MC_CHECK(*e.what() && *c.category().name() && std::string(c.category().name()) != std::generic_category().name()); MC_CHECK(!c.message().empty() && std::string(e.what()).find(c.message()) != std::string::npos); };
    bool seen = false;
    try { if (travel) { std::exception_ptr x; bf::fiber([&] { try { all(); } catch (...) { x = std::current_exception(); } }).join(); MC_CHECK(x != nullptr); std::rethrow_exception(x); } else all(); }
    catch (bf::future_error const& e) { seen = true; look(e); bf::fiber_error const& b = e; std::system_error const& s = b; MC_CHECK(s.code() == e.code()); }
    MC_CHECKF(seen, "case %d: no error", k);
}
