// Shared pieces of the harnesses.
#ifndef H_COMMON_H
#define H_COMMON_H
#include "mc.h"
#include <boost/fiber/all.hpp>
#include <thread>
#include <atomic>
#include <mutex>
#include <vector>
#include <memory>
#include <string>
#include <functional>
namespace bf = boost::fibers;
namespace tf = boost::this_fiber;
using clk = std::chrono::steady_clock;
using ms = std::chrono::milliseconds;
using ns = std::chrono::nanoseconds;
inline clk::time_point at_ns(int64_t t) { return clk::time_point{ ns{ t } }; }
inline clk::time_point in_ms(int64_t d) { return at_ns(mc::now_ns() + d * 1000000); }
inline int64_t tp_ns(clk::time_point t) { return t.time_since_epoch().count(); }

// run an expression, return the error code of the fiber_error it throws (0 = none)
template<typename F> int err_of(F&& f) {
    try { f(); return 0; }
    catch (bf::fiber_error const& e) { return e.code().value(); }
}
template<typename E> bool is_err(int v, E e) { return v == std::make_error_code(e).value(); }

#define FORALL_MUTEX(prop, name, what, tmpl, ...) \
    MC_SCENARIO(prop, name##_mutex, what " (mutex)", __VA_ARGS__) { tmpl<bf::mutex>(); } \
    MC_SCENARIO(prop, name##_timed, what " (timed_mutex)", __VA_ARGS__) { tmpl<bf::timed_mutex>(); } \
    MC_SCENARIO(prop, name##_rec, what " (recursive_mutex)", __VA_ARGS__) { tmpl<bf::recursive_mutex>(); } \
    MC_SCENARIO(prop, name##_rectimed, what " (recursive_timed_mutex)", __VA_ARGS__) { tmpl<bf::recursive_timed_mutex>(); }
#define FORALL_TIMED(prop, name, what, tmpl, ...) \
    MC_SCENARIO(prop, name##_timed, what " (timed_mutex)", __VA_ARGS__) { tmpl<bf::timed_mutex>(); } \
    MC_SCENARIO(prop, name##_rectimed, what " (recursive_timed_mutex)", __VA_ARGS__) { tmpl<bf::recursive_timed_mutex>(); }
#define FORALL_REC(prop, name, what, tmpl, ...) \
    MC_SCENARIO(prop, name##_rec, what " (recursive_mutex)", __VA_ARGS__) { tmpl<bf::recursive_mutex>(); } \
    MC_SCENARIO(prop, name##_rectimed, what " (recursive_timed_mutex)", __VA_ARGS__) { tmpl<bf::recursive_timed_mutex>(); }

template<typename M> struct is_rec : std::false_type {};
template<> struct is_rec<bf::recursive_mutex> : std::true_type {};
template<> struct is_rec<bf::recursive_timed_mutex> : std::true_type {};
template<typename M> struct is_timed : std::false_type {};
template<> struct is_timed<bf::timed_mutex> : std::true_type {};
template<> struct is_timed<bf::recursive_timed_mutex> : std::true_type {};

// Data guarded by the lock under test: plain accesses, so a missing happens-before edge is a reported race.
struct Guarded {
    int owner{ 0 }; int value{ 0 };
    void enter(int me) { MC_CHECKF(owner == 0, "two owners of one mutex: %d entered while %d is inside", me, owner); owner = me; value++; }
    void leave(int me) { MC_CHECKF(owner == me, "owner changed inside the critical section: %d -> %d", me, owner); owner = 0; }
};
#endif
