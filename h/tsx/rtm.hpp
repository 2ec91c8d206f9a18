// stands in for boost/fiber/detail/rtm.hpp: the instructions are simulated by the model checker (mc/rt.cpp)
#ifndef BOOST_FIBER_DETAIL_RTM_H
#define BOOST_FIBER_DETAIL_RTM_H
#include <cstdint>
extern "C" {
std::uint32_t mc_rtm_begin() noexcept __attribute__((returns_twice));
void mc_rtm_end();
void mc_rtm_abort();
}
namespace boost { namespace fibers { namespace detail {
struct rtm_status {
    enum { none = 0, explicit_abort = 1 << 0, may_retry = 1 << 1, memory_conflict = 1 << 2, buffer_overflow = 1 << 3, debug_hit = 1 << 4, nested_abort = 1 << 5 };
    static constexpr std::uint32_t success = ~std::uint32_t{ 0 };
};
#ifdef MC_RTM_NEVER
inline std::uint32_t rtm_begin() noexcept { return 0; }        // every transaction aborts without a hint to retry
#else
#define rtm_begin mc_rtm_begin
#endif
inline void rtm_end() noexcept { mc_rtm_end(); }
inline void rtm_abort_lock_not_free() noexcept { mc_rtm_abort(); }
}}}
#endif
