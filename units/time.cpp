// Entry points to the clock code; no logic of its own.
#include "xtr/logger.hpp"
#include "src/tsc.cpp"
#include <cstddef>
#include <new>
extern "C" long vp_now();
template<typename D> struct vp_clk { using duration = D; using rep = typename D::rep; using period = typename D::period; using time_point = std::chrono::time_point<vp_clk>; static constexpr bool is_steady = false;
  static time_point now() noexcept { return time_point(D(rep(vp_now()))); } };

struct vp_ctx { char* p; char* out() { return p; } };
template<typename D> inline void vp_go(xtr::logger* l, std::timespec* out) { *out = l->make_clock(vp_clk<D>{})(); }
extern "C" {
void vp_clock_ns(xtr::logger* l, std::timespec* out) { vp_go<std::chrono::nanoseconds>(l, out); }
void vp_clock_us(xtr::logger* l, std::timespec* out) { vp_go<std::chrono::microseconds>(l, out); }
void vp_clock_ms(xtr::logger* l, std::timespec* out) { vp_go<std::chrono::milliseconds>(l, out); }
void vp_clock_s(xtr::logger* l, std::timespec* out) { vp_go<std::chrono::seconds>(l, out); }
void vp_clock_100ns(xtr::logger* l, std::timespec* out) { vp_go<std::chrono::duration<long, std::ratio<1, 10000000>>>(l, out); }
unsigned long vp_read_hz() { return xtr::detail::read_tsc_hz(); }
unsigned long vp_estimate_hz() { return xtr::detail::estimate_tsc_hz(); }
unsigned long vp_get_hz() { return xtr::detail::get_tsc_hz(); }
void vp_to_timespec(unsigned long t, std::timespec* out) { *out = xtr::detail::tsc::to_timespec(xtr::detail::tsc{t}); }
unsigned long vp_tsc_now() { return xtr::detail::tsc::now().ticks; }
void vp_get_time(xtr::timespec* out) { *out = xtr::detail::get_time<XTR_CLOCK_REALTIME_FAST>(); }
void vp_fmt_ts(const std::timespec& t) { vp_ctx c{nullptr}; fmt::formatter<xtr::timespec>().format(xtr::timespec(t), c); }
}
extern const std::size_t VP_clk_fast = XTR_CLOCK_REALTIME_FAST, VP_clk_wall = CLOCK_REALTIME, VP_tv_sec = offsetof(std::timespec, tv_sec), VP_tv_nsec = offsetof(std::timespec, tv_nsec);
