// One function per log macro and level; no logic of its own.
#include "xtr/logger.hpp"
#include "src/log_level.cpp"
#include "src/throw.cpp"
#include <cstdlib>
extern "C" int vp_arg(int);
extern "C" long vp_ts();
using xtr::sink;
#define ONE(F, ...) extern "C" void vp_##F(sink& s) { __VA_ARGS__; }
ONE(LOG, XTR_LOG(s, "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(TRY_LOG, XTR_TRY_LOG(s, "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(LOG_TS, XTR_LOG_TS(s, vp_ts(), "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(TRY_LOG_TS, XTR_TRY_LOG_TS(s, vp_ts(), "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(LOG_RTC, XTR_LOG_RTC(s, "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(TRY_LOG_RTC, XTR_TRY_LOG_RTC(s, "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(LOG_TSC, XTR_LOG_TSC(s, "vp {} {}", vp_arg(1), vp_arg(2)))
ONE(TRY_LOG_TSC, XTR_TRY_LOG_TSC(s, "vp {} {}", vp_arg(1), vp_arg(2)))
#define LEVELS(X) X(fatal) X(error) X(warning) X(info) X(debug)
#define PER(P, L) \
ONE(P##LOGL__##L, XTR_LOGL(L, s, "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##TRY_LOGL__##L, XTR_TRY_LOGL(L, s, "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##LOGL_TS__##L, XTR_LOGL_TS(L, s, vp_ts(), "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##TRY_LOGL_TS__##L, XTR_TRY_LOGL_TS(L, s, vp_ts(), "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##LOGL_RTC__##L, XTR_LOGL_RTC(L, s, "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##TRY_LOGL_RTC__##L, XTR_TRY_LOGL_RTC(L, s, "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##LOGL_TSC__##L, XTR_LOGL_TSC(L, s, "vp {} {}", vp_arg(1), vp_arg(2))) \
ONE(P##TRY_LOGL_TSC__##L, XTR_TRY_LOGL_TSC(L, s, "vp {} {}", vp_arg(1), vp_arg(2)))
#define N(L) PER(,L)
LEVELS(N)
#undef XTR_NDEBUG
#define XTR_NDEBUG 1
#define D(L) PER(nd_,L)
LEVELS(D)
extern "C" {
int vp_from_string(std::string_view s) { return int(xtr::log_level_from_string(s)); }
const char* vp_default(xtr::log_level_t l) { return xtr::default_log_level_style(l); }
const char* vp_systemd(xtr::log_level_t l) { return xtr::systemd_log_level_style(l); }
int vp_level(const sink& s) { return int(s.level()); }
void vp_set_level(sink& s, xtr::log_level_t l) { s.set_level(l); }
}
extern const std::size_t VP_sink_size = sizeof(sink), VP_level = offsetof(sink, level_);
extern const std::size_t VP_none = std::size_t(xtr::log_level_t::none), VP_fatal = std::size_t(xtr::log_level_t::fatal), VP_error = std::size_t(xtr::log_level_t::error), VP_warning = std::size_t(xtr::log_level_t::warning), VP_info = std::size_t(xtr::log_level_t::info), VP_debug = std::size_t(xtr::log_level_t::debug);
