// The command line client; main is renamed so that it can be named as an entry point.
#include <cstddef>
#define main xtrctl_main
#include "src/file_descriptor.cpp"
#include "src/xtrctl.cpp"
#undef main
extern "C" int vp_xtrctl(int argc, char** argv) { return xtrctl_main(argc, argv); }
using namespace xtr; using namespace xtr::detail;
template<class P> using fr = frame<P>;
extern const std::size_t VP_x_status = sizeof(fr<status>), VP_x_level = sizeof(fr<set_level>), VP_x_reopen = sizeof(fr<reopen>), VP_x_info = sizeof(fr<sink_info>), VP_x_error = sizeof(fr<error>), VP_x_hdr = sizeof(frame_header), VP_x_max = sizeof(frame_buf),
  VP_x_id_status = std::size_t(status::frame_id), VP_x_id_level = std::size_t(set_level::frame_id), VP_x_id_reopen = std::size_t(reopen::frame_id), VP_x_id_info = std::size_t(sink_info::frame_id), VP_x_id_success = std::size_t(success::frame_id), VP_x_id_error = std::size_t(error::frame_id),
  VP_x_st_pat = offsetof(fr<status>, payload) + offsetof(status, pattern), VP_x_sl_pat = offsetof(fr<set_level>, payload) + offsetof(set_level, pattern), VP_x_sl_level = offsetof(fr<set_level>, payload) + offsetof(set_level, level), VP_x_in_pay = offsetof(fr<sink_info>, payload), VP_x_insz = sizeof(sink_info), VP_x_er_reason = offsetof(fr<error>, payload) + offsetof(error, reason), VP_x_pt_type = offsetof(pattern, type), VP_x_pt_case = offsetof(pattern, ignore_case), VP_x_pt_text = offsetof(pattern, text), VP_x_pt_len = sizeof(pattern::text),
  VP_x_none = std::size_t(pattern_type_t::none), VP_x_E = std::size_t(pattern_type_t::extended_regex), VP_x_G = std::size_t(pattern_type_t::basic_regex), VP_x_W = std::size_t(pattern_type_t::wildcard),
  VP_x_fatal = std::size_t(log_level_t::fatal), VP_x_error_l = std::size_t(log_level_t::error), VP_x_warning = std::size_t(log_level_t::warning), VP_x_info_l = std::size_t(log_level_t::info), VP_x_debug = std::size_t(log_level_t::debug),
  VP_x_mh_iov = offsetof(msghdr, msg_iov), VP_x_mh_iovlen = offsetof(msghdr, msg_iovlen), VP_x_mh_size = sizeof(msghdr), VP_x_fd = offsetof(file_descriptor, fd_), VP_x_opt = sizeof(option), VP_x_eintr = EINTR,
  VP_x_lsz = sizeof(log_level_t), VP_x_kv = sizeof(std::pair<const std::string, log_level_t>), VP_x_kv2 = offsetof(__typeof__(std::pair<const std::string, log_level_t>), second);
