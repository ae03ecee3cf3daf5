// The real command dispatcher sources; no logic of its own.
#include "src/command_dispatcher.cpp"
#include "src/file_descriptor.cpp"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/matcher.hpp"
#include <cstddef>
#include <cerrno>
#include <poll.h>
#include <new>
using namespace xtr; using namespace xtr::detail;
using CD = command_dispatcher; using CR = CD::callback_result;
extern const std::size_t VP_cd_size = sizeof(CD), VP_cd_callbacks = offsetof(CD, callbacks_), VP_cd_pollfds = offsetof(CD, pollfds_), VP_cd_results = offsetof(CD, results_), VP_cd_path = offsetof(CD, path_),
  VP_pf_size = sizeof(CD::pollfd), VP_pf_fd = offsetof(CD::pollfd, fd), VP_pf_events = offsetof(CD::pollfd, events), VP_pf_revents = offsetof(CD::pollfd, revents),
  VP_cr_size = sizeof(CR), VP_cr_bufs = offsetof(CR, bufs), VP_cr_pos = offsetof(CR, pos), VP_bu_size = sizeof(CD::buffer), VP_bu_buf = offsetof(CD::buffer, buf), VP_bu_n = offsetof(CD::buffer, size),
  VP_cb_size = sizeof(CD::callback), VP_cb_func = offsetof(CD::callback, func), VP_cb_n = offsetof(CD::callback, size), VP_kv_size = sizeof(std::pair<const frame_id_t, CD::callback>), VP_kv_cb = offsetof(__typeof__(std::pair<const frame_id_t, CD::callback>), second),
  VP_pollin = POLLIN, VP_pollout = POLLOUT, VP_pollhup = POLLHUP, VP_eintr = EINTR, VP_eagain = EAGAIN, VP_frame_max = max_frame_size, VP_hdr_size = sizeof(frame_header), VP_sun_path = offsetof(sockaddr_un, sun_path), VP_sun_size = sizeof(sockaddr_un),
  VP_mh_iov = offsetof(msghdr, msg_iov), VP_mh_iovlen = offsetof(msghdr, msg_iovlen), VP_mh_size = sizeof(msghdr), VP_ef_size = sizeof(frame<error>), VP_ef_reason = offsetof(frame<error>, payload) + offsetof(error, reason), VP_ef_len = sizeof(error::reason), VP_id_error = std::size_t(error::frame_id),
  VP_fs_status = sizeof(frame<status>), VP_fs_level = sizeof(frame<set_level>), VP_fs_reopen = sizeof(frame<reopen>), VP_id_status = std::size_t(status::frame_id), VP_id_level = std::size_t(set_level::frame_id), VP_id_reopen = std::size_t(reopen::frame_id);
// entry points: one call each
extern "C" {
void vp_cd_ctor(void* p, std::string& path) { new (p) CD(std::move(path)); }
void vp_cd_dtor(CD& c) { c.~CD(); }
void vp_cd_commands(CD& c, int t) { c.process_commands(t); }
void vp_cd_read(CD& c, CD::pollfd& p) { c.process_socket_read(p); }
void vp_cd_write(CD& c, CD::pollfd& p) { c.process_socket_write(p); }
void vp_cd_send(CD& c, int fd, const void* b, std::size_t n) { c.send(fd, b, n); }
void vp_cd_error(CD& c, int fd, const char* b, std::size_t n) { c.send_error(fd, std::string_view(b, n)); }
bool vp_cd_open(CD& c) { return c.is_open(); }
}
