// The real background-thread sources; no logic of its own.
#include "src/consumer.cpp"
#include <cstddef>
#include <new>
using namespace xtr; using namespace xtr::detail;
using CO = consumer; using SH = CO::sink_handle; using RB = sink::ring_buffer;
extern const std::size_t VP_co_size = sizeof(CO), VP_co_buf = offsetof(CO, buf), VP_co_destroy = offsetof(CO, destroy), VP_co_sinks = offsetof(CO, sinks_), VP_co_cmds = offsetof(CO, cmds_),
  VP_sh_size = sizeof(SH), VP_sh_p = offsetof(SH, p), VP_sh_name = offsetof(SH, name), VP_sh_dropped = offsetof(SH, dropped_count),
  VP_sk_size = sizeof(sink), VP_sk_buf = offsetof(sink, buf_), VP_sk_level = offsetof(sink, level_), VP_sk_open = offsetof(sink, open_), VP_sk_align = alignof(sink), VP_cap = XTR_SINK_CAPACITY, VP_level_size = sizeof(log_level_t),
  VP_bf_lstyle = offsetof(buffer, lstyle), VP_bf_storage = offsetof(buffer, storage_),
  VP_st_size = sizeof(status), VP_sl_size = sizeof(set_level), VP_sl_level = offsetof(set_level, level), VP_sl_pattern = offsetof(set_level, pattern), VP_st_pattern = offsetof(status, pattern),
  VP_pt_type = offsetof(pattern, type), VP_pt_ic = offsetof(pattern, ignore_case), VP_pt_text = offsetof(pattern, text), VP_pt_textlen = sizeof(pattern::text),
  VP_fr_payload = offsetof(frame<sink_info>, payload), VP_si_size = sizeof(frame<sink_info>), VP_si_level = offsetof(sink_info, level), VP_si_cap = offsetof(sink_info, buf_capacity), VP_si_n = offsetof(sink_info, buf_nbytes), VP_si_dropped = offsetof(sink_info, dropped_count), VP_si_name = offsetof(sink_info, name), VP_si_namelen = sizeof(sink_info::name),
  VP_id_info = std::size_t(sink_info::frame_id), VP_id_success = std::size_t(success::frame_id), VP_id_error = std::size_t(error::frame_id), VP_er_reason = offsetof(error, reason), VP_er_len = sizeof(error::reason),
  VP_lv_none = std::size_t(log_level_t::none), VP_lv_debug = std::size_t(log_level_t::debug), VP_lv_warning = std::size_t(log_level_t::warning);
// the storage back-end and the matcher: every virtual call becomes a call of a function known only by its contract
extern "C" { std::span<char> vp_st_alloc(void*); void vp_st_submit(void*, char*, std::size_t); void vp_st_flush(void*); void vp_st_sync(void*) noexcept; int vp_st_reopen(void*) noexcept; void vp_st_dtor(void*);
  bool vp_mt_call(const void*, const char*); bool vp_mt_valid(const void*); void vp_mt_reason(const void*, char*, std::size_t); void vp_mt_dtor(void*); }
struct vp_probe final : storage_interface {
  std::span<char> allocate_buffer() override { return vp_st_alloc(this); }
  void submit_buffer(char* b, std::size_t n) override { vp_st_submit(this, b, n); }
  void flush() override { vp_st_flush(this); }
  void sync() noexcept override { vp_st_sync(this); }
  int reopen() noexcept override { return vp_st_reopen(this); }
  ~vp_probe() override { vp_st_dtor(this); }
};
struct vp_matcher final : matcher {
  bool operator()(const char* s) const override { return vp_mt_call(this, s); }
  bool valid() const override { return vp_mt_valid(this); }
  void error_reason(char* b, std::size_t n) const override { vp_mt_reason(this, b, n); }
  ~vp_matcher() override { vp_mt_dtor(this); }
};
vp_probe* vp_mk_probe() { return new vp_probe; }
vp_matcher* vp_mk_matcher() { return new vp_matcher; }
// entry points: one call each
extern "C" {
void vp_co_run(CO& c, std::function<std::timespec()>& f) { c.run(std::move(f)); }
void vp_co_add(CO& c, sink& s, const std::string& n) { c.add_sink(s, n); }
void vp_co_status(CO& c, int fd, status& s) { c.status_handler(fd, s); }
void vp_co_level(CO& c, int fd, set_level& s) { c.set_level_handler(fd, s); }
void vp_co_path(CO& c, std::string& p) { c.set_command_path(std::move(p)); }
void vp_co_reopen(CO& c, int fd, reopen& r) { c.reopen_handler(fd, r); }
}
