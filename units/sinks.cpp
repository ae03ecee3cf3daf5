// The real sink and logger sources; no logic of its own.
#include "src/sink.cpp"
#include "src/logger.cpp"
#include <cstddef>
#include <new>
using namespace xtr; using namespace xtr::detail;
extern "C" { std::span<char> vp_st_alloc(void*); void vp_st_submit(void*, char*, std::size_t); void vp_st_flush(void*); void vp_st_sync(void*) noexcept; int vp_st_reopen(void*) noexcept; void vp_st_dtor(void*); }
struct vp_probe final : storage_interface {
  std::span<char> allocate_buffer() override { return vp_st_alloc(this); }
  void submit_buffer(char* b, std::size_t n) override { vp_st_submit(this, b, n); }
  void flush() override { vp_st_flush(this); }
  void sync() noexcept override { vp_st_sync(this); }
  int reopen() noexcept override { return vp_st_reopen(this); }
  ~vp_probe() override { vp_st_dtor(this); }
};
vp_probe* vp_mk_probe() { return new vp_probe; }
using CO = consumer;
extern const std::size_t VP_co_size = sizeof(CO), VP_co_buf = offsetof(CO, buf), VP_co_destroy = offsetof(CO, destroy), VP_bf_lstyle = offsetof(detail::buffer, lstyle), VP_bf_storage = offsetof(detail::buffer, storage_),
  VP_sk_size = sizeof(sink), VP_sk_align = alignof(sink), VP_sk_buf = offsetof(sink, buf_), VP_sk_level = offsetof(sink, level_), VP_sk_open = offsetof(sink, open_), VP_cap = XTR_SINK_CAPACITY,
  VP_lg_size = sizeof(logger), VP_lg_align = alignof(logger), VP_lg_control = offsetof(logger, control_), VP_lg_mutex = offsetof(logger, control_mutex_), VP_lg_level = offsetof(logger, default_log_level_);
extern "C" {
void vp_sk_ctor0(void* m, log_level_t l) { new (m) sink(l); }
void vp_sk_ctor(void* m, logger& l, std::string& n, log_level_t v) { new (m) sink(l, std::move(n), v); }
void vp_sk_copy(void* m, const sink& o) { new (m) sink(o); }
void vp_sk_assign(sink& s, const sink& o) { s = o; }
void vp_sk_close(sink& s) { s.close(); }
void vp_sk_sync(sink& s) { s.sync(); }
void vp_sk_dtor(sink& s) { s.~sink(); }
void vp_sk_name(sink& s, std::string& n) { s.set_name(std::move(n)); }
bool vp_sk_open(const sink& s) { return s.is_open(); }
void vp_lg_register(logger& l, sink& s, std::string& n) { l.register_sink(s, std::move(n)); }
void vp_lg_get(void* m, logger& l, std::string& n) { new (m) sink(l.get_sink(std::move(n))); }
void vp_lg_path(logger& l, std::string& n) { l.set_command_path(std::move(n)); }
void vp_lg_style(logger& l, log_level_style_t s) { l.set_log_level_style(s); }
void vp_lg_default(logger& l, log_level_t v) { l.set_default_log_level(v); }
}
