// The real buffer and print sources; no logic of its own.
#include "src/buffer.cpp"
#include "xtr/detail/print.hpp"
#include <cstddef>
#include <new>
using namespace xtr; using namespace xtr::detail;
// the storage back-end: every virtual call becomes a call of a function known only by its contract
extern "C" { std::span<char> vp_st_alloc(void*); void vp_st_submit(void*, char*, std::size_t); void vp_st_flush(void*); void vp_st_sync(void*) noexcept; int vp_st_reopen(void*) noexcept; void vp_st_dtor(void*); }
struct vp_probe final : storage_interface {
  std::span<char> allocate_buffer() override { return vp_st_alloc(this); }
  void submit_buffer(char* b, std::size_t n) override { vp_st_submit(this, b, n); }
  void flush() override { vp_st_flush(this); }
  void sync() noexcept override { vp_st_sync(this); }
  int reopen() noexcept override { return vp_st_reopen(this); }
  ~vp_probe() override { vp_st_dtor(this); }
};
vp_probe* vp_mk_probe() { return new vp_probe; }
using B = detail::buffer;
extern const std::size_t VP_bf_size = sizeof(B), VP_bf_line = offsetof(B, line), VP_bf_lstyle = offsetof(B, lstyle), VP_bf_storage = offsetof(B, storage_), VP_bf_pos = offsetof(B, pos_), VP_bf_begin = offsetof(B, begin_), VP_bf_end = offsetof(B, end_);
extern "C" {
void vp_bf_ctor(void* m, storage_interface_ptr& s, log_level_style_t ls) { new (m) B(std::move(s), ls); }
void vp_bf_dtor(B& b) { b.~B(); }
void vp_bf_flush(B& b) { b.flush(); }
void vp_bf_append_line(B& b) { b.append_line(); }
void* vp_bf_storage(B& b) { return &b.storage(); }
void vp_print(B& b, std::string_view fmt, log_level_t l, const char* ts, const std::string& name, const int& a1, const double& a2) { print(b, fmt, l, ts, name, a1, a2); }
void vp_print_ts(B& b, std::string_view fmt, log_level_t l, const std::string& name, const char* ts, const int& a1, const double& a2) { print_ts(b, fmt, l, name, ts, a1, a2); }
}
