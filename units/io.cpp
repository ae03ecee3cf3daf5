// The real file-descriptor sources; no logic of its own.
#include <unistd.h>
#include <fcntl.h>
#include "src/file_descriptor.cpp"
#include "src/fd_storage_base.cpp"
#include "src/posix_fd_storage.cpp"
#include "src/fd_storage.cpp"
#include "src/throw.cpp"
#include <cstddef>
#include <new>
using namespace xtr; using namespace xtr::detail;
using FD = file_descriptor; using PS = posix_fd_storage;
extern const std::size_t VP_fd_size = sizeof(FD), VP_fd_off = offsetof(FD, fd_), VP_ps_size = sizeof(PS),
  VP_ps_fd = offsetof(PS, fd_) + offsetof(FD, fd_), VP_ps_path = offsetof(PS, reopen_path_), VP_ps_buf = offsetof(PS, buf_), VP_ps_cap = offsetof(PS, buffer_capacity_);
// entry points: one call each
extern "C" {
void vp_fd_default(void* m) { new (m) FD(); }
void vp_fd_int(void* m, int fd) { new (m) FD(fd); }
void vp_fd_open(void* m, const char* p, int fl, int mode) { new (m) FD(p, fl, mode); }
void vp_fd_move(void* m, FD& o) { new (m) FD(std::move(o)); }
void vp_fd_assign(FD& a, FD& b) { a = std::move(b); }
void vp_fd_dtor(FD& a) { a.~FD(); }
void vp_fd_reset(FD& a, int fd) { a.reset(fd); }
void vp_fd_reset0(FD& a) { a.reset(); }
int vp_fd_get(const FD& a) { return a.get(); }
bool vp_fd_open_q(const FD& a) { return a.is_open(); }
bool vp_fd_bool(const FD& a) { return bool(a); }
int vp_fd_release(FD& a) { return a.release(); }
void vp_fd_swap(FD& a, FD& b) { swap(a, b); }
void vp_ps_ctor(void* m, int fd, std::string& p, std::size_t cap) { new (m) PS(fd, std::move(p), cap); }
void vp_ps_dtor(PS& p) { p.~PS(); }
void vp_ps_submit(PS& p, char* b, std::size_t n) { p.submit_buffer(b, n); }
void vp_ps_alloc(PS& p, std::span<char>* r) { *r = p.allocate_buffer(); }
void vp_ps_flush(PS& p) { p.flush(); }
void vp_ps_sync(PS& p) { p.sync(); }
int vp_ps_reopen(PS& p) { return p.reopen(); }
void vp_make_path(storage_interface_ptr* r, const char* p) { new (r) storage_interface_ptr(make_fd_storage(p)); }
void vp_make_fd(storage_interface_ptr* r, int fd, std::string& p) { new (r) storage_interface_ptr(make_fd_storage(fd, std::move(p))); }
void vp_make_fp(storage_interface_ptr* r, FILE* fp, std::string& p) { new (r) storage_interface_ptr(make_fd_storage(fp, std::move(p))); }
}
