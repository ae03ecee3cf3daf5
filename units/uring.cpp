// The real io_uring back-end; no logic of its own.
#include <unistd.h>
#include <fcntl.h>
#include "src/file_descriptor.cpp"
#include "src/fd_storage_base.cpp"
#include "src/io_uring_fd_storage.cpp"
#include "src/throw.cpp"
#include <cstddef>
#include <new>
using namespace xtr; using namespace xtr::detail;
using US = io_uring_fd_storage; using UB = US::buffer;
extern const std::size_t VP_us_size = sizeof(US), VP_us_fd = offsetof(US, fd_) + offsetof(file_descriptor, fd_), VP_us_path = offsetof(US, reopen_path_),
  VP_us_ring = offsetof(US, ring_), VP_us_ring_size = sizeof(io_uring), VP_us_cap = offsetof(US, buffer_capacity_), VP_us_batch = offsetof(US, batch_size_), VP_us_bidx = offsetof(US, batch_index_),
  VP_us_pending = offsetof(US, pending_cqe_count_), VP_us_offset = offsetof(US, offset_), VP_us_free = offsetof(US, free_list_), VP_us_store = offsetof(US, buffer_storage_),
  VP_us_fsubmit = offsetof(US, io_uring_submit_func_), VP_us_fget = offsetof(US, io_uring_get_sqe_func_), VP_us_fwait = offsetof(US, io_uring_wait_cqe_func_),
  VP_us_fsqw = offsetof(US, io_uring_sqring_wait_func_), VP_us_fpeek = offsetof(US, io_uring_peek_cqe_func_),
  VP_ub_index = offsetof(UB, index_), VP_ub_size = offsetof(UB, size_), VP_ub_offset = offsetof(UB, offset_), VP_ub_foff = offsetof(UB, file_offset_), VP_ub_next = offsetof(UB, next_), VP_ub_data = offsetof(UB, data_), VP_ub_align = alignof(UB),
  VP_sqe_size = sizeof(io_uring_sqe), VP_op_write_fixed = IORING_OP_WRITE_FIXED, VP_op_write = IORING_OP_WRITE, VP_op_close = IORING_OP_CLOSE, VP_f_drain = IOSQE_IO_DRAIN,
  VP_sqe_op = offsetof(io_uring_sqe, opcode), VP_sqe_flags = offsetof(io_uring_sqe, flags), VP_sqe_fd = offsetof(io_uring_sqe, fd), VP_sqe_off = offsetof(io_uring_sqe, off),
  VP_sqe_addr = offsetof(io_uring_sqe, addr), VP_sqe_len = offsetof(io_uring_sqe, len), VP_sqe_ud = offsetof(io_uring_sqe, user_data), VP_sqe_bidx = offsetof(io_uring_sqe, buf_index),
  VP_cqe_ud = offsetof(io_uring_cqe, user_data), VP_cqe_res = offsetof(io_uring_cqe, res);
// entry points: one call each
extern "C" {
void vp_us_ctor(void* m, int fd, std::string& p, std::size_t cap, std::size_t q, std::size_t b) { new (m) US(fd, std::move(p), cap, q, b); }
void vp_us_dtor(US& s) { s.~US(); }
void vp_us_flush(US& s) { s.flush(); }
void vp_us_sync(US& s) { s.sync(); }
void vp_us_alloc(US& s, std::span<char>* r) { *r = s.allocate_buffer(); }
void vp_us_submit(US& s, char* p, std::size_t n) { s.submit_buffer(p, n); }
int vp_us_reopen(US& s) { return s.reopen(); }
void vp_us_replace(US& s, int fd) { s.replace_fd(fd); }
void vp_us_wait(US& s) { s.wait_for_one_cqe(); }
io_uring_sqe* vp_us_get_sqe(US& s) { return s.get_sqe(); }
void vp_us_pool(US& s, std::size_t q) { s.allocate_buffers(q); }
}
