// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include <fcntl.h>
#include <cerrno>
#include <system_error>
#include <sys/syscall.h>
static int target = -1; static std::function<long(const char*, std::size_t)> hook;
extern "C" ssize_t write(int fd, const void* p, std::size_t n) { if (hook && fd == target) { long v = hook(static_cast<const char*>(p), n); if (v < 0) { errno = int(-v); return -1; } return v; } return ::syscall(SYS_write, fd, p, n); }
extern "C" int dup(int fd) { int n = int(::syscall(SYS_dup, fd)); target = n; return n; }
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 60000 : 6000; int nul = ::open("/dev/null", O_WRONLY);
  for (int k = 0; k < n; ++k) {
    std::size_t cap = 1 + (r(3) ? r(64) : r(20000)); xtr::posix_fd_storage st(nul, xtr::null_reopen_path, cap); std::string want, got; std::size_t mode = r(6);
    for (int q = 0; q < 3; ++q) {
      auto b = st.allocate_buffer(); CHECK(b.size() == cap, "a buffer of %zu bytes", b.size()); std::size_t len = r(2) ? cap : r(cap + 1); for (std::size_t i = 0; i < len; ++i) b[i] = char(r(256)); std::string s(b.data(), len); int fails = 0; bool eof = false; static const int errs[] = {ENOSPC, EIO, EAGAIN, EPIPE, EDQUOT, EFBIG, EBADF}; int err = errs[r(7)]; bool failing = mode == 5; std::size_t calls = 0, upto = r(4), done = 0; errno = 0;
      hook = [&](const char* p, std::size_t m) -> long { if (eof) nt::die(__LINE__, "write after a failed write"); CHECK(p == b.data() + done && m == len - done && m > 0, "write of %zu bytes at %ld; %zu of %zu were written", m, long(p - b.data()), done, len); ++calls; if (mode != 0 && r(4) == 0) return -EINTR; if (failing && calls > upto) { eof = true; return -err; } std::size_t t = mode <= 1 ? m : mode == 2 ? 1 : 1 + r(m); got.append(p, t); done += t; return long(t); };
      bool threw = false; try { st.submit_buffer(b.data(), len); } catch (const std::system_error& e) { threw = true; CHECK(e.code().value() == err, "error %d reported for %d", e.code().value(), err); } hook = {}; CHECK(threw == eof, "%s", eof ? "a failed write was not reported" : "an error was reported but no write failed"); if (threw) break; want += s; CHECK(got == want, "%zu bytes written for %zu submitted", got.size(), want.size()); st.flush(); } }
}
