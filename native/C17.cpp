// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include "xtr/detail/file_descriptor.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "xtr/io/fd_storage.hpp"
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <system_error>
#include <sys/syscall.h>
using xtr::detail::file_descriptor;
static bool fake; static int nextfd = 1000; static std::map<int, int> open_; static std::string bad; static int eintr, openerr, dupfail; static std::size_t opens; static std::map<int, bool> callers;
extern "C" int close(int fd) { if (fake && fd >= 1000) { auto it = open_.find(fd); if (it == open_.end() || it->second != 1) { bad = "descriptor closed that is not open"; errno = EBADF; return -1; } if (callers.count(fd)) bad = "the caller's descriptor was closed"; it->second = 2; return 0; } if (fake && fd == -1) { bad = "close(-1)"; return -1; } return int(::syscall(SYS_close, fd)); }
extern "C" int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int mode = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (fake && std::strncmp(p, "vp-", 3) == 0) { ++opens; if (eintr > 0) { --eintr; errno = EINTR; return -1; } if (openerr) { errno = openerr; return -1; } open_[++nextfd] = 1; return nextfd; } return int(::syscall(SYS_openat, AT_FDCWD, p, fl, mode)); }
static int fresh() { open_[++nextfd] = 1; return nextfd; }
static int live() { int n = 0; for (auto& [k, v] : open_) n += v == 1; return n; }
static int openfds() { int n = 0; for (int i = 0; i < 256; ++i) if (::fcntl(i, F_GETFD) != -1) ++n; return n; }
int main() {
  nt::watchdog(170); nt::rng r; if (!std::freopen("/dev/null", "w", stderr)) return 0; int n = nt::thorough() ? 100000 : 10000; fake = true;
  for (int k = 0; k < n; ++k) { open_.clear(); bad.clear(); std::size_t freed = 0; { std::vector<std::unique_ptr<file_descriptor>> v; std::vector<int> own; for (int i = 0; i < 4; ++i) { if (r(3)) { int f = fresh(); v.push_back(std::make_unique<file_descriptor>(f)); own.push_back(f); } else { v.push_back(std::make_unique<file_descriptor>()); own.push_back(-1); } }
      for (int i = 0; i < 10; ++i) { std::size_t a = r(4), b = r(4); switch (r(8)) {
        case 0: { int f = own[a]; *v[a] = std::move(*v[b]); if (a != b) { own[a] = own[b]; own[b] = v[b]->get(); CHECK(own[b] == -1 || own[b] == f, "the source owns %d", own[b]); if (f != -1) CHECK(open_[f] == (own[b] == f ? 1 : 2), "the old descriptor is neither closed nor with the source"); } break; }
        case 1: { auto t = std::make_unique<file_descriptor>(std::move(*v[a])); CHECK(v[a]->get() == -1 && !*v[a], "the source of a move still owns"); v[a] = std::move(t); break; }
        case 2: { using std::swap; swap(*v[a], *v[b]); std::swap(own[a], own[b]); break; }
        case 3: { int f = v[a]->release(); CHECK(f == own[a], "released %d instead of %d", f, own[a]); if (f != -1) { CHECK(open_[f] == 1, "release() closed"); open_[f] = 3; ++freed; } own[a] = -1; break; }
        case 4: { int f = own[a]; v[a]->reset(); if (f != -1) CHECK(open_[f] == 2, "reset() did not close"); own[a] = -1; break; }
        case 5: { int f = own[a], g = fresh(); v[a]->reset(g); if (f != -1) CHECK(open_[f] == 2, "reset(fd) did not close"); own[a] = g; break; }
        case 6: { eintr = int(r(3)); openerr = r(2) ? 0 : ENOENT; std::size_t o = opens, e = std::size_t(eintr); bool t = false; try { file_descriptor d("vp-x", O_RDONLY); CHECK(d.get() == nextfd && bool(d), "opened another"); *v[a] = std::move(d); own[a] = nextfd; } catch (const std::system_error& x) { t = true; CHECK(x.code().value() == openerr, "error %d for %d", x.code().value(), openerr); } CHECK(t == (openerr != 0), "%s", t ? "an interrupted call was not retried" : "a failed open was not reported"); CHECK(opens == o + e + 1, "open called %zu times", opens - o); eintr = openerr = 0; break; }
        default: CHECK(v[a]->get() == own[a] && v[a]->is_open() == (own[a] != -1) && bool(*v[a]) == (own[a] != -1), "owns %d instead of %d", v[a]->get(), own[a]); } CHECK(bad.empty(), "%s", bad.c_str()); for (std::size_t q = 0; q < 4; ++q) { CHECK(v[q]->get() == own[q], "owns %d instead of %d", v[q]->get(), own[q]); if (own[q] != -1) CHECK(open_[own[q]] == 1, "closed while owned"); } } }
    CHECK(live() == 0, "%d descriptors never closed", live()); CHECK(bad.empty(), "%s", bad.c_str()); }
  fake = false; // storages: duplicates of the caller's descriptor, all closed at the end
  for (int k = 0; k < (nt::thorough() ? 400 : 60); ++k) { int base = openfds(); int fd = ::open("file", O_CREAT | O_APPEND | O_WRONLY, 0644); FILE* fp = std::fopen("file2", "w");
    { xtr::posix_fd_storage s(fd, "file"); if (r(2)) s.reopen(); if (r(2)) { auto b = s.allocate_buffer(); b[0] = 'x'; s.submit_buffer(b.data(), 1); } } CHECK(::fcntl(fd, F_GETFD) != -1, "the caller's descriptor was closed by posix_fd_storage");
#if XTR_USE_IO_URING
    try { xtr::io_uring_fd_storage s(fd, "file", 64, 4, 2); if (r(2)) s.reopen(); if (r(2)) { auto b = s.allocate_buffer(); b[0] = 'x'; s.submit_buffer(b.data(), 1); } if (r(2)) s.reopen(); } catch (const std::exception&) {} CHECK(::fcntl(fd, F_GETFD) != -1, "the caller's descriptor was closed by io_uring_fd_storage");
    try { xtr::io_uring_fd_storage s(fd, "file", 64, 1u << 30, 2); } catch (const std::exception&) {} try { xtr::io_uring_fd_storage s(fd, "file", std::size_t(1) << 40, 4, 2); } catch (const std::exception&) {} CHECK(::fcntl(fd, F_GETFD) != -1, "the caller's descriptor was closed");
#endif
    { auto s = xtr::make_fd_storage(fd, "file"); } { auto s = xtr::make_fd_storage(fp); if (r(2)) s->reopen(); } { auto s = xtr::make_fd_storage("file3"); if (r(2)) s->reopen(); } try { auto s = xtr::make_fd_storage("nodir/file"); CHECK(false, "opened a file in no directory"); } catch (const std::system_error& e) { CHECK(e.code().value() == ENOENT, "error %d", e.code().value()); } try { xtr::posix_fd_storage s(-1); CHECK(false, "dup of a bad descriptor not reported"); } catch (const std::system_error& e) { CHECK(e.code().value() == EBADF, "error %d", e.code().value()); }
    CHECK(::fcntl(fd, F_GETFD) != -1 && ::fcntl(::fileno(fp), F_GETFD) != -1, "the caller's descriptor was closed"); ::close(fd); std::fclose(fp); CHECK(openfds() == base, "%d descriptors leaked", openfds() - base); }
}
