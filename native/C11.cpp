// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "gate.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "xtr/detail/commands/connect.hpp"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include "xtr/detail/commands/recv.hpp"
#include "xtr/detail/commands/send.hpp"
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <map>
#include <sys/syscall.h>
static std::mutex M; static std::map<int, int> closes; static int failopen; static int eintr;
extern "C" int close(int fd) { { std::scoped_lock l{M}; ++closes[fd]; } return int(::syscall(SYS_close, fd)); }
extern "C" int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (std::strstr(p, "log.txt")) { if (eintr > 0) { --eintr; errno = EINTR; return -1; } if (failopen) { errno = failopen; return -1; } CHECK((flags & O_APPEND) && (flags & O_CREAT) && !(flags & O_TRUNC) && (flags & O_ACCMODE) == O_WRONLY, "opened with flags %x", flags); } return int(::syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::vector<std::string> bodies(const std::string& p) { std::vector<std::string> r; for (auto& l : nt::split(slurp(p))) r.push_back(nt::body(l)); return r; }
static bool exists(const std::string& p) { return ::access(p.c_str(), F_OK) == 0; }
using namespace xtr::detail;
static int request(const char* path, std::string& why) { auto fd = command_connect(path); CHECK(bool(fd), "cannot connect"); frame<reopen> f; CHECK(command_send(fd.get(), &f, sizeof f) == ssize_t(sizeof f), "cannot send"); frame_buf b; auto n = command_recv(fd.get(), b); CHECK(n >= ssize_t(sizeof(frame_header)), "no reply"); if (b.hdr.frame_id == error::frame_id) { why = reinterpret_cast<frame<error>&>(b).payload.reason; return 1; } CHECK(b.hdr.frame_id == success::frame_id, "reply %u", b.hdr.frame_id); return 0; }
static void storage(bool uring, nt::rng& r) {
  std::string path = "log.txt", dir = "."; int fd = ::open(path.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644); xtr::storage_interface_ptr s; std::string buf; try {
#if XTR_USE_IO_URING
    if (uring) s.reset(new xtr::io_uring_fd_storage(fd, path, 64, 4, 1 + r(4))); else
#endif
      s.reset(new xtr::posix_fd_storage(fd, path, 64)); } catch (const std::exception&) { ::close(fd); return; }
  ::close(fd); int gen = 0; std::vector<std::string> want(1); std::vector<std::string> names; names.push_back(path); auto put = [&](std::string x) { while (!x.empty()) { auto b = s->allocate_buffer(); std::size_t n = std::min(b.size(), x.size()); std::memcpy(b.data(), x.data(), n); s->submit_buffer(b.data(), n); x.erase(0, n); } };
  for (std::size_t i = 0, e = 3 + r(25); i < e; ++i) { std::string x(r(300), char('a' + r(26))); put(x); want.back() += x; if (r(3) == 0) { s->flush(); if (r(2)) s->sync(); bool fails = r(3) == 0; if (r(2)) eintr = int(r(3)); int cur = static_cast<fd_storage_base*>(s.get())->fd_.get(); { std::scoped_lock l{M}; closes[cur] = 0; } if (fails) { failopen = r(2) ? EACCES : EMFILE; int rc = s->reopen(); CHECK(rc == failopen, "reopen() reported %d for %d", rc, failopen); failopen = 0; CHECK(static_cast<fd_storage_base*>(s.get())->fd_.get() == cur, "a failed reopen changed the descriptor"); CHECK(closes[cur] == 0 && ::fcntl(cur, F_GETFD) != -1, "a failed reopen closed the descriptor"); } else { std::string old = "old" + std::to_string(gen++); ::rename(path.c_str(), old.c_str()); names.back() = old; int rc = s->reopen(); CHECK(rc == 0, "reopen() reported %d", rc); CHECK(exists(path), "the file was not created"); s->flush(); s->sync(); CHECK(slurp(old) == want.back(), "uring %d: the old file has %zu of %zu bytes: <%s> <%s>", int(uring), slurp(old).size(), want.back().size(), slurp(old).c_str(), want.back().c_str()); if (!uring) CHECK(closes[cur] == 1, "the old descriptor was closed %d times", closes[cur]); else if (static_cast<fd_storage_base*>(s.get())->fd_.get() != cur) CHECK(::fcntl(cur, F_GETFD) == -1, "the old descriptor was not closed"); names.push_back(path); want.emplace_back(); } eintr = 0; } }
  s->flush(); s->sync(); s.reset(); for (std::size_t i = 0; i < want.size(); ++i) { std::string t = slurp(names[i]); if (uring && i > 0) { auto p = t.find_first_not_of('\0'); t = p == t.npos ? "" : t.substr(p); } CHECK(t == want[i], "file %zu has %zu bytes, %zu expected", i, t.size(), want[i].size()); ::unlink(names[i].c_str()); }
}
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 2000 : 200; for (int k = 0; k < n; ++k) { storage(false, r); storage(true, r); }
  for (int k = 0; k < n / 10; ++k) { ::unlink("log.txt"); xtr::logger log("log.txt", std::chrono::system_clock(), "cmd"); auto s = log.get_sink("N"); std::vector<std::string> want; int gen = 0; // through the command socket
    for (std::size_t i = 0, e = 2 + r(12); i < e; ++i) { for (std::size_t j = 0, c = r(400); j < c; ++j) { XTR_LOG(s, "{}:{}", i, j); want.push_back(std::to_string(i) + ":" + std::to_string(j)); } std::string why; if (r(3) == 0) { s.sync(); failopen = EACCES; int rc = request("cmd", why); failopen = 0; CHECK(rc == 1 && why.find(std::strerror(EACCES)) != why.npos, "a failed reopen was answered with <%s>", why.c_str()); } else { std::string old = "old" + std::to_string(gen++); s.sync(); ::rename("log.txt", old.c_str()); int rc = request("cmd", why); CHECK(rc == 0, "reopen failed: %s", why.c_str()); s.sync(); CHECK(bodies(old) == want, "the old file has %zu of %zu lines", bodies(old).size(), want.size()); want.clear(); ::unlink(old.c_str()); CHECK(exists("log.txt"), "no new file"); } }
    s.close(); }
  for (int k = 0; k < 20; ++k) { // a reopen arriving while a line is still buffered: the line is handed over first
    nt::rig g([k] { return k % 2 ? std::size_t(65536) : std::size_t(7); }); g.log.set_command_path("cmd2"); std::vector<xtr::sink> more; for (int j = 0; j < k % 4; ++j) more.push_back(g.log.get_sink("More")); std::string seen = "?"; g.m->onreopen = [&] { std::scoped_lock l{g.m->m}; seen = g.m->text; return 0; };
    auto fd = command_connect("cmd2"); CHECK(bool(fd), "cannot connect"); ::usleep(20000); gate t; XTR_LOG(g.s, "{} before", gated{&t}); t.entered(); frame<reopen> f; CHECK(command_send(fd.get(), &f, sizeof f) == ssize_t(sizeof f), "cannot send"); t.release(); frame_buf b; CHECK(command_recv(fd.get(), b) > 0 && b.hdr.frame_id == success::frame_id, "no reply"); g.s.sync();
    CHECK(seen.find("gate before\n") != seen.npos, "round %d: a line processed before the reopen had not been handed to the back-end", k); }
  { int p = ::open("other", O_CREAT | O_WRONLY, 0644); xtr::posix_fd_storage s(p); CHECK(s.reopen() == ENOENT, "a reopen without a path"); auto b = s.allocate_buffer(); b[0] = 'x'; s.submit_buffer(b.data(), 1); CHECK(slurp("other") == "x", "descriptor lost"); }
}
