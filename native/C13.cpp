// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "cmd.hpp"
#include <map>
#include <set>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
template<int I, int N> struct pl { static constexpr auto frame_id = frame_id_t(I); char c[N]; };
static std::function<long(int, std::size_t)> hook;
extern "C" ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (hook) { long v = hook(fd, m->msg_iov[0].iov_len); if (v < 0) { errno = int(-v); return -1; } } return ::syscall(SYS_sendmsg, fd, m, fl); }
struct conn { file_descriptor fd; std::vector<std::string> want; std::string got; bool done = false, cut = false; std::size_t n = 0; };
int main() {
  nt::watchdog(170); nt::rng r; if (!std::freopen("/dev/null", "w", stderr)) return 0; std::cerr.setstate(std::ios::badbit); int rounds = nt::thorough() ? 4000 : 300;
  for (int k = 0; k < rounds; ++k) {
    std::string path = "sock" + std::to_string(k % 7); ::unlink(path.c_str()); command_dispatcher d(path); CHECK(d.is_open(), "not open"); std::vector<std::string> calls; std::map<int, std::vector<std::string>> out; int serial = 0, cur = -1; bool odd = false;
    auto answer = [&](int fd, const char* c, std::size_t n) { calls.emplace_back(c, n); std::size_t m = c[0] & 7; for (std::size_t i = 0; i < m; ++i) { std::string s = "reply" + std::to_string(serial++) + std::string(r(100), 'r'); d.send(fd, s.data(), s.size()); out[serial].push_back(s); } if (c[0] & 8) throw std::runtime_error("handler failed"); if (c[0] & 16) throw std::bad_alloc(); };
    d.register_callback<pl<1, 1>>([&](int fd, auto& p) { answer(fd, p.c, 1); }); d.register_callback<pl<2, 37>>([&](int fd, auto& p) { answer(fd, p.c, 37); }); d.register_callback<pl<7, 300>>([&](int fd, auto& p) { answer(fd, p.c, 300); }); d.register_callback<pl<9, 4>>([&](int fd, auto& p) { answer(fd, p.c, 4); });
    std::map<int, std::size_t> sz{{1, sizeof(frame<pl<1, 1>>)}, {2, sizeof(frame<pl<2, 37>>)}, {7, sizeof(frame<pl<7, 300>>)}, {9, sizeof(frame<pl<9, 4>>)}};
    std::vector<std::unique_ptr<conn>> cs; std::size_t nc = 1 + r(6), fails = r(4);
    for (std::size_t i = 0; i < nc; ++i) { auto c = std::make_unique<conn>(); c->fd = command_connect(path); CHECK(bool(c->fd), "cannot connect"); ::fcntl(c->fd.get(), F_SETFL, O_NONBLOCK); cs.push_back(std::move(c)); d.process_commands(0); }
    // Each connection sends one frame. One at a time, so that what the handler produced is known; then replies are sent under faults.
    int handled = 0;
    for (auto& c : cs) { char b[700]; for (auto& x : b) x = char(r(256)); std::size_t n; int id; switch (r(7)) { case 0: n = r(700); id = int(r(12)); break; case 1: n = r(9); id = 1; break; case 2: id = 2; n = sz[2] - 1 + r(3); break; case 3: id = 7; n = sz[7] - 1 + r(3); break; default: id = std::array{1, 2, 7, 9}[r(4)]; n = sz[id]; } std::memcpy(b, &id, 4); if (r(30) == 0) { c->cut = true; c->fd.reset(); } std::size_t before = calls.size(); auto s0 = serial; hook = [](int, std::size_t) { return long(-EAGAIN); };
      if (!c->cut) { if (n == 0) n = 1; CHECK(::send(c->fd.get(), b, n, MSG_NOSIGNAL) == ssize_t(n), "cannot send"); } d.process_commands(0);
      std::size_t rec = std::min<std::size_t>(n, sizeof(frame_buf)); bool good = !c->cut && rec >= 4 && sz.count(id) && sz[id] == rec; CHECK(calls.size() == before + good, "a frame of %zu bytes and id %d made %zu calls", n, id, calls.size() - before); if (good) { CHECK(calls.back() == std::string(b + 4, calls.back().size()), "the handler received other bytes"); }
      if (!c->cut) { for (int j = s0 + 1; j <= serial; ++j) for (auto& x : out[j]) c->want.push_back(x); if (!good) c->want.push_back(rec < 4 ? "E:Incomplete frame header" : !sz.count(id) ? "E:Invalid frame id" : "E:Invalid frame length"); else if (b[4] & 8) c->want.push_back("E:handler failed"); else if (b[4] & 16) c->want.push_back("E:" + std::string(std::bad_alloc().what())); } }
    hook = [&](int fd, std::size_t) -> long { std::size_t w = r(12); if (w < 4) return -EAGAIN; if (w == 4 && fails == 1) { return -EPIPE; } return 0; };
    for (int j = 0; j < 400; ++j) { d.process_commands(0); for (auto& c : cs) if (!c->cut && !c->done) { if (fails == 2 && r(60) == 0) { c->cut = true; c->fd.reset(); continue; } frame_buf b; auto n = command_recv(c->fd.get(), b); if (n == 0) { c->done = true; CHECK(c->n == c->want.size() || fails == 1, "%zu of %zu replies", c->n, c->want.size()); } else if (n > 0) { CHECK(c->n < c->want.size(), "a reply too many"); auto& w = c->want[c->n++]; std::string g(b.buf, std::size_t(n)); if (w.rfind("E:", 0) == 0) CHECK(reason(g) == w.substr(2), "error <%s>, expected <%s>", reason(g).c_str(), w.c_str()); else CHECK(g == w, "reply <%.40s>, expected <%.40s>", g.c_str(), w.c_str()); } } }
    for (auto& c : cs) CHECK(c->done || c->cut, "a connection was not answered and closed (%zu of %zu replies)", c->n, c->want.size()); hook = {}; CHECK(d.results_.empty(), "replies of closed connections are kept"); CHECK(d.pollfds_.size() == 1, "%zu connections left", d.pollfds_.size() - 1); CHECK(d.is_open(), "closed");
  }
  // the logger's own commands, any bytes; it keeps answering and logging
  nt::rig g; g.log.set_command_path("cmd"); g.s.sync(); for (int k = 0; k < rounds * 5; ++k) { char b[600]; for (auto& x : b) x = char(r(256)); std::size_t n = 1 + r(600); std::uint32_t id = std::uint32_t(r(8)); std::memcpy(b, &id, 4); if (r(3) == 0) n = id == 0 ? sizeof(frame<status>) : id == 1 ? sizeof(frame<set_level>) : sizeof(frame<reopen>); auto a = ask("cmd", b, n); CHECK(!a.empty() || id == 0, "no reply to id %u, %zu bytes", id, n); for (auto& x : a) CHECK(x.size() >= 4, "odd reply"); if (n < 4) CHECK(a.size() == 1 && reason(a[0]) == "Incomplete frame header", ""); }
  XTR_LOG(g.s, "alive"); auto l = g.lines(); CHECK(!l.empty() && nt::body(l.back()) == "alive", "logging stopped");
}
