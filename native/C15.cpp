// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "cmd.hpp"
#include <sys/un.h>
#include <sys/socket.h>
#include <sys/syscall.h>
template<std::size_t N> static void field(nt::rng& r) { struct { char before[8]; char f[N]; char after[8]; } x; for (std::size_t len = 0; len < 2 * N + 3; ++len) { std::unique_ptr<char[]> s(new char[len + 1]); for (std::size_t i = 0; i < len; ++i) s[i] = char(r(20) ? 'a' + r(26) : r(256)); std::memset(static_cast<void*>(&x), 0x5A, sizeof x); strzcpy(x.f, std::string_view(s.get(), len)); std::size_t k = std::min(len, N - 1); CHECK(std::memcmp(x.f, s.get(), k) == 0, "field of %zu, text of %zu: wrong prefix", N, len); CHECK(x.f[k] == 0, "field of %zu, text of %zu: not terminated", N, len); for (char c : x.before) CHECK(c == 0x5A, "wrote before the field"); for (char c : x.after) CHECK(c == 0x5A, "wrote after the field"); } }
static std::string sent; static bool called; static std::size_t alen;
static void note(const sockaddr* a, socklen_t n) { called = true; alen = n; auto u = reinterpret_cast<const sockaddr_un*>(a); CHECK(n == sizeof(sockaddr_un), "address of %u bytes", unsigned(n)); sent.assign(u->sun_path, sizeof u->sun_path); CHECK(u->sun_family == AF_LOCAL, "family"); }
extern "C" int bind(int, const sockaddr* a, socklen_t n) noexcept { note(a, n); return 0; }
extern "C" int listen(int, int) noexcept { return 0; }
extern "C" int connect(int, const sockaddr* a, socklen_t n) { note(a, n); return 0; }
extern "C" int unlink(const char*) noexcept { return 0; }
int main() {
  nt::watchdog(170); nt::rng r; if (!std::freopen("/dev/null", "w", stderr)) return 0; std::cerr.setstate(std::ios::badbit); int n = nt::thorough() ? 40 : 3;
  for (int k = 0; k < n; ++k) { field<1>(r); field<2>(r); field<3>(r); field<16>(r); field<108>(r); field<128>(r); field<256>(r); }
  for (int k = 0; k < n; ++k) for (std::size_t len = 0; len < 300; ++len) for (int ab = 0; ab < 2; ++ab) { std::string p(len, 0); for (auto& c : p) c = char('a' + r(26)); if (ab && len) p[0] = 0; bool fits = len < sizeof(sockaddr_un::sun_path);
    called = false; { command_dispatcher d(p); CHECK(called == fits && d.is_open() == fits, "serving on a path of %zu bytes: %s", len, fits ? "refused" : "not refused"); } if (fits) { CHECK(sent.substr(0, len) == p && sent[len] == 0, "serving on another path than given"); if (ab && len) CHECK(sent.find_first_not_of('\0', len) == sent.npos, "the rest of an abstract address is not cleared"); }
    called = false; errno = 0; { std::unique_ptr<char[]> s(new char[len]); std::memcpy(s.get(), p.data(), len); auto fd = command_connect(std::string_view(s.get(), len)); CHECK(called == fits && bool(fd) == fits, "connecting to a path of %zu bytes: %s", len, fits ? "refused" : "not refused"); } if (fits) { CHECK(sent.substr(0, len) == p && sent[len] == 0, "connecting to another path than given"); if (ab && len) CHECK(sent.find_first_not_of('\0', len) == sent.npos, "the rest of an abstract address is not cleared"); } }
  { command_dispatcher* d = nullptr; struct send_ { std::string got; }; std::string p = "x"; command_dispatcher q(p); for (std::size_t len = 0; len < 600; ++len) { std::string why(len, 'e'); q.send_error(5, why); auto& bufs = q.results_[5].bufs; std::string s(bufs.back().buf.get(), bufs.back().size); CHECK(reason(s) == why.substr(0, 255), "an error text of %zu bytes arrives with %zu", len, reason(s).size()); } }
}
