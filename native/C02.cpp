// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include <fmt/ostream.h>
#include <ostream>
static std::atomic<long> live{0}, made{0};
template<std::size_t A> struct alignas(A) obj {
  long v; char pad[A > 8 ? A - 8 : 1]; obj(long x) : v(x) { ++live; ++made; } obj(const obj& o) : v(o.v) { ck(); ++live; } obj(obj&& o) noexcept : v(o.v) { ck(); ++live; } ~obj() { ck(); v = -77777; --live; }
  void ck() const { CHECK(reinterpret_cast<std::uintptr_t>(this) % A == 0, "argument stored at a misaligned address"); }
};
template<std::size_t A> std::ostream& operator<<(std::ostream& o, const obj<A>& x) { x.ck(); return o << x.v; }
template<std::size_t A> struct fmt::formatter<obj<A>> : fmt::ostream_formatter {};
template<std::size_t N> struct blob { unsigned char b[N]; };
template<std::size_t N> std::ostream& operator<<(std::ostream& o, const blob<N>& x) { unsigned h = 0; for (auto c : x.b) h = h * 31 + c; return o << h; }
template<std::size_t N> struct fmt::formatter<blob<N>> : fmt::ostream_formatter {};
template<std::size_t N> blob<N> mk(unsigned char c) { blob<N> r; for (auto& x : r.b) x = c++; return r; }
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 60000 : 6000;
  { nt::rig g; std::vector<std::string> want; auto W = [&](std::string x) { want.push_back(std::move(x)); };
    for (int i = 0; i < n; ++i) {
      long a = long(r.g()), b = long(r(1000)); std::string st(r(40), char('a' + i % 26)); double d = double(b) / 8; char c = char('A' + i % 26); bool t = i & 1; const char* cs = st.c_str(); std::string_view sv(st);
      switch (r(13)) {
        case 0: XTR_LOG(g.s, "none"); W("none"); break;
        case 1: XTR_LOG(g.s, "{} {}", a, b); W(fmt::format("{} {}", a, b)); break;
        case 2: XTR_LOG(g.s, "{} {} {} {} {}", c, t, short(b), a, d); W(fmt::format("{} {} {} {} {}", c, t, short(b), a, d)); break;
        case 3: XTR_LOG(g.s, "{} {}", obj<16>(a), obj<32>(b)); W(fmt::format("{} {}", a, b)); break;
        case 4: XTR_LOG(g.s, "{} {} {}", c, obj<64>(a), t); W(fmt::format("{} {} {}", c, a, t)); break;
        case 5: XTR_LOG(g.s, "{} {} {}", cs, b, st); W(fmt::format("{} {} {}", st, b, st)); break;
        case 6: XTR_LOG(g.s, "{} {}", sv, obj<8>(b)); W(fmt::format("{} {}", st, b)); break;
        case 7: XTR_LOG(g.s, "{} {} {}", std::string(st), a, cs); W(fmt::format("{} {} {}", st, a, st)); break;
        case 8: XTR_LOG(g.s, "{}", mk<700>(c)); W(fmt::format("{}", mk<700>(c))); break;
        case 9: XTR_LOG(g.s, "{} {} {}", c, mk<3>(c), a); W(fmt::format("{} {} {}", c, mk<3>(c), a)); break;
        case 10: { obj<16> x(b); XTR_LOG(g.s, "{} {}", x, std::move(x)); W(fmt::format("{} {}", b, b)); break; }
        case 11: XTR_LOG(g.s, "{} {} {} {}", cs, c, sv, t); W(fmt::format("{} {} {} {}", st, c, st, t)); break;
        case 12: XTR_LOG(g.s, "{} {}", std::vector<int>{1, 2, int(b)}, sv); W(fmt::format("{} {}", std::vector<int>{1, 2, int(b)}, st)); break;
      }
      if (r(500) == 0) g.s.sync();
      if (r(300) == 0) std::this_thread::yield();
    }
    auto l = g.lines(); CHECK(l.size() == want.size(), "%zu lines for %zu statements", l.size(), want.size());
    for (std::size_t i = 0; i < l.size(); ++i) CHECK(nt::body(l[i]) == want[i], "statement %zu: got <%s>, expected <%s>", i, nt::body(l[i]).c_str(), want[i].c_str());
    CHECK(live == 0, "%ld stored arguments were not destroyed", live.load()); CHECK(made > 0, "");
  }
  { // levels, sinks and timestamps stay with their statement
    nt::rig g; auto o = g.log.get_sink("Other"); o.set_level(xtr::log_level_t::debug); for (int i = 0; i < 50; ++i) { XTR_LOGL(error, g.s, "a{}", i); XTR_LOGL(debug, o, "b{}", i); }
    o.sync(); auto l = g.lines(); int a = 0, b = 0; for (auto& x : l) { if (x[0] == 'E') { CHECK(x.find(" Name ") != x.npos && nt::body(x) == fmt::format("a{}", a), "%s", x.c_str()); ++a; } else { CHECK(x[0] == 'D' && x.find(" Other ") != x.npos && nt::body(x) == fmt::format("b{}", b), "%s", x.c_str()); ++b; } } CHECK(a == 50 && b == 50, "lines missing");
  }
  CHECK(live == 0, "%ld stored arguments were not destroyed", live.load());
}
