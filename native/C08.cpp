// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include "xtr/detail/buffer.hpp"
struct bad { bool midway; }; template<> struct fmt::formatter<bad> { constexpr auto parse(format_parse_context& c) { return c.begin(); } auto format(const bad& x, format_context& c) const -> decltype(c.out()) { if (x.midway) fmt::format_to(c.out(), "partial text that must not appear"); throw std::runtime_error("no"); } };
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 3000 : 250; if (!std::freopen("/dev/null", "w", stderr)) return 0;
  auto fail = [&](const char* w) { std::printf("FAILED: %s\n", w); std::fflush(stdout); ::_exit(1); };
  for (int k = 0; k < n; ++k) { // the buffer on its own
    auto m = std::make_shared<nt::mem::shared>(); std::size_t mode = r(4); m->sizes = [&, mode] { return mode == 0 ? 1 : mode == 1 ? 1 + r(7) : mode == 2 ? 1 + r(200) : std::size_t(4096); }; std::string want; std::size_t fl = 0;
    { xtr::detail::buffer b(xtr::storage_interface_ptr(new nt::mem(m)), nullptr);
      for (std::size_t i = 0, e = r(60); i < e; ++i) { std::size_t len = r(3) ? r(30) : mode == 3 ? r(20000) : r(600); std::string s(len, 0); for (auto& c : s) c = char(r(256)); switch (r(4)) { case 0: b.flush(); ++fl; { std::scoped_lock l{m->m}; if (m->text != want) fail("bytes missing after flush()"); if (m->ev.back() != "flush") fail("the storage was not flushed last"); } break; case 1: b.append(s.begin(), s.end()); want += s; break; case 2: { std::string z; b.append(z.begin(), z.end()); } break; case 3: b.line = s; b.append_line(); b.line.clear(); want += s; break; } }
      if (r(2)) { b.flush(); ++fl; } }
    if (m->text != want) fail("the storage did not receive exactly the appended bytes"); if (!m->bad.empty()) fail(m->bad.c_str()); if (!m->gone.load()) fail("the storage was not released"); }
  for (int k = 0; k < n / 5; ++k) { // through the logger, with lines whose formatting fails
    std::vector<std::string> want; nt::rng rs; rs.g.seed(unsigned(k)); std::size_t mode = r(3); nt::rig g([&, mode] { return mode == 0 ? 1 + rs(9) : mode == 1 ? 1 + rs(300) : std::size_t(65536); });
    for (std::size_t i = 0, e = 1 + r(80); i < e; ++i) switch (r(5)) { case 0: XTR_LOG(g.s, "before {}", bad{false}); break; case 1: XTR_LOG(g.s, "before {} after", bad{true}); break; default: { std::string s(r(400), 'w'); XTR_LOG(g.s, "{}|{}", i, s); want.push_back(std::to_string(i) + "|" + s); } }
    std::string text = g.text(); auto l = nt::split(text); if (!text.empty() && text.back() != '\n') fail("output ends in part of a line"); if (l.size() != want.size()) fail("wrong number of lines"); for (std::size_t i = 0; i < l.size(); ++i) if (nt::body(l[i]) != want[i]) { std::printf("<%.200s> expected <%.200s>\n", nt::body(l[i]).c_str(), want[i].c_str()); fail("wrong line"); } if (!g.m->bad.empty()) fail(g.m->bad.c_str()); }
}
