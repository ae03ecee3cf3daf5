// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
int main() {
  nt::watchdog(170); nt::rng r; nt::rig g([&] { return std::size_t(300); }); std::vector<std::string> want; static std::vector<std::string> keep; keep.reserve(100000); int n = nt::thorough() ? 20000 : 1200;
  auto add = [&](std::string s) { keep.push_back(s); const std::string& k = keep.back(); std::string_view v(k); const char* c = k.c_str(); std::string z(k.c_str());
    XTR_LOG(g.s, "[{}]", k); want.push_back("[" + nt::esc(k) + "]"); XTR_LOG(g.s, "[{}]", v); want.push_back("[" + nt::esc(k) + "]"); XTR_LOG(g.s, "[{}]", c); want.push_back("[" + nt::esc(z) + "]"); XTR_LOG(g.s, "[{}]", std::string(k)); want.push_back("[" + nt::esc(k) + "]");
    XTR_LOG(g.s, "[{}]", nocopy(c)); want.push_back("[" + nt::esc(z) + "]"); XTR_LOG(g.s, "[{}]", nocopy(k)); want.push_back("[" + nt::esc(z) + "]"); XTR_LOG(g.s, "[{:>5}|{}]", 12, v); want.push_back("[   12|" + nt::esc(k) + "]"); };
  for (int c = 0; c < 256; ++c) { add(std::string(1, char(c))); add(std::string("a") + char(c) + "b"); add(std::string(3, char(c))); } add(""); add("\\x41"); add("\\"); add("a\\\\b"); add(std::string(700, '\x1b')); add(std::string("\0\0x", 3));
  for (int i = 0; i < n; ++i) { std::string s(r(40), 0); for (auto& ch : s) ch = r(3) ? char(32 + r(96)) : char(r(256)); add(s); }
  auto l = g.lines(); CHECK(l.size() == want.size(), "%zu lines for %zu statements", l.size(), want.size()); for (std::size_t i = 0; i < l.size(); ++i) CHECK(nt::body(l[i]) == want[i], "statement %zu: got <%.200s>, expected <%.200s>", i, nt::body(l[i]).c_str(), want[i].c_str());
}
