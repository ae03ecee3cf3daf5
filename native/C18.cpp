// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
static const char* style1(xtr::log_level_t) { return "1 "; } static const char* style2(xtr::log_level_t) { return "2 "; }
int main() {
  nt::watchdog(170);
#ifdef __SANITIZE_THREAD__
  int n = nt::thorough() ? 3000 : 300, T = 6;
#else
  int n = nt::thorough() ? 8000 : 1200, T = 8;
#endif
  { nt::rig g; std::vector<std::thread> th; std::atomic<std::size_t> made{}; // many threads call every logger function; each message arrives, each sink exists under its name
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { std::mt19937_64 r(nt::seed() * 100 + unsigned(t)); for (int i = 0; i < n; ++i) { std::string nm = "T" + std::to_string(t) + "_" + std::to_string(i) + std::string(r() % 60, 'n'); switch (r() % 8) { case 0: g.log.set_log_level_style(r() % 2 ? style1 : style2); break; case 1: g.log.set_default_log_level(xtr::log_level_t(r() % 6)); break; case 2: g.log.set_command_path(xtr::null_command_path); break; case 3: { xtr::sink s; g.log.register_sink(s, nm); CHECK(s.is_open(), "not open"); XTR_LOG(s, "m {}", nm); ++made; break; } default: { xtr::sink s = g.log.get_sink(nm); CHECK(s.is_open(), "not open"); XTR_LOG(s, "m {}", nm); ++made; if (r() % 3 == 0) { xtr::sink c(s); XTR_LOG(c, "m {}", nm); ++made; } } } } });
    for (auto& t : th) t.join(); auto l = g.lines(); CHECK(l.size() == made.load(), "%zu of %zu messages", l.size(), made.load()); for (auto& x : l) { auto b = nt::body(x); CHECK(b.rfind("m T", 0) == 0 && x.find(" " + b.substr(2) + " ") != x.npos, "message under another name: <%.200s>", x.c_str()); CHECK(x.rfind("1 ", 0) == 0 || x.rfind("2 ", 0) == 0 || x.rfind("I ", 0) == 0, "style of <%.60s>", x.c_str()); } }
  { nt::rig g; std::vector<std::thread> th; // functions that wait return only once applied
    g.log.set_log_level_style(style1); XTR_LOG(g.s, "a"); auto l = g.lines(); CHECK(l.back().rfind("1 ", 0) == 0, "style not applied"); for (int i = 0; i < 50; ++i) { g.log.set_log_level_style(i % 2 ? style1 : style2); XTR_LOG(g.s, "b"); l = g.lines(); CHECK(l.back().rfind(i % 2 ? "1 " : "2 ", 0) == 0, "style not applied"); std::string p = "sock" + std::to_string(i); g.log.set_command_path(p); CHECK(::access(p.c_str(), F_OK) == 0, "set_command_path returned before the socket existed"); g.log.set_default_log_level(xtr::log_level_t(i % 6)); auto s = g.log.get_sink("x"); CHECK(int(s.level()) == i % 6, "default level not applied"); } }
}
