// SRC: ALL
// FLAGS: -O2
#include "nt.hpp"
#include <optional>
static bool eventually(std::function<bool()> f) { for (int i = 0; i < 3000; ++i) { if (f()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return false; }
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 3000 : 300; struct slow { };
  for (int k = 0; k < n; ++k) { // everything logged is written soon, though nothing more is logged
    nt::rig g; std::vector<std::optional<xtr::sink>> s; std::size_t c = r(6), made = 0; for (std::size_t i = 0; i < c; ++i) s.emplace_back(g.log.get_sink("S" + std::to_string(i))); auto flushed = [&] { std::scoped_lock l{g.m->m}; return std::size_t(std::count(g.m->text.begin(), g.m->text.end(), '\n')) == made && (made == 0 || (!g.m->ev.empty() && (g.m->ev.back() == "flush" || g.m->ev.back() == "sync"))); };
    for (int i = 0; i < 6; ++i) { std::size_t m = r(4); for (std::size_t q = 0; q < m; ++q) { std::size_t a = r(c + 1); if (a < c && s[a]) { XTR_LOG(*s[a], "x"); } else XTR_LOG(g.s, "y"); ++made; } if (r(3) == 0 && c) { std::size_t a = r(c); if (s[a]) { XTR_LOG(*s[a], "last"); ++made; s[a].reset(); } } if (r(4) == 0) { s.emplace_back(g.log.get_sink("new")); c = s.size(); } CHECK(eventually(flushed), "round %d: %zu messages were processed but not written while all sinks were idle", k, made); }
  }
  { // a busy sink does not starve the others: both advance in turn
    nt::rig g; std::atomic<bool> stop{}; std::thread busy([&] { auto b = g.log.get_sink("busy"); std::string pad(300, 'p'); while (!stop) XTR_LOG(b, "{}", pad); }); for (int i = 0; i < 200; ++i) { XTR_LOG(g.s, "quiet {}", i); auto t0 = std::chrono::steady_clock::now(); std::string w = "quiet " + std::to_string(i) + "\n"; g.s.sync(); { std::scoped_lock l{g.m->m}; CHECK(g.m->text.find(w) != std::string::npos, "not written"); g.m->text.clear(); } CHECK(std::chrono::steady_clock::now() - t0 < std::chrono::seconds(20), "a busy sink starves another"); } stop = true; busy.join(); }
  for (int k = 0; k < 20; ++k) { // the logger is being destroyed (its destructor waits) while one sink is still connected and logging
    auto m = std::make_shared<nt::mem::shared>(); std::atomic<std::int64_t> t{946688523123456789L}; auto log = std::make_unique<xtr::logger>(xtr::storage_interface_ptr(new nt::mem(m)), nt::clk{&t}, xtr::null_command_path);
    std::optional<xtr::sink> s(log->get_sink("Last")); std::thread d([&] { log.reset(); }); std::this_thread::sleep_for(std::chrono::milliseconds(5 + k));
    bool ok = true; for (std::size_t q = 1; q < 6 && ok; ++q) { XTR_LOG(*s, "z"); ok = eventually([&] { std::scoped_lock l{m->m}; return std::size_t(std::count(m->text.begin(), m->text.end(), '\n')) == q && !m->ev.empty() && m->ev.back() == "flush"; }); }
    s.reset(); d.join(); CHECK(ok, "a message logged while the logger is waiting for the last sink was not written"); }
}
