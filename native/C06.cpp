// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include <optional>
int main() {
  nt::watchdog(170); nt::rng r; int rounds = nt::thorough() ? 60 : 5;
  for (int k = 0; k < rounds; ++k) { // many sinks come and go; each sink's statements are written once and in order
    auto m = std::make_shared<nt::mem::shared>(); std::atomic<std::int64_t> t{946688523123456789L}; std::vector<int> count(40); std::vector<int> total(40);
    { xtr::logger log(xtr::storage_interface_ptr(new nt::mem(m)), nt::clk{&t}, xtr::null_command_path); std::vector<std::optional<xtr::sink>> s(40);
      auto job = [&](int a, int b, unsigned sd) { std::mt19937_64 g(sd); for (int i = 0; i < 1200; ++i) { int j = a + int(g() % unsigned(b - a)); if (!s[j]) { s[j].emplace(log.get_sink("S" + std::to_string(j))); } else if (g() % 12 == 0) { if (g() % 2) { s[j]->close(); CHECK(s[j]->buf_.read_span().size() == 0, "a closed sink's queue is not empty"); } s[j].reset(); } else { int n = 1 + int(g() % 20); for (int q = 0; q < n; ++q) { int v = total[j]++; if (g() % 9) XTR_LOG(*s[j], "{}:{}", j, v); else { std::string pad(g() % 3000, 'p'); XTR_LOG(*s[j], "{}:{}:{}", j, v, pad); } } } } };
      std::vector<std::thread> th; for (int q = 0; q < 4; ++q) th.emplace_back(job, q * 10, q * 10 + 10, unsigned(nt::seed() * 1000 + k * 4 + q)); for (auto& x : th) x.join(); }
    CHECK(m->gone.load(), "the thread ended without releasing its storage"); CHECK(m->bad.empty(), "%s", m->bad.c_str());
    for (auto& l : nt::split(m->text)) { auto b = nt::body(l); int j, v; CHECK(std::sscanf(b.c_str(), "%d:%d", &j, &v) == 2 && j >= 0 && j < 40, "odd line <%.100s>", l.c_str()); CHECK(l.find(" S" + std::to_string(j) + " ") != l.npos, "line <%.100s> names another sink", l.c_str()); CHECK(v == count[j], "sink %d: statement %d where %d was expected", j, v, count[j]); ++count[j]; }
    for (int j = 0; j < 40; ++j) CHECK(count[j] == total[j], "sink %d: %d of %d statements", j, count[j], total[j]);
  }
  for (int k = 0; k < 300; ++k) { // the thread runs on while a sink remains open, even when the control sink's owner goes
    auto m = std::make_shared<nt::mem::shared>(); std::atomic<std::int64_t> t{0}; std::optional<xtr::logger> log(std::in_place, xtr::storage_interface_ptr(new nt::mem(m)), nt::clk{&t}, xtr::null_command_path); xtr::sink a = log->get_sink("A"), b = log->get_sink("B"); for (int i = 0; i < k; ++i) { XTR_LOG(a, "a{}", i); XTR_LOG(b, "b{}", i); } std::thread d([&] { log.reset(); }); if (k % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(200)); XTR_LOG(a, "late"); a.close(); XTR_LOG(b, "late"); b.close(); d.join(); auto l = nt::split(m->text); CHECK(l.size() == std::size_t(2 * k + 2), "%zu lines for %d statements", l.size(), 2 * k + 2); CHECK(m->gone.load(), "storage not released"); }
}
