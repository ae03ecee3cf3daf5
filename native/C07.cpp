// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include <memory>
int main() {
  nt::watchdog(170); nt::rng r, rs; int n = nt::thorough() ? 40000 : 5000;
  { nt::rig g([&] { return 200 + rs(3000); }); std::size_t made = 0; // sync: everything written, then flushed, then synced
    for (int i = 0; i < n; ++i) { std::size_t k = r(6); for (std::size_t q = 0; q < k; ++q) { std::string pad(r(8) ? r(20) : r(5000), 'p'); XTR_LOG(g.s, "{}", pad); ++made; } std::size_t mark; { std::scoped_lock l{g.m->m}; g.m->ev.clear(); } std::size_t sy = g.m->syncs; g.s.sync(); CHECK(g.m->syncs >= sy + 1, "sync() returned before the storage was synced"); { std::scoped_lock l{g.m->m}; auto& e = g.m->ev; std::size_t s = 0; for (std::size_t j = 0; j < e.size(); ++j) if (e[j] == "sync") { s = j; break; } CHECK(e[s] == "sync" && s > 0 && e[s - 1] == "flush", "the storage was not flushed right before it was synced"); std::size_t c = std::size_t(std::count(g.m->text.begin(), g.m->text.end(), '\n')); CHECK(c == made, "%zu of %zu lines written when sync() returned", c, made); } if (i % 200 == 0) { std::scoped_lock l{g.m->m}; g.m->text.clear(); made = 0; } }
    CHECK(g.m->bad.empty(), "%s", g.m->bad.c_str()); }
  { nt::rig g; std::atomic<bool> in{}; // a slow storage sync: sync() waits for it
    g.m->onsync = [&] { std::this_thread::sleep_for(std::chrono::milliseconds(30)); in = true; }; XTR_LOG(g.s, "x"); g.s.sync(); CHECK(in.load(), "sync() returned while the storage was still syncing"); g.m->onsync = {}; }
  { nt::rig g; std::vector<std::thread> th; // close from many threads; stack of the waiting thread is reused at once; the sink's memory is freed at once
    for (int q = 0; q < 4; ++q) th.emplace_back([&, q] { for (int i = 0; i < n / 8; ++i) { auto s = std::make_unique<xtr::sink>(g.log.get_sink("C" + std::to_string(q))); for (int j = 0; j < i % 7; ++j) XTR_LOG(*s, "c"); if (i % 3 == 0) s->sync(); s->close(); CHECK(!s->is_open(), "open after close()"); CHECK(s->buf_.read_span().size() == 0, "closed with %zu unread bytes", s->buf_.read_span().size()); volatile char junk[512]; for (auto& c : junk) c = char(0xAA); s.reset(); } });
    for (auto& t : th) t.join(); auto l = g.lines(); std::size_t want = 0; for (int i = 0; i < n / 8; ++i) want += std::size_t(i % 7); CHECK(l.size() == want * 4, "%zu of %zu lines", l.size(), want * 4); }
}
