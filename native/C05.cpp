// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "gate.hpp"
#include "cmd.hpp"
// number of drops the log reports for the sink
static std::size_t reported(const std::vector<std::string>& l, const std::string& name) { std::size_t n = 0; for (auto& x : l) { auto p = x.find(" messages dropped"); if (p == x.npos) p = x.find(" message dropped"); if (p == x.npos) continue; CHECK(x.find(".cpp:") == x.npos, "odd drop line <%.200s>", x.c_str()); CHECK(x.find(name) != x.npos, "a drop warning that does not name the sink: <%.200s>", x.c_str()); auto b = x.rfind(' ', p - 1); std::size_t c = std::stoul(x.substr(b == x.npos ? 0 : b + 1)); CHECK(c > 0, "a report of no drops"); n += c; } return n; }
struct big { char c[48]; }; template<> struct fmt::formatter<big> { constexpr auto parse(format_parse_context& c) { return c.begin(); } auto format(const big& x, format_context& c) const { return fmt::format_to(c.out(), "{}", x.c[0]); } };
int main() {
  nt::watchdog(170); nt::rng r; const std::size_t cap = XTR_SINK_CAPACITY;
  for (int round = 0; round < (nt::thorough() ? 300 : 40); ++round) {
    nt::rig g; std::size_t dropped = 0, lines = 0; int rounds = 1 + int(r(4)); std::vector<std::string> want;
    for (int k = 0; k < rounds; ++k) {
      gate t; XTR_LOG(g.s, "{}", gated{&t}); want.push_back("gate"); t.entered();
      std::size_t mode = r(5), n = mode == 4 ? r(3) : cap / 24 + 200 + r(4000);
      if (mode == 3) { // fill exactly, then drop very many
        n = cap / 8 + 70000; }
      for (std::size_t i = 0; i < n; ++i) {
        auto used = g.s.buf_.read_span().size(); bool ok;
        switch (mode == 3 ? 3 : r(3)) { case 0: XTR_TRY_LOG(g.s, "{}", i); ok = g.s.buf_.read_span().size() != used; if (ok) want.push_back(std::to_string(i)); break; case 1: { std::string s(r(90), 'a'); XTR_TRY_LOG(g.s, "{}|{}", i, s); ok = g.s.buf_.read_span().size() != used; if (ok) want.push_back(std::to_string(i) + "|" + s); } break; case 2: { big b{}; b.c[0] = 'b'; XTR_TRY_LOG(g.s, "{}", b); ok = g.s.buf_.read_span().size() != used; if (ok) want.push_back("b"); } break; default: XTR_TRY_LOG(g.s, "x"); ok = g.s.buf_.read_span().size() != used; if (ok) want.push_back("x"); }
        if (!ok) ++dropped;
      }
      t.release(); g.s.sync(); if (r(2)) { XTR_LOG(g.s, "between"); want.push_back("between"); }
    }
    // every drop is reported: the queue has been drained, so wait until the count was taken
    std::vector<std::string> l; for (int i = 0; i < 1000; ++i) { l = g.lines(); if (reported(l, "Name") >= dropped) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    CHECK(reported(l, "Name") == dropped, "%zu dropped, %zu reported", dropped, reported(l, "Name"));
    std::size_t at = 0; for (auto& x : l) if (x.find(".cpp:") != x.npos) { CHECK(at < want.size() && (nt::body(x) == want[at] || (want[at].find("|") != std::string::npos && nt::body(x) == want[at].substr(0, want[at].find("|")) + "|<truncated>")), "line %zu is <%.100s>, expected <%.100s>", at, nt::body(x).c_str(), at < want.size() ? want[at].c_str() : "nothing"); ++at; } CHECK(at == want.size(), "%zu lines for %zu accepted statements", at, want.size());
  }
  { nt::rig g; std::atomic<bool> stop{}; std::size_t d = 0; // two sinks, drops while the thread is running; blocking statements on the other
    xtr::sink o = g.log.get_sink("Other"); std::size_t n = 400000; std::thread th([&] { for (int i = 0; i < 60000; ++i) XTR_LOG(o, "blocking {}", i); }); std::size_t ok = 0;
    for (std::size_t i = 0; i < n; ++i) XTR_TRY_LOG(g.s, "t {}", i); th.join(); o.sync(); std::vector<std::string> l; std::size_t t = 0, b = 0;
    for (int k = 0; k < 1000; ++k) { XTR_LOG(g.s, "end"); l = g.lines(); t = b = 0; std::vector<std::string> w; for (auto& x : l) if (x.find("dropped") != x.npos) w.push_back(x); else if (nt::body(x).rfind("t ", 0) == 0) ++t; else if (nt::body(x).rfind("blocking ", 0) == 0) ++b; d = reported(w, "Name"); if (t + d >= n) break; std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    CHECK(b == 60000, "%zu of 60000 blocking statements", b); CHECK(t + d == n, "%zu written + %zu reported dropped of %zu", t, d, n); }
  { // drops counted while the background thread takes the count
    auto q = std::make_unique<xtr::detail::synchronized_ring_buffer<4096>>(); q->reduce_writable(q->write_span().size()); std::atomic<bool> go{}, done{}; std::size_t sum = 0; const std::size_t n = nt::thorough() ? 20000000 : 2000000;
    std::thread th([&] { go = true; while (!done) sum += q->dropped_count(); }); while (!go) ; for (std::size_t i = 0; i < n; ++i) { auto s = q->write_span<void(xtr::non_blocking_tag)>(8); CHECK(s.size() == 0, "space in a full queue"); } done = true; th.join(); sum += q->dropped_count(); CHECK(sum == n, "%zu dropped, %zu counted", n, sum); }
  { // the status total: several bursts on one sink, none on another
    nt::rig g; g.log.set_command_path("cmd"); xtr::sink o = g.log.get_sink("Other"); std::size_t d = 0;
    for (int k = 0; k < 3; ++k) { gate t; XTR_LOG(g.s, "{}", gated{&t}); t.entered(); for (int i = 0; i < 90000; ++i) { auto u = g.s.buf_.read_span().size(); XTR_TRY_LOG(g.s, "x"); if (g.s.buf_.read_span().size() == u) ++d; } t.release(); std::size_t tot = 0; for (int i = 0; i < 2000; ++i) { g.s.sync(); o.sync(); frame<status> f; std::memset(static_cast<void*>(&f->pattern), 0, sizeof f->pattern); tot = 0; for (auto& x : ask("cmd", &f, sizeof f)) { frame<sink_info> si; std::memcpy(static_cast<void*>(&si), x.data(), x.size()); if (std::string(si->name) == "Name") tot = si->dropped_count; else CHECK(si->dropped_count == 0, "drops reported for <%s>", si->name); } if (tot >= d) break; } CHECK(tot == d && d > 0, "burst %d: %zu dropped, status says %zu", k, d, tot); } }
}
