// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "gate.hpp"
#include <new>
static thread_local bool counting = false; static thread_local std::size_t allocs = 0;
void* operator new(std::size_t n) { if (counting) ++allocs; if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
static std::string rnd(nt::rng& r, std::size_t n) { std::string s(n, 0); for (auto& c : s) c = char('!' + r(90)); for (auto& c : s) if (c == '\\') c = 'x'; return s; }
int main() {
  nt::watchdog(170); nt::rng r; const std::size_t cap = XTR_SINK_CAPACITY; int n = nt::thorough() ? 20000 : 1500;
  { nt::rig g; std::vector<std::string> want; // copied whole at the call, in its own position, without allocating
    for (int i = 0; i < n; ++i) {
      std::string a = rnd(r, r(4) ? r(60) : r(3000)), b = rnd(r, r(100)), c = rnd(r, r(8) ? r(9) : r(cap / 4)); std::string_view v(b); const char* p = c.c_str(); const char arr[] = "array";
      counting = true; allocs = 0;
      switch (r(5)) {
        case 0: XTR_LOG(g.s, "{}|{}|{}", a, v, p); counting = false; want.push_back(a + "|" + b + "|" + c); break;
        case 1: XTR_LOG(g.s, "{}|{}|{}|{}", 1, p, v, i); counting = false; want.push_back("1|" + c + "|" + b + "|" + std::to_string(i)); break;
        case 2: XTR_LOG(g.s, "{}|{}", v, arr); counting = false; want.push_back(b + "|array"); break;
        case 3: XTR_LOG(g.s, "{}", a); counting = false; want.push_back(a); break;
        case 4: XTR_LOG(g.s, "{}|{}|{}|{}", p, 'c', a, 2.5); counting = false; want.push_back(c + "|c|" + a + "|2.5"); break;
      }
      counting = false; CHECK(allocs == 0, "the log call allocated memory %zu times", allocs); std::fill(a.begin(), a.end(), '#'); std::fill(b.begin(), b.end(), '#'); std::fill(c.begin(), c.end(), '#');
    }
    auto l = g.lines(); CHECK(l.size() == want.size(), "%zu lines for %zu statements", l.size(), want.size()); for (std::size_t i = 0; i < l.size(); ++i) CHECK(nt::body(l[i]) == want[i], "statement %zu: got <%.200s>, expected <%.200s>", i, nt::body(l[i]).c_str(), want[i].c_str());
  }
  { // a string that cannot fit in the queue is replaced by the marker; sizes around the limit
    std::vector<std::string> want; nt::rig g; for (std::size_t n : {cap * 2, cap + 8, cap + 1, cap, cap - 1, cap - 7, cap - 8, cap - 9, cap - 16, cap - 24, cap - 32, cap - 40, cap - 48, cap - 56, cap - 64, cap - 100, cap - 200, cap - 500}) {
      std::string s(n, 'z'); XTR_LOG(g.s, "{}|{}|{}", s, 7, "tail"); XTR_LOG(g.s, "next"); auto l = g.lines(); CHECK(l.size() == 2, "%zu lines", l.size()); std::string b = nt::body(l[0]);
      bool full = b == s + "|7|tail", cutt = b == s + "|7|<truncated>", cut = b == "<truncated>|7|tail"; CHECK(full || cut || cutt, "string of %zu bytes: <%.60s...>", n, b.c_str()); if (n > cap) CHECK(cut, ""); if (n + 500 <= cap) CHECK(full, "a string of %zu bytes fits but was cut", n); CHECK(nt::body(l[1]) == "next", "following statement"); g.clear(); }
  }
  { // a string that exactly fills what the queue has left is whole; one byte more is replaced
    nt::rig g; auto rec = [&](auto f) { gate t; XTR_LOG(g.s, "{}", gated{&t}); t.entered(); auto u = g.s.buf_.read_span().size(); f(); auto d = g.s.buf_.read_span().size() - u; t.release(); g.s.sync(); g.clear(); return d; };
    std::string e; std::size_t base = rec([&] { XTR_LOG(g.s, "{}|{}", e, e); });
    for (int k = 0; k < 6; ++k) for (int extra : {0, 1}) { std::string a(cap - base + std::size_t(extra), 'f'); std::string_view v(a); const char* p = a.c_str();
      switch (k) { case 0: XTR_LOG(g.s, "{}|{}", a, e); break; case 1: XTR_LOG(g.s, "{}|{}", v, e); break; case 2: XTR_LOG(g.s, "{}|{}", p, e); break; case 3: g.s.sync(); XTR_TRY_LOG(g.s, "{}|{}", a, e); break; case 4: g.s.sync(); XTR_TRY_LOG(g.s, "{}|{}", v, e); break; default: g.s.sync(); XTR_TRY_LOG(g.s, "{}|{}", p, e); }
      auto l = g.lines(); CHECK(l.size() == 1, "%zu lines", l.size()); bool whole = nt::body(l[0]) == a + "|"; if (!extra) CHECK(whole || (k >= 3 && nt::body(l[0]) == "<truncated>|" ), "a string of %zu bytes exactly fills the queue (kind %d) but came out as <%.40s>", a.size(), k, nt::body(l[0]).c_str()); else CHECK(nt::body(l[0]) == "<truncated>|", "one byte too long (kind %d): <%.40s>", k, nt::body(l[0]).c_str()); g.clear(); }
    for (int k = 0; k < 3; ++k) for (int extra : {0, 1}) { gate t; XTR_LOG(g.s, "{}", gated{&t}); t.entered(); std::string f(64, 'f'); while (cap - g.s.buf_.read_span().size() > 400 + r(300)) XTR_TRY_LOG(g.s, "{}", f); std::size_t left = cap - g.s.buf_.read_span().size(); std::string a(left - base + std::size_t(extra), 'g'); std::string_view v(a);
      if (k == 0) XTR_TRY_LOG(g.s, "{}|{}", a, e); else if (k == 1) XTR_TRY_LOG(g.s, "{}|{}", v, e); else XTR_TRY_LOG(g.s, "{}|{}", a.c_str(), e); t.release(); auto l = g.lines(); auto b = nt::body(l.back()); if (!extra) CHECK(b == a + "|", "a string that exactly fills the %zu bytes left (kind %d) came out as <%.40s>", left, k, b.c_str()); else CHECK(b == "<truncated>|", "one byte too long (kind %d): <%.40s>", k, b.c_str()); g.clear(); }
  }
  for (int round = 0; round < (nt::thorough() ? 200 : 24); ++round) { // non-blocking logging with the queue nearly full: whole, marker or dropped
    nt::rig g; gate t; XTR_LOG(g.s, "{}", gated{&t}); t.entered(); std::vector<std::string> want{"gate"}; std::size_t used = 0, fill = 32;
    std::string pad(fill, 'p'); while (used + 400 < cap) { XTR_TRY_LOG(g.s, "{}", pad); want.push_back(pad); used += 64; if (r(50) == 0) { std::string q(r(3000), 'q'); if (used + q.size() + 500 < cap) { XTR_TRY_LOG(g.s, "{}", q); want.push_back(q); used += q.size() + 64; } } }
    std::size_t before = want.size(); std::vector<std::pair<std::string, std::string>> t2; for (int k = 0; k < 60; ++k) { std::string a = rnd(r, r(120)), b = rnd(r, r(40)); XTR_TRY_LOG(g.s, "{}|{}|{}", a, k, std::string_view(b)); t2.emplace_back(a, b); }
    t.release(); auto l = g.lines(); std::size_t at = 0; for (; at < before; ++at) { CHECK(at < l.size() && nt::body(l[at]) == want[at], "line %zu: <%.80s>", at, at < l.size() ? nt::body(l[at]).c_str() : "missing"); }
    int k = 0; for (; at < l.size(); ++at) { std::string b = nt::body(l[at]); if (l[at].find(".cpp:") == std::string::npos) continue; bool ok = false; for (; k < 60 && !ok; ++k) { auto K = "|" + std::to_string(k) + "|"; for (auto& x : {t2[k].first, std::string("<truncated>")}) for (auto& y : {t2[k].second, std::string("<truncated>")}) if (b == x + K + y) ok = true; } CHECK(ok, "unexpected line <%.200s>", b.c_str()); }
  }
}
