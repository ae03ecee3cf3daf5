// SRC: ALL
// FLAGS: -fsanitize=undefined
#include "nt.hpp"
#include "xtr/detail/tsc.hpp"
#include "xtr/timespec.hpp"
#include <fmt/chrono.h>
template<typename Rep, typename Per> struct anyclk { using duration = std::chrono::duration<Rep, Per>; using rep = Rep; using period = Per; using time_point = std::chrono::time_point<anyclk>; Rep v; time_point now() const { return time_point(duration(v)); } };
static std::string expect(std::int64_t sec, long nsec) { std::time_t t = sec; std::tm tm; ::gmtime_r(&t, &tm); char b[80]; std::size_t n = std::strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); std::snprintf(b + n, sizeof b - n, ".%06ld", nsec / 1000); return b; }
template<typename C> static void clock_is(xtr::logger& l, C c, __int128 nanos) { auto f = l.make_clock(c); auto t = f(); CHECK(t.tv_nsec >= 0 && t.tv_nsec <= 999999999, "nanosecond part %ld", t.tv_nsec); CHECK(__int128(t.tv_sec) * 1000000000 + t.tv_nsec == nanos, "%lld ns denoted as %lld s %ld ns", (long long)nanos, (long long)t.tv_sec, t.tv_nsec); }
int main() {
  nt::watchdog(170); nt::rng r; int n = nt::thorough() ? 400000 : 40000; nt::rig g;
  auto some = [&](std::int64_t lim) { std::int64_t v; switch (r(4)) { case 0: v = std::int64_t(r(7)) - 3; break; case 1: v = (std::int64_t(r(400)) - 200) * 1000000000LL + std::int64_t(r(5)) - 2; break; default: v = std::int64_t(r.g()); } return lim ? v % lim : v; };
  for (int i = 0; i < n; ++i) { auto a = some(0); if (a > INT64_MIN + 2000000000LL) clock_is(g.log, anyclk<std::int64_t, std::nano>{a}, a); auto b = some(4000000000000000LL); clock_is(g.log, anyclk<std::int64_t, std::micro>{b}, __int128(b) * 1000); auto c = some(4000000000000LL); clock_is(g.log, anyclk<std::int64_t, std::milli>{c}, __int128(c) * 1000000); auto d = some(9000000000LL); clock_is(g.log, anyclk<std::int64_t, std::ratio<1>>{d}, __int128(d) * 1000000000); auto e = some(90000000000LL); clock_is(g.log, anyclk<std::int64_t, std::ratio<1, 10>>{e}, __int128(e) * 100000000); auto m = some(100000000LL); clock_is(g.log, anyclk<std::int64_t, std::ratio<60>>{m}, __int128(m) * 60000000000LL); }
  for (int i = 0; i < n; ++i) { std::int64_t s = some(250000000000LL); if (s < -30000000000LL) s = -s % 250000000000LL; long ns = long(r(3) ? r(1000000000) : r(2) ? r(1000) : 999999000 + r(1000)); std::timespec t{}; t.tv_sec = s; t.tv_nsec = ns; auto x = fmt::format("{}", xtr::timespec{t}); CHECK(x == expect(s, ns), "%lld s %ld ns printed as %s, expected %s", (long long)s, ns, x.c_str(), expect(s, ns).c_str()); }
  // messages: own timestamps, and the clock's reading
  for (int i = 0; i < 400; ++i) { std::int64_t s = some(4000000000LL); long ns = long(r(1000000000)); std::timespec t{}; t.tv_sec = s; t.tv_nsec = ns; g.t = s * 1000000000LL + ns; g.clear(); XTR_LOG_TS(g.s, (xtr::timespec{t}), "x"); g.s.sync(); XTR_LOG(g.s, "y"); auto l = g.lines(); CHECK(l.size() == 2, "lines"); CHECK(l[0].find(expect(s, ns)) == 2, "<%.60s> for %s", l[0].c_str(), expect(s, ns).c_str()); CHECK(l[1].find(expect(s, ns)) == 2, "clock reading %s printed as <%.60s>", expect(s, ns).c_str(), l[1].c_str()); }
  // CPU counter
  auto wall = [] { std::timespec t; ::clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; };
  for (int i = 0; i < 30; ++i) std::thread([&] { auto c = xtr::detail::tsc::now(); auto w = wall(); auto t = xtr::detail::tsc::to_timespec(c); auto d = t.tv_sec * 1000000000LL + t.tv_nsec - w; CHECK(d > -50000000 && d < 50000000, "a thread's first conversion is %lld ns off the wall clock", (long long)d); }).join();
  for (int i = 0; i < n; ++i) { xtr::detail::tsc c = xtr::detail::tsc::now(); std::uint64_t hz = xtr::detail::get_tsc_hz(); switch (r(4)) { case 0: c.ticks -= r(hz); break; case 1: c.ticks += r(hz * 50); break; case 2: c.ticks -= r(hz * 3600); break; default: break; } auto t = xtr::detail::tsc::to_timespec(c); CHECK(t.tv_nsec >= 0 && t.tv_nsec <= 999999999, "nanosecond part %ld", t.tv_nsec); }
  { auto w = wall(); XTR_LOG_TSC(g.s, "tsc"); XTR_LOG_RTC(g.s, "rtc"); auto l = g.lines(); CHECK(l.size() >= 2, "lines"); auto d0 = expect(w / 1000000000 - 1, 0).substr(0, 16), d1 = expect(w / 1000000000 + 1, 0).substr(0, 16); for (std::size_t i = l.size() - 2; i < l.size(); ++i) CHECK(l[i].find(d0) == 2 || l[i].find(d1) == 2, "<%.60s> at %s", l[i].c_str(), d0.c_str()); }
}
