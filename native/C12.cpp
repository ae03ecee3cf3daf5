// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "nt.hpp"
#include <sys/wait.h>
#include <map>
using L = xtr::log_level_t;
static int evals = 0; static int ev(int v) { ++evals; return v; }
template<typename F> static void each(nt::rig& g, L sl, L stmt, bool always, F f) { g.s.set_level(sl); g.clear(); evals = 0; f(); bool want = always || int(stmt) <= int(sl); CHECK(evals == (want ? 1 : 0), "sink level %d, statement level %d: arguments evaluated %d times", int(sl), int(stmt), evals); auto l = g.lines(); CHECK(l.size() == (want ? 1u : 0u), "sink level %d, statement level %d: %zu lines", int(sl), int(stmt), l.size()); if (want) { CHECK(nt::body(l[0]) == "v 7", "<%.100s>", l[0].c_str()); const char* pre = always ? "I " : stmt == L::fatal ? "F " : stmt == L::error ? "E " : stmt == L::warning ? "W " : stmt == L::info ? "I " : "D "; CHECK(l[0].rfind(pre, 0) == 0, "prefix of <%.60s>", l[0].c_str()); } }
#define ALLOF(lv, LV) \
  each(g, sl, L::LV, false, [&] { XTR_LOGL(lv, g.s, "v {}", ev(7)); }); each(g, sl, L::LV, false, [&] { XTR_TRY_LOGL(lv, g.s, "v {}", ev(7)); }); \
  each(g, sl, L::LV, false, [&] { XTR_LOGL_TSC(lv, g.s, "v {}", ev(7)); }); each(g, sl, L::LV, false, [&] { XTR_LOGL_RTC(lv, g.s, "v {}", ev(7)); }); \
  each(g, sl, L::LV, false, [&] { XTR_LOGL_TS(lv, g.s, xtr::timespec{}, "v {}", ev(7)); }); each(g, sl, L::LV, false, [&] { XTR_TRY_LOGL_TS(lv, g.s, xtr::timespec{}, "v {}", ev(7)); }); \
  each(g, sl, L::LV, false, [&] { XTR_TRY_LOGL_TSC(lv, g.s, "v {}", ev(7)); }); each(g, sl, L::LV, false, [&] { XTR_TRY_LOGL_RTC(lv, g.s, "v {}", ev(7)); });
int main() {
  nt::watchdog(170);
  { nt::rig g; for (int i = 0; i <= 5; ++i) { L sl = L(i); ALLOF(error, error) ALLOF(warning, warning) ALLOF(info, info) ALLOF(debug, debug)
      each(g, sl, L::info, true, [&] { XTR_LOG(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_TRY_LOG(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_LOG_TSC(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_LOG_RTC(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_LOG_TS(g.s, xtr::timespec{}, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_TRY_LOG_TSC(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_TRY_LOG_RTC(g.s, "v {}", ev(7)); }); each(g, sl, L::info, true, [&] { XTR_TRY_LOG_TS(g.s, xtr::timespec{}, "v {}", ev(7)); }); } }
  for (int i = 0; i <= 5; ++i) for (int k = 0; k < 8; ++k) { // fatal: logged when the level permits, then the program ends
      int p[2]; if (::pipe(p)) return 0; std::fflush(nullptr); pid_t c = ::fork();
      if (c == 0) { ::close(p[0]); ::signal(SIGABRT, SIG_DFL); nt::rig* g = new nt::rig; int fd = p[1]; g->m->onsync = [g, fd] { std::scoped_lock l{g->m->m}; std::string t = g->m->text + "\1"; (void)!::write(fd, t.data(), t.size()); }; g->s.set_level(L(i)); switch (k) { case 0: XTR_LOGL(fatal, g->s, "v {}", 7); break; case 1: XTR_TRY_LOGL(fatal, g->s, "v {}", 7); break; case 2: XTR_LOGL_TSC(fatal, g->s, "v {}", 7); break; case 3: XTR_LOGL_RTC(fatal, g->s, "v {}", 7); break; case 4: XTR_LOGL_TS(fatal, g->s, xtr::timespec{}, "v {}", 7); break; case 5: XTR_TRY_LOGL_TSC(fatal, g->s, "v {}", 7); break; case 6: XTR_TRY_LOGL_RTC(fatal, g->s, "v {}", 7); break; case 7: XTR_TRY_LOGL_TS(fatal, g->s, xtr::timespec{}, "v {}", 7); } ::_exit(0); }
      ::close(p[1]); std::string t; char b[4096]; for (ssize_t n; (n = ::read(p[0], b, sizeof b)) > 0;) t.append(b, std::size_t(n)); ::close(p[0]); int st; ::waitpid(c, &st, 0); CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "level %d, macro %d: a fatal statement did not abort (status %x)", i, k, st); CHECK(!t.empty() && t.back() == '\1', "level %d, macro %d: not synchronised before terminating", i, k); if (i >= 1) CHECK(t.find("v 7\n") != t.npos && t[0] == 'F', "level %d, macro %d: fatal statement not logged: <%.100s>", i, k, t.c_str()); }
  // names and styles
  std::map<std::string, L> m{{"none", L::none}, {"fatal", L::fatal}, {"error", L::error}, {"warning", L::warning}, {"info", L::info}, {"debug", L::debug}}; auto rejects = [](const std::string& s) { try { (void)xtr::log_level_from_string(s); return false; } catch (const std::invalid_argument&) { return true; } };
  for (auto& [k, v] : m) { CHECK(xtr::log_level_from_string(k) == v, "%s", k.c_str()); for (std::size_t i = 0; i < k.size(); ++i) { CHECK(rejects(k.substr(0, i)), "prefix %s", k.substr(0, i).c_str()); for (int c = 0; c < 256; ++c) { std::string x = k; x[i] = char(c); if (x != k) CHECK(rejects(x), "<%s> accepted", x.c_str()); } } CHECK(rejects(k + "x") && rejects(k + " ") && rejects(" " + k) && rejects(k + std::string(1, 0)), "%s with a suffix", k.c_str()); }
  const char* st[] = {"", "F ", "E ", "W ", "I ", "D "}; const char* sy[] = {"<0>", "<0>", "<3>", "<4>", "<6>", "<7>"}; for (int i = 0; i < 6; ++i) { CHECK(std::string(xtr::default_log_level_style(L(i))) == st[i], "default style of %d is <%s>", i, xtr::default_log_level_style(L(i))); CHECK(i == 0 || std::string(xtr::systemd_log_level_style(L(i))) == sy[i], "systemd style of %d is <%s>", i, xtr::systemd_log_level_style(L(i))); }
}
