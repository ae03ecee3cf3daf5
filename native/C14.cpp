// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "cmd.hpp"
#include "gate.hpp"
#include <fnmatch.h>
#include <regex.h>
#include <algorithm>
static bool valid(const pattern& p) { if (p.type == pattern_type_t::extended_regex || p.type == pattern_type_t::basic_regex) { regex_t x; int e = regcomp(&x, p.text, REG_NOSUB | (p.type == pattern_type_t::extended_regex ? REG_EXTENDED : 0) | (p.ignore_case ? REG_ICASE : 0)); if (!e) regfree(&x); return e == 0; } return true; }
static bool match(const pattern& p, const std::string& n) { switch (p.type) { case pattern_type_t::wildcard: return fnmatch(p.text, n.c_str(), p.ignore_case ? FNM_CASEFOLD : 0) == 0; case pattern_type_t::extended_regex: case pattern_type_t::basic_regex: { regex_t x; if (regcomp(&x, p.text, REG_NOSUB | (p.type == pattern_type_t::extended_regex ? REG_EXTENDED : 0) | (p.ignore_case ? REG_ICASE : 0))) return false; bool m = regexec(&x, n.c_str(), 0, nullptr, 0) == 0; regfree(&x); return m; } default: return true; } }
static const char* pats[] = {"", "*", "S1*", "s*", "S?", "[AB]*", "S(1|2)", "^S1", "S1$", "a|B", "(", "[", "*a", "a{2}", "control", ".", "S[0-9]+", "\\(", "x*", "S1", "?"}; static const char* names[] = {"S1", "S12", "s2", "Alpha", "beta", "control", "aa", "B", "", "S3", "logger", "Z(9)"};
int main() {
  nt::watchdog(170); nt::rng r; if (!std::freopen("/dev/null", "w", stderr)) return 0; int n = nt::thorough() ? 20000 : 2500;
  nt::rig g; g.s.close(); g.log.set_command_path("cmd"); std::vector<std::pair<std::string, xtr::sink>> ss; for (auto& x : names) ss.emplace_back(x, g.log.get_sink(x)); ss.emplace_back(std::string(200, 'L'), g.log.get_sink(std::string(200, 'L'))); { std::string full(sizeof(pattern::text) - 1, 'S'); ss.emplace_back(full, g.log.get_sink(full)); } ss[0].second.sync();
  auto ctl = [&] { return int(g.log.control_.level()); }; int ctl0 = ctl();
  for (int k = 0; k < n; ++k) {
    pattern p; std::memset(&p, 0, sizeof p); p.type = pattern_type_t(int(r(4))); if (r(40) == 0) p.type = pattern_type_t(int(r(1000)) - 500); p.ignore_case = static_cast<unsigned char>(r(3) ? r(2) : r(256)); std::snprintf(p.text, sizeof p.text, "%s", r(5) ? pats[r(std::size(pats))] : names[r(std::size(names))]); bool unterminated = r(25) == 0; if (unterminated) { std::memset(p.text, r(2) ? 'S' : '*', sizeof p.text); } pattern q = p; q.text[sizeof q.text - 1] = 0;
    if (r(3) == 0 && k > 20) { auto i = r(ss.size()); auto nm = ss[i].first; ss[i].second.close(); if (r(2) && nm.size() < 200) ss.erase(ss.begin() + long(i)); else g.log.register_sink(ss[i].second, nm); if (ss.size() < 5) ss.emplace_back("S1", g.log.get_sink("S1")); ss[0].second.sync(); }
    std::vector<int> before; for (auto& s : ss) before.push_back(int(s.second.level()));
    if (r(2)) { frame<set_level> f; f->level = xtr::log_level_t(r(6) ? int(r(6)) : int(r(1000)) - 500); f->pattern = p; int lv = int(f->level); auto a = ask("cmd", &f, sizeof f); CHECK(a.size() == 1, "%zu replies to set-level", a.size()); bool ok = lv >= 0 && lv <= 5 && valid(q); CHECK((idof(a[0]) == success::frame_id) == ok, "level %d, pattern <%.40s> type %d was %s", lv, q.text, int(q.type), ok ? "refused" : "accepted"); if (!ok) (void)reason(a[0]); for (std::size_t i = 0; i < ss.size(); ++i) { int w = ok && match(q, ss[i].first) ? lv : before[i]; CHECK(int(ss[i].second.level()) == w, "level %d, pattern <%.40s> type %d icase %d: sink <%.30s> has level %d instead of %d", lv, q.text, int(q.type), int(q.ignore_case), ss[i].first.c_str(), int(ss[i].second.level()), w); } CHECK(ctl() == ctl0, "the control sink was affected"); }
    else { frame<status> f; f->pattern = p; std::vector<std::string> drop; auto a = ask("cmd", &f, sizeof f); if (!valid(q)) { CHECK(a.size() == 1, "%zu replies to a bad pattern", a.size()); (void)reason(a[0]); continue; } std::vector<std::string> got, want; for (auto& x : a) { CHECK(x.size() == sizeof(frame<sink_info>) && idof(x) == sink_info::frame_id, "odd status reply"); frame<sink_info> si; std::memcpy(static_cast<void*>(&si), x.data(), x.size()); CHECK(std::memchr(si->name, 0, sizeof si->name), "a name without end"); CHECK(si->buf_capacity == XTR_SINK_CAPACITY && si->buf_nbytes == 0 && si->dropped_count == 0, "capacity %zu, used %zu, dropped %zu", si->buf_capacity, si->buf_nbytes, si->dropped_count); got.push_back(std::string(si->name) + "/" + std::to_string(int(si->level))); } for (std::size_t i = 0; i < ss.size(); ++i) if (match(q, ss[i].first)) want.push_back(ss[i].first.substr(0, 127) + "/" + std::to_string(int(ss[i].second.level()))); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); CHECK(got == want, "pattern <%.40s> type %d: %zu entries, %zu sinks match", q.text, int(q.type), got.size(), want.size()); }
  }
  { // used bytes and drop totals belong to their own sinks
    auto& a = ss[0].second; auto& b = ss[1].second; gate t; XTR_LOG(a, "{}", gated{&t}); t.entered(); std::size_t d = 0; for (int i = 0; i < 90000; ++i) { auto u = a.buf_.read_span().size(); XTR_TRY_LOG(a, "x"); if (a.buf_.read_span().size() == u) ++d; } t.release(); for (int i = 0; i < 200; ++i) { a.sync(); b.sync(); } frame<status> f; std::memset(static_cast<void*>(&f->pattern), 0, sizeof f->pattern); std::size_t tot = 0; auto l = ask("cmd", &f, sizeof f); for (auto& x : l) { frame<sink_info> si; std::memcpy(static_cast<void*>(&si), x.data(), x.size()); CHECK(std::string(si->name) == ss[0].first.substr(0, 127) || si->dropped_count == 0, "drops reported for <%s>", si->name); tot += si->dropped_count; } CHECK(tot == d && d > 0, "%zu dropped, status says %zu", d, tot); }
}
