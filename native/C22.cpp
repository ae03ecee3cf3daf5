// SRC: ALL
// FLAGS: -fsanitize=address,undefined
#include "gate.hpp"
#include "xtr/formatters.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <unordered_map>
// an independent rendering
static std::string sh(int x) { return std::to_string(x); } static std::string sh(long x) { return std::to_string(x); } static std::string sh(char c) { return std::string(1, c); } static std::string sh(bool b) { return b ? "true" : "false"; }
template<class T> std::string sh(const std::vector<T>& c); template<class... A> std::string sh(const std::tuple<A...>& t);
template<class A, class B> std::string sh(const std::pair<A, B>& p) { return "(" + sh(p.first) + ", " + sh(p.second) + ")"; }
template<class... A> std::string sh(const std::tuple<A...>& t) { std::string s = "("; bool f = true; std::apply([&](auto&... x) { ((s += (f ? "" : ", ") + sh(x), f = false), ...); }, t); return s + ")"; }
template<class C> std::string seq(const C& c) { std::string s = "["; bool f = true; for (auto&& x : c) { if (!f) s += ", "; f = false; s += sh(x); } return s + "]"; }
template<class T> std::string sh(const std::vector<T>& c) { return seq(c); }
template<class C> std::string asc(const C& c) { std::string s = "{"; bool f = true; for (auto& [k, v] : c) { if (!f) s += ", "; f = false; s += sh(k) + ": " + sh(v); } return s + "}"; }
int main() {
  nt::watchdog(170); nt::rng r; nt::rig g; std::vector<std::string> want; int n = nt::thorough() ? 5000 : 400;
  for (int i = 0; i < n; ++i) {
    std::size_t k = r(6) ? r(5) : r(300); std::vector<int> v; std::vector<bool> b; std::list<long> l; std::set<int> s; std::deque<char> d; std::map<int, long> m; std::vector<std::pair<int, int>> vp; std::vector<std::vector<int>> vv; std::map<int, std::vector<int>> mv; std::unordered_map<int, int> um;
    for (std::size_t j = 0; j < k; ++j) { int x = int(r(1u<<31)); v.push_back(x); b.push_back(x & 1); l.push_back(x * 7L); s.insert(x); d.push_back(char('a' + r(26))); m[int(r(40))] = x; vp.emplace_back(x, int(j)); vv.emplace_back(j % 4, int(j)); mv[int(j)] = std::vector<int>(j % 3, 5); um[int(r(20))] = int(j); }
    std::array<int, 3> a{int(r(1u<<31)), 2, 3}; std::array<int, 1> a1{7}; auto pr = std::make_pair(i, 5L); auto t1 = std::make_tuple(i); auto t3 = std::make_tuple(i, 'c', std::make_pair(1, 2)); auto t5 = std::make_tuple(1, 2, 3, 4, long(i));
    XTR_LOG(g.s, "{}", v); want.push_back(sh(v)); XTR_LOG(g.s, "{}", b); want.push_back(seq(b)); XTR_LOG(g.s, "{} {}", l, s); want.push_back(seq(l) + " " + seq(s)); XTR_LOG(g.s, "{}", d); want.push_back(seq(d));
    XTR_LOG(g.s, "{}", m); want.push_back(asc(m)); XTR_LOG(g.s, "{}", vp); want.push_back(sh(vp)); XTR_LOG(g.s, "{}", vv); want.push_back(sh(vv)); XTR_LOG(g.s, "{}", mv); want.push_back(asc(mv)); XTR_LOG(g.s, "{}", um); { std::unordered_map<int, int> c(um); want.push_back(asc(c)); }
    XTR_LOG(g.s, "{} {}", a, a1); want.push_back(seq(a) + " " + seq(a1)); XTR_LOG(g.s, "{} {} {} {}", pr, t1, t3, t5); want.push_back(sh(pr) + " " + sh(t1) + " " + sh(t3) + " " + sh(t5));
  }
  auto o = g.lines(); CHECK(o.size() == want.size(), "%zu lines for %zu statements", o.size(), want.size());
  for (std::size_t i = 0; i < o.size(); ++i) { if (i % 11 == 8) { std::string x = nt::body(o[i]), y = want[i]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); CHECK(x == y && nt::body(o[i]).front() == '{', "unordered map: <%.200s>", nt::body(o[i]).c_str()); continue; } CHECK(nt::body(o[i]) == want[i], "statement %zu: got <%.200s>, expected <%.200s>", i, nt::body(o[i]).c_str(), want[i].c_str()); }
}
