// SRC: ALL
#include "nt.hpp"
#include "xtr/detail/synchronized_ring_buffer.hpp"
using namespace xtr::detail;
template<class RB> void model(RB& b, std::size_t start, nt::rng& r, int steps) {
  // counters near any value, including wrap-around
  b.nwritten_ = start; b.wrnwritten_ = start; b.nread_plus_capacity_ = start + b.capacity(); b.wrnread_plus_capacity_ = start + b.capacity();
  std::string q; std::size_t cap = b.capacity(); unsigned char next = 0, want = 0; std::size_t drops = 0; bool known = true;
  for (int i = 0; i < steps; ++i) {
    std::size_t k = r(8), n = r(4) ? r(cap + 1) : r(64);
    if (k < 4) {
      typename RB::span s; bool nb = r(2), spec = r(2); std::size_t min = nb ? n : r(cap - q.size() + 1);
      if (nb) s = spec ? b.template write_span_spec<void(xtr::non_blocking_tag)>(min) : b.template write_span<void(xtr::non_blocking_tag)>(min); else s = spec ? b.write_span_spec(min) : b.write_span(min);
      if (nb && min > cap - q.size()) { ++drops; CHECK(s.size() == 0, "space offered although only %zu of %zu are free", cap - q.size(), min); continue; }
      CHECK(s.size() >= min && s.size() <= cap - q.size(), "offered %zu, free %zu, asked %zu", s.size(), cap - q.size(), min); if (!spec) CHECK(s.size() == cap - q.size(), "offered %zu, free %zu", s.size(), cap - q.size());
      if (s.size()) CHECK(s.begin() >= b.begin() && s.end() <= b.begin() + 2 * cap && s.begin() < b.end(), "outside the queue's memory");
      std::size_t w = r(s.size() + 1); for (std::size_t j = 0; j < w; ++j) { s.begin()[j] = std::byte(next); q += char(next); ++next; } b.reduce_writable(w);
    } else if (k < 7) {
      auto s = b.read_span(); CHECK(s.size() == q.size(), "readable %zu, published %zu", s.size(), q.size()); CHECK(s.begin() >= b.begin() && s.begin() < b.end() && s.end() <= b.begin() + 2 * cap, "outside the queue's memory");
      CHECK(std::memcmp(s.begin(), q.data(), q.size()) == 0, "bytes differ from those published"); std::size_t c = r(q.size() + 1); q.erase(0, c); want += c; b.reduce_readable(c);
    } else { if (r(3) == 0) { auto d = b.dropped_count(); CHECK(d == drops, "drop count %zu, expected %zu", d, drops); drops = 0; } if (r(40) == 0) { b.clear(); q.clear(); drops = 0; CHECK(b.read_span().size() == 0 && b.write_span().size() == cap, "clear"); } }
  }
}
template<class RB> void threads(RB& b, std::size_t total, unsigned sd) {
  std::thread p([&] { nt::rng r; r.g.seed(sd); std::size_t done = 0; unsigned char c = 0; while (done < total) { std::size_t n = std::min(total - done, 1 + r(2000)); typename RB::span s; if (r(2)) s = b.write_span(n); else s = b.write_span_spec(n); for (std::size_t i = 0; i < n; ++i) s.begin()[i] = std::byte(c++); b.reduce_writable(n); done += n; } });
  std::size_t got = 0; unsigned char c = 0; while (got < total) { auto s = b.read_span(); if (!s.size()) continue; CHECK(s.size() <= b.capacity(), "more than the capacity readable"); for (std::size_t i = 0; i < s.size(); ++i) CHECK(s.begin()[i] == std::byte(c++), "byte %zu", got + i); got += s.size(); b.reduce_readable(s.size()); }
  p.join(); CHECK(b.read_span().size() == 0, "left over");
}
int main() {
  nt::watchdog(200); nt::rng r; int n = nt::thorough() ? 200000 : 3000; const std::size_t M = std::size_t(-1);
  for (std::size_t st : {std::size_t(0), std::size_t(4095), std::size_t(65535), (std::size_t(1) << 32) - 100, (std::size_t(1) << 31) - 9000, M - 70000, M - 10, M}) {
    { synchronized_ring_buffer<4096> b; model(b, st, r, n); } { synchronized_ring_buffer<65536> b; model(b, st, r, n / 8); } { synchronized_ring_buffer<131072> b; model(b, st, r, n / 16); }
    { synchronized_ring_buffer<> b(std::size_t(1)); model(b, st, r, n); } { synchronized_ring_buffer<> b(std::size_t(5000)); model(b, st, r, n / 4); }
  }
  synchronized_ring_buffer<4096> b; threads(b, 4000000, 1); synchronized_ring_buffer<> d(std::size_t(8192)); threads(d, 4000000, 2);
}
