// SRC: ALL
// FLAGS: -fsanitize=thread -O2
#include "nt.hpp"
#include "xtr/detail/synchronized_ring_buffer.hpp"
using namespace xtr::detail;
int main() {
  nt::watchdog(200); synchronized_ring_buffer<4096> b; const int N = 20000;
  std::thread p([&] { for (int i = 0; i < N; ++i) { auto s = b.write_span(64); for (int k = 0; k < 64; ++k) s.begin()[k] = std::byte(i); b.reduce_writable(64); if (i % 5 == 0) b.write_span<void(xtr::non_blocking_tag)>(4096); } });
  std::size_t got = 0, d = 0; unsigned sum = 0; while (got < std::size_t(N) * 64) { auto s = b.read_span(); for (auto& x : s) sum += unsigned(x); got += s.size(); b.reduce_readable(s.size()); d += b.dropped_count(); } p.join(); std::printf("%u %zu\n", sum, d);
}
