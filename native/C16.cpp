// SRC: ALL
// FLAGS: -O1
// Mapping calls fail at every possible point; what is mapped is tracked page by page.
#include "nt.hpp"
#include "xtr/detail/mirrored_memory_mapping.hpp"
#include "xtr/detail/memory_mapping.hpp"
#include "xtr/detail/pagesize.hpp"
#include <cerrno>
#include <map>
#include <system_error>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
using xtr::detail::mirrored_memory_mapping; using xtr::detail::memory_mapping;
static bool on; static long failat = -1, calls; static int ferr; static std::map<std::uintptr_t, int> pages; static std::size_t P; static long bad; static char why[256];
static bool fails() { if (on && calls++ == failat) { errno = ferr; return true; } return false; }
static void mapped(void* p, std::size_t n) { if (on) for (std::size_t i = 0; i < n; i += P) pages[std::uintptr_t(p) + i] = 1; }
static void unmapped(void* p, std::size_t n, bool must) { if (!on) return; for (std::size_t i = 0; i < (n + P - 1) / P * P; i += P) { auto it = pages.find(std::uintptr_t(p) + i); if (it == pages.end()) { if (must && !bad) { bad = 1; std::snprintf(why, sizeof why, "a page that is not mapped is unmapped"); } } else pages.erase(it); } }
extern "C" void* mmap(void* a, std::size_t n, int pr, int fl, int fd, off_t o) noexcept { if (fails()) return MAP_FAILED; if (on && (fl & MAP_FIXED)) for (std::size_t i = 0; i < n; i += P) if (!pages.count(std::uintptr_t(a) + i)) { bad = 1; std::snprintf(why, sizeof why, "a fixed mapping over pages not reserved"); } void* p = reinterpret_cast<void*>(::syscall(SYS_mmap, a, n, pr, fl, fd, o)); if (p != MAP_FAILED) mapped(p, n); return p; }
extern "C" int munmap(void* a, std::size_t n) noexcept { int r = int(::syscall(SYS_munmap, a, n)); unmapped(a, n, true); return r; }
extern "C" void* mremap(void* a, std::size_t o, std::size_t n, int fl, ...) noexcept { va_list v; va_start(v, fl); void* t = (fl & MREMAP_FIXED) ? va_arg(v, void*) : nullptr; va_end(v); if (fails()) return MAP_FAILED; void* p = reinterpret_cast<void*>(::syscall(SYS_mremap, a, o, n, fl, t)); if (p != MAP_FAILED) { if (o && p != a) unmapped(a, o, true); mapped(p, n); } return p; }
static void mirror(mirrored_memory_mapping& m, std::size_t len, nt::rng& r) { CHECK(bool(m) && m.length() == len, "length %zu", m.length()); auto* b = static_cast<volatile unsigned char*>(m.get()); for (int i = 0; i < 400; ++i) { std::size_t k = r(len); auto v = static_cast<unsigned char>(r(256)); if (r(2)) { b[k] = v; CHECK(b[k + len] == v, "byte %zu is not mirrored", k); } else { b[k + len] = v; CHECK(b[k] == v, "byte %zu is not mirrored back", k); } } for (std::size_t k = 0; k < len; k += P) { b[k] = static_cast<unsigned char>(k / P + 1); } for (std::size_t k = 0; k < len; k += P) CHECK(b[k + len] == static_cast<unsigned char>(k / P + 1), "page %zu", k / P); }
static void none(const char* w) { on = false; CHECK(pages.empty(), "%s: %zu pages stay mapped", w, pages.size()); CHECK(!bad, "%s: %s", w, why); on = true; }
int main() {
  nt::watchdog(170); nt::rng r; P = std::size_t(::sysconf(_SC_PAGESIZE)); int fd = int(::syscall(SYS_memfd_create, "x", 0)); if (::ftruncate(fd, long(P) * 64)) return 0;
  on = true; calls = 0;
  for (std::size_t k : {1, 2, 3, 5, 16}) for (int wf = 0; wf < 2; ++wf) { std::size_t len = k * P; { mirrored_memory_mapping m(len, wf ? fd : -1, wf ? P * r(8) : 0); on = false; CHECK(pages.size() == 2 * k, "%zu pages mapped for 2*%zu", pages.size(), k); on = true; mirror(m, len, r); } none("destruction"); }
  for (std::size_t len : {std::size_t(1), P - 1, P + 1, 3 * P + 17, 2 * P - 8}) { bool t = false; try { mirrored_memory_mapping m(len); } catch (const std::invalid_argument&) { t = true; } CHECK(t, "length %zu accepted", len); none("refused length"); }
  for (int wf = 0; wf < 2; ++wf) for (int e : {ENOMEM, EINVAL, EAGAIN, EPERM}) for (long f = 0; f < 8; ++f) { calls = 0; failat = f; ferr = e; bool t = false; try { mirrored_memory_mapping m(4 * P, wf ? fd : -1); failat = -1; mirror(m, 4 * P, r); } catch (const std::system_error& x) { t = true; CHECK(x.code().value() == e, "error %d reported for %d", x.code().value(), e); } failat = -1; CHECK(t == (f < calls && calls <= f + 1) || !t, "?"); if (f < 3) CHECK(t, "a failing step %ld (of %ld) was not reported", f, calls); none("failed construction"); }
  for (int i = 0; i < 300; ++i) { { std::vector<mirrored_memory_mapping> v; std::vector<std::size_t> want; for (std::size_t q = 0; q < 6; ++q) { if (r(3)) { v.emplace_back((1 + q) * P); want.push_back(1 + q); } else { v.emplace_back(); want.push_back(0); } } for (int q = 0; q < 12; ++q) { std::size_t a = r(v.size()), b = r(v.size()); switch (r(4)) { case 3: { auto& s = v[a]; v[a] = std::move(s); if (!v[a]) want[a] = 0; break; } case 0: if (a != b) { using std::swap; swap(v[a], v[b]); swap(want[a], want[b]); } break; case 1: { mirrored_memory_mapping t(std::move(v[a])); CHECK(!v[a], "the source of a move still owns"); if (t) mirror(t, t.length(), r); v[a] = std::move(t); break; } case 2: { mirrored_memory_mapping t((7 + a) * P); v[b] = std::move(t); want[b] = 7 + a; } } } for (std::size_t q = 0; q < v.size(); ++q) { CHECK(bool(v[q]) == (want[q] != 0), "ownership lost"); if (want[q]) { CHECK(v[q].length() == want[q] * P, "wrong mapping"); mirror(v[q], want[q] * P, r); } } } none("moves and swaps"); }
  for (int i = 0; i < 200; ++i) { { auto mk = [&](std::size_t k) { return memory_mapping(nullptr, k * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS); }; memory_mapping a = mk(1 + r(5)), b = mk(1 + r(5)), c; void* pa = a.get(); std::size_t la = a.length(); c = std::move(a); CHECK(c.get() == pa && c.length() == la, "moved mapping"); static_cast<char*>(c.get())[la - 1] = 1; swap(b, c); CHECK(b.get() == pa && b.length() == la, "swapped mapping"); static_cast<char*>(b.get())[0] = 2; switch (r(3)) { case 0: b.reset(); CHECK(!b, "reset"); break; case 1: { memory_mapping d(std::move(b)); CHECK(!b && d.get() == pa, "move"); break; } case 2: { void* q = c.get(); std::size_t l = c.length(); c.release(); b.reset(q, l); CHECK(b.get() == q, "reset to another"); } } } none("memory_mapping"); }
  { std::size_t L = 64 * P; for (int i = 0; i < 50; ++i) { mirrored_memory_mapping a(L), b(L); static_cast<char*>(a.get())[5] = 1; static_cast<char*>(b.get())[5] = 2; CHECK(static_cast<char*>(a.get())[5 + L] == 1, "two mappings share memory"); } none("two mappings"); }
  on = false;
}
