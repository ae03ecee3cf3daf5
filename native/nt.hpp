// Helpers of the replay programs: they run the real code on concrete inputs; exit 0 if the property held on all of them.
#pragma once
#include "xtr/logger.hpp"
#include "xtr/formatters.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <mutex>
#include <random>
#include <span>
#include <string>
#include <string_view>
#include <thread>
#include <vector>
#include <unistd.h>
#define CHECK(c, ...) do { if (!(c)) nt::die(__LINE__, #c, __VA_ARGS__); } while (0)
namespace nt {
[[noreturn]] inline void die(int line, const char* what, const char* f = "", ...) {
  std::fprintf(stderr, "FAILED at line %d: %s -- ", line, what); va_list a; va_start(a, f); std::vfprintf(stderr, f, a); va_end(a); std::fprintf(stderr, "\n"); va_start(a, f); std::printf("FAILED at line %d: %s -- ", line, what); std::vprintf(f, a); va_end(a); std::printf("\n"); std::fflush(nullptr); ::_exit(1); }
inline void onalarm(int) { static const char m[] = "FAILED: the program hangs\n"; (void)!::write(2, m, sizeof(m) - 1); ::_exit(1); }
inline void watchdog(unsigned s) { std::signal(SIGALRM, onalarm); ::alarm(s); }
inline unsigned seed() { const char* e = std::getenv("VERIF_SEED"); return e ? unsigned(std::atoi(e)) : 1u; }
inline bool thorough() { const char* e = std::getenv("VERIF_TIER"); return e && std::string_view(e) == "thorough"; }
struct rng { std::mt19937_64 g{seed()}; std::size_t operator()(std::size_t n) { return n ? std::size_t(g() % n) : 0; } };
struct clk { using rep = std::int64_t; using period = std::nano; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<clk>; time_point now() const noexcept { return time_point(duration(t->load())); } std::atomic<std::int64_t>* t; };
// A back-end that records what it is given; sizes() chooses the size of the next buffer.
struct mem : xtr::storage_interface {
  struct shared { std::mutex m; std::string text; std::vector<std::string> ev; std::function<std::size_t()> sizes = [] { return std::size_t(65536); }; std::atomic<std::size_t> flushes{}, syncs{}, submits{}, reopens{}; std::atomic<bool> gone{}; std::string bad; std::function<void()> onsubmit, onsync; std::function<int()> onreopen = [] { return 0; }; };
  std::shared_ptr<shared> s; std::unique_ptr<char[]> buf; std::size_t cap = 0; bool out = false;
  explicit mem(std::shared_ptr<shared> x) : s(std::move(x)) {}
  void ev(const char* e) { std::scoped_lock l{s->m}; if (s->ev.size() < 100000) s->ev.emplace_back(e); }
  std::span<char> allocate_buffer() override { if (out) s->bad = "allocated twice"; out = true; cap = s->sizes(); buf.reset(new char[cap]); ev("alloc"); return {buf.get(), cap}; }
  void submit_buffer(char* p, std::size_t n) override { if (!out) s->bad = "submitted without a buffer"; if (p != buf.get()) s->bad = "wrong pointer submitted"; if (n == 0 || n > cap) s->bad = "wrong size submitted"; out = false; ev("submit"); { std::scoped_lock l{s->m}; s->text.append(p, n); } buf.reset(); ++s->submits; if (s->onsubmit) s->onsubmit(); }
  void flush() override { if (out) s->bad = "flushed with a buffer outstanding"; ev("flush"); ++s->flushes; }
  void sync() noexcept override { ev("sync"); if (s->onsync) s->onsync(); ++s->syncs; }
  int reopen() noexcept override { ev("reopen"); ++s->reopens; return s->onreopen(); }
  ~mem() { ev("destroy"); s->gone = true; }
};
inline std::vector<std::string> split(const std::string& t) { std::vector<std::string> r; std::size_t b = 0; for (;;) { auto e = t.find('\n', b); if (e == t.npos) break; r.push_back(t.substr(b, e - b)); b = e + 1; } return r; }
inline std::string body(const std::string& l) { auto p = l.find(".cpp:"); if (p == l.npos) return "??" + l; p = l.find(": ", p); return p == l.npos ? "??" + l : l.substr(p + 2); }
struct rig {
  std::shared_ptr<mem::shared> m = std::make_shared<mem::shared>(); std::atomic<std::int64_t> t{946688523123456789L}; xtr::logger log; xtr::sink s;
  explicit rig(std::function<std::size_t()> sizes = {}) : log((sizes ? void(m->sizes = sizes) : void(), xtr::storage_interface_ptr(new mem(m))), clk{&t}, xtr::null_command_path), s(log.get_sink("Name")) {}
  std::string text() { s.sync(); std::scoped_lock l{m->m}; return m->text; }
  std::vector<std::string> lines() { return split(text()); }
  void clear() { s.sync(); std::scoped_lock l{m->m}; m->text.clear(); }
};
// expected text of a string argument
inline std::string esc(std::string_view v) { std::string r; char b[8]; for (unsigned char c : v) if (c >= 32 && c < 127 && c != '\\') r += char(c); else { std::snprintf(b, sizeof b, "\\x%02X", c); r += b; } return r; }
}
