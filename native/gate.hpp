// A value whose formatting blocks the background thread until released.
#pragma once
#include "nt.hpp"
#include <condition_variable>
struct gate { std::mutex m; std::condition_variable c; bool open = false, in = false; void pass() { std::unique_lock l{m}; in = true; c.notify_all(); c.wait(l, [&] { return open; }); } void entered() { std::unique_lock l{m}; c.wait(l, [&] { return in; }); } void release() { std::scoped_lock l{m}; open = true; c.notify_all(); } };
struct gated { gate* g; };
template<> struct fmt::formatter<gated> { constexpr auto parse(format_parse_context& c) { return c.begin(); } auto format(const gated& x, format_context& c) const { x.g->pass(); return fmt::format_to(c.out(), "gate"); } };
