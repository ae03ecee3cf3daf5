// a client of the command socket
#pragma once
#include "nt.hpp"
#include <iostream>
#include "xtr/detail/commands/command_dispatcher.hpp"
#include "xtr/detail/commands/connect.hpp"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include "xtr/detail/commands/recv.hpp"
#include "xtr/detail/commands/send.hpp"
#include "xtr/detail/strzcpy.hpp"
using namespace xtr::detail;
// every reply up to the end of the connection
inline std::vector<std::string> replies(int fd) { std::vector<std::string> r; for (;;) { frame_buf b; auto n = command_recv(fd, b); CHECK(n >= 0, "receiving failed: %s", std::strerror(errno)); if (n == 0) return r; r.emplace_back(b.buf, std::size_t(n)); } }
inline std::vector<std::string> ask(const char* path, const void* p, std::size_t n) { auto fd = command_connect(path); CHECK(bool(fd), "cannot connect: %s", std::strerror(errno)); CHECK(command_send(fd.get(), p, n) == ssize_t(n), "cannot send: %s", std::strerror(errno)); return replies(fd.get()); }
inline std::uint32_t idof(const std::string& s) { std::uint32_t i; std::memcpy(&i, s.data(), 4); return i; }
inline std::string reason(const std::string& s) { CHECK(s.size() == sizeof(frame<error>) && idof(s) == error::frame_id, "not an error reply"); const char* p = s.data() + (sizeof(frame<error>) - sizeof(error)); CHECK(std::memchr(p, 0, 256), "an error text without end"); return p; }
