// SRC: src/command_path.cpp
// LIBS: -lpthread
#include "xtr/command_path.hpp"
#include <cstdio>
#include <cstdlib>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#define CHECK(c, ...) do { if (!(c)) { std::printf("FAILED at line %d: %s -- ", __LINE__, #c); std::printf(__VA_ARGS__); std::printf("\n"); std::exit(1); } } while (0)
static unsigned next_n = 0;
static void expect(const std::string& dir)
{
    const std::string p = xtr::default_command_path(), w = dir + "/xtrctl." + std::to_string(::getpid()) + "." + std::to_string(next_n++);
    CHECK(p == w, "got %s, expected %s", p.c_str(), w.c_str());
}
int main()
{
    const char* t = std::getenv("TMPDIR"); char tmpl[256]; std::snprintf(tmpl, sizeof tmpl, "%s/c23XXXXXX", t ? t : "/tmp"); std::string base = ::mkdtemp(tmpl);
    const std::string run = base + "/run", tmp = base + "/tmp", none = base + "/none"; ::mkdir(run.c_str(), 0700); ::mkdir(tmp.c_str(), 0700);
    ::setenv("XDG_RUNTIME_DIR", run.c_str(), 1); ::setenv("TMPDIR", tmp.c_str(), 1); expect(run);
    ::unsetenv("TMPDIR"); expect(run);
    ::setenv("XDG_RUNTIME_DIR", none.c_str(), 1); expect("/tmp");
    ::setenv("TMPDIR", tmp.c_str(), 1); expect(tmp);
    ::setenv("XDG_RUNTIME_DIR", "", 1); expect(tmp);
    ::unsetenv("XDG_RUNTIME_DIR"); const std::string ru = "/run/user/" + std::to_string(::geteuid()); expect(::access(ru.c_str(), W_OK) == 0 ? ru : tmp);
    for (std::size_t k = run.size(); k <= 90; ++k) { std::string d = run; while (d.size() < k) d += '/'; ::setenv("XDG_RUNTIME_DIR", d.c_str(), 1); expect(d); ::setenv("XDG_RUNTIME_DIR", none.c_str(), 1); ::setenv("TMPDIR", d.c_str(), 1); expect(d); }
    for (int i = 0; i < 2000; ++i) expect(std::getenv("TMPDIR"));
    std::vector<std::vector<std::string>> r(8); std::vector<std::thread> th;
    for (auto& v : r) th.emplace_back([&v]{ for (int i = 0; i < 20000; ++i) v.push_back(xtr::default_command_path()); });
    for (auto& x : th) x.join();
    std::set<std::string> all; for (auto& v : r) for (auto& s : v) CHECK(all.insert(s).second, "%s returned twice", s.c_str());
    ::rmdir(run.c_str()); ::rmdir(tmp.c_str()); ::rmdir(base.c_str());
    std::printf("ok\n");
}
