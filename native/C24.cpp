// SRC: src/file_descriptor.cpp src/throw.cpp
// FLAGS: -fsanitize=address,undefined
// LIBS: -lfmt -lpthread
#include <cstddef>
#define main xtrctl_main
#include "src/xtrctl.cpp"
#undef main
#include <cstdio>
#include <string>
#include <vector>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#define CHECK(c, ...) do { if (!(c)) { std::printf("FAILED at line %d: %s -- ", __LINE__, #c); std::printf(__VA_ARGS__); std::printf("\n"); std::exit(1); } } while (0)
using namespace xtr; using namespace xtr::detail;
typedef std::vector<std::string> SV;
static std::string show(const SV& a) { std::string r; for (auto& x : a) r += (x.size() > 40 ? x.substr(0, 40) + "..." : x) + " "; return r; }
static std::string base, path;
struct result { int status; std::string out, err; std::vector<std::string> requests; };
static result run(const SV& args, const std::vector<std::string>& replies)
{
    result r; ::unlink(path.c_str()); int ls = ::socket(AF_LOCAL, SOCK_SEQPACKET, 0); sockaddr_un a{}; a.sun_family = AF_LOCAL; std::strcpy(a.sun_path, path.c_str()); CHECK(::bind(ls, (sockaddr*)&a, sizeof a) == 0 && ::listen(ls, 4) == 0, "cannot listen"); ::fcntl(ls, F_SETFL, O_NONBLOCK);
    const std::string of = base + "/out", ef = base + "/err"; std::fflush(nullptr);
    pid_t p = ::fork();
    if (p == 0) { int o = ::open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = ::open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); ::dup2(o, 1); ::dup2(e, 2); ::close(ls); ::alarm(20); std::vector<char*> av; std::vector<std::string> own = args; own.insert(own.begin(), "xtrctl"); for (auto& x : own) av.push_back(x.data()); av.push_back(nullptr); std::exit(xtrctl_main(int(own.size()), av.data())); }
    int w = 0; bool done = false; int c = -1;
    while (!done) { if (::waitpid(p, &w, WNOHANG) == p) { done = true; } if (c == -1) { c = ::accept(ls, nullptr, nullptr); if (c != -1) { timeval tv{5, 0}; ::setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b[2048]; ssize_t n = ::recv(c, b, sizeof b, 0); if (n > 0) { r.requests.emplace_back(b, std::size_t(n)); ::fcntl(c, F_SETFL, O_NONBLOCK); ::usleep(300); while ((n = ::recv(c, b, sizeof b, 0)) > 0) r.requests.emplace_back(b, std::size_t(n)); ::fcntl(c, F_SETFL, 0); for (auto& s : replies) ::send(c, s.data(), s.size(), MSG_NOSIGNAL); } ::shutdown(c, SHUT_WR); } } if (!done) ::usleep(100); }
    if (c != -1) { ::fcntl(c, F_SETFL, O_NONBLOCK); char b[2048]; ssize_t n; while ((n = ::recv(c, b, sizeof b, 0)) > 0) r.requests.emplace_back(b, std::size_t(n)); ::close(c); } ::close(ls);
    r.status = WIFEXITED(w) ? WEXITSTATUS(w) : 256 + WTERMSIG(w);
    auto rd = [](const std::string& f) { std::string s; FILE* h = std::fopen(f.c_str(), "r"); char b[4096]; size_t n; while (h && (n = std::fread(b, 1, sizeof b, h))) s.append(b, n); if (h) std::fclose(h); return s; }; r.out = rd(of); r.err = rd(ef); return r;
}
template<class P> static std::string fr(frame<P>& f) { return std::string(reinterpret_cast<char*>(&f), sizeof f); }
static std::string ok() { frame<success> f; return fr(f); }
static std::string er(const char* t) { frame<error> f; strzcpy(f->reason, std::string_view(t)); return fr(f); }
static std::string in(const char* n) { frame<sink_info> f; f->level = log_level_t::info; f->buf_capacity = 4096; strzcpy(f->name, std::string_view(n)); return fr(f); }
static std::size_t count(const std::string& s, const std::string& t) { std::size_t n = 0; for (std::size_t i = s.find(t); i != s.npos; i = s.find(t, i + 1)) ++n; return n; }
int main()
{
    ::signal(SIGPIPE, SIG_IGN); ::alarm(170); const char* t = std::getenv("TMPDIR"); char tmpl[200]; std::snprintf(tmpl, sizeof tmpl, "%s/c24XXXXXX", t ? t : "/tmp"); base = ::mkdtemp(tmpl); if (base.size() > 90) { ::rmdir(base.c_str()); char t2[] = "/tmp/c24XXXXXX"; base = ::mkdtemp(t2); } path = base + "/s";
    // valid command lines
    struct opt { SV o; pattern_type_t t; }; std::vector<opt> opts = {{{}, pattern_type_t::basic_regex}, {{"-E"}, pattern_type_t::extended_regex}, {{"-G"}, pattern_type_t::basic_regex}, {{"-W"}, pattern_type_t::wildcard}, {{"--extended-regexp"}, pattern_type_t::extended_regex}, {{"--basic-regexp"}, pattern_type_t::basic_regex}, {{"--wildcard"}, pattern_type_t::wildcard}, {{"-E", "-W"}, pattern_type_t::wildcard}, {{"-W", "-E"}, pattern_type_t::extended_regex}, {{"-WG"}, pattern_type_t::basic_regex}};
    std::vector<std::pair<SV, int>> cmds = {{{"status"}, -1}, {{"level", "fatal"}, int(log_level_t::fatal)}, {{"level", "error"}, int(log_level_t::error)}, {{"level", "warning"}, int(log_level_t::warning)}, {{"level", "info"}, int(log_level_t::info)}, {{"level", "debug"}, int(log_level_t::debug)}};
    for (auto& [c, lv] : cmds) for (auto& o : opts) for (int np = 0; np < 5; ++np) for (int after = 0; after < 2; ++after) {
        if (np == 0 && (!o.o.empty() || after)) continue; if (np > 1 && (after || o.o.size() > 1)) continue; const std::string pat = np == 1 ? "a.*b" : np == 2 ? "" : std::string(np == 3 ? 255 : 300, 'p');
        SV a = c; if (!after) a.insert(a.end(), o.o.begin(), o.o.end()); if (np) a.push_back(pat); a.push_back(path); if (after) a.insert(a.end(), o.o.begin(), o.o.end());
        auto r = run(a, {ok()}); CHECK(r.requests.size() == 1, "%s: %zu requests sent, exit status %d: %s", show(a).c_str(), r.requests.size(), r.status, r.err.c_str());
        auto chk = [&](auto* f, std::size_t sz, frame_id_t id) { CHECK(r.requests[0].size() == sz && f->frame_id == id, "%s: wrong request", show(a).c_str()); CHECK(f->payload.pattern.type == (np ? o.t : pattern_type_t::none), "%s: pattern type %d sent", show(a).c_str(), int(f->payload.pattern.type)); CHECK(f->payload.pattern.ignore_case == 0, "%s: ignore case set", show(a).c_str()); CHECK(::memchr(f->payload.pattern.text, 0, sizeof f->payload.pattern.text), "%s: pattern not terminated", show(a).c_str()); CHECK(std::string(f->payload.pattern.text) == (np ? pat.substr(0, 255) : ""), "%s: pattern <%s> sent", show(a).c_str(), f->payload.pattern.text); };
        alignas(16) static char b[2048]; std::memcpy(b, r.requests[0].data(), r.requests[0].size());
        if (lv < 0) chk(reinterpret_cast<frame<status>*>(b), sizeof(frame<status>), status::frame_id); else { auto f = reinterpret_cast<frame<set_level>*>(b); chk(f, sizeof *f, set_level::frame_id); CHECK(int(f->payload.level) == lv, "%s: level %d sent", show(a).c_str(), int(f->payload.level)); }
        CHECK(r.status == 0 && count(r.out, "Success") == 1, "%s: exit status %d, output <%s>", show(a).c_str(), r.status, r.out.c_str()); }
    { auto r = run({"reopen", path}, {ok()}); CHECK(r.requests.size() == 1 && r.requests[0].size() == sizeof(frame<reopen>) && r.status == 0 && count(r.out, "Success") == 1, "reopen: exit status %d", r.status); frame_id_t id; std::memcpy(&id, r.requests[0].data(), sizeof id); CHECK(id == reopen::frame_id, "reopen: request %u", unsigned(id)); }
    // invalid command lines
    for (SV a : std::vector<SV>{{}, {"foo", path}, {"stat", path}, {"statusx", path}, {"level"}, {"level", path}, {"level", "none", path}, {"level", "Debug", path}, {"level", "debug"}, {"level", "inf", path}, {"status"}, {"reopen"}, {"reopen", "x", path}, {"reopen", "-W", path}, {"status", "a", "b", path}, {"level", "info", "a", "b", path}, {"status", "-W", path}, {"level", "info", "-E", path}, {"status", "-x", "p", path}, {"status", "--bogus", path}, {"status", path + ".none"}, {"status", std::string(200, 'x')}, {"", path}}) { auto r = run(a, {ok()}); CHECK(r.status == EXIT_FAILURE && r.requests.empty(), "%s: exit status %d, %zu requests sent", show(a).c_str(), r.status, r.requests.size()); }
    for (SV a : std::vector<SV>{{"--help"}, {"status", "-h", path}, {"level", "info", "--help"}, {"reopen", "-h"}}) { auto r = run(a, {ok()}); CHECK(r.status == 0 && r.requests.empty() && count(r.out, "Usage") == 1, "%s: exit status %d", show(a).c_str(), r.status); }
    // replies
    for (SV a : std::vector<SV>{{"status", path}, {"level", "info", path}, {"reopen", path}}) {
        auto e = [&](std::vector<std::string> rp, int st, const char* what) { auto r = run(a, rp); CHECK(r.status == st, "%s: %s: exit status %d", show(a).c_str(), what, r.status); return r; };
        e({}, 0, "no reply"); auto r = e({ok(), ok()}, 0, "two successes"); CHECK(count(r.out, "Success") == 2, "two successes: <%s>", r.out.c_str());
        r = e({er("some reason")}, 1, "an error"); CHECK(count(r.err, "some reason") == 1, "the reason is not shown: <%s>", r.err.c_str()); r = e({in("aa"), er("late reason")}, 1, "a late error"); CHECK(count(r.err, "late reason") == 1, "the reason is not shown");
        for (int n : {1, 2, 3, 40}) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(in(("sink<" + std::to_string((i * 7) % n) + ">").c_str())); r = e(v, 0, "status entries"); for (int i = 0; i < n; ++i) CHECK(count(r.out, "sink<" + std::to_string(i) + ">") == 1, "entry %d of %d is not shown once: <%s>", i, n, r.out.c_str()); }
        std::string s = in("x"); e({s.substr(0, s.size() - 1)}, 1, "a short entry"); e({s + "x"}, 1, "a long entry"); e({ok(), s.substr(0, 4)}, 1, "an entry without contents"); s = er("y"); e({s.substr(0, s.size() - 1)}, 1, "a short error"); e({s + "z"}, 1, "a long error"); e({s.substr(0, 4)}, 1, "an empty error");
        for (std::size_t n : {1, 2, 3}) e({ok().substr(0, n)}, 1, "an incomplete header"); for (frame_id_t id : {0u, 999u, 0xffffffffu, frame_id_t(status::frame_id), frame_id_t(set_level::frame_id)}) { if (id == sink_info::frame_id || id == success::frame_id || id == error::frame_id) continue; std::string g(64, 0); std::memcpy(g.data(), &id, sizeof id); e({g}, 1, "an unknown reply"); } }
    ::unlink(path.c_str()); ::unlink((base + "/out").c_str()); ::unlink((base + "/err").c_str()); ::rmdir(base.c_str()); std::printf("ok\n");
}
