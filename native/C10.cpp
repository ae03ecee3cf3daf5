// SRC: ALL
// FLAGS: -fsanitize=address,undefined
// A simulated kernel: completions in any order, short writes, EAGAIN, errors.
#include "nt.hpp"
#if XTR_USE_IO_URING
#include "xtr/io/io_uring_fd_storage.hpp"
#include <deque>
#include <fcntl.h>
#include <map>
#include <sys/syscall.h>
static nt::rng* R; static unsigned N; static std::vector<io_uring_sqe> sq; static std::deque<unsigned> queued; static std::size_t next_; static unsigned khead, ktail, kcq; static io_uring_cqe cqe; static bool clean; static int ringfd = -1, inits, exits;
struct op { io_uring_sqe e; bool drain; }; static std::vector<op> inflight; static std::map<std::size_t, unsigned char> file; static std::size_t completions, fsyncs, wrongorder; static bool full; static bool seen = true, anyorder; static std::string appended; static bool partial; static int failinit, failreg;
struct reg_ { char* p; std::size_t n; }; static std::vector<reg_> regs; static std::vector<int> closed; static std::map<std::size_t, bool> lost;
extern "C" int io_uring_queue_init(unsigned n, io_uring* r, unsigned) { if (failinit) return -failinit; std::memset(r, 0, sizeof *r); N = n; sq.resize(n); queued.clear(); inflight.clear(); next_ = 0; khead = ktail = kcq = 0; r->sq.khead = &khead; r->sq.ktail = &ktail; r->sq.ring_entries = n; r->cq.khead = &kcq; r->ring_fd = ringfd; ++inits; seen = true; return 0; }
extern "C" int io_uring_register_buffers(io_uring*, const iovec* v, unsigned n) { if (failreg) return -failreg; regs.clear(); for (unsigned i = 0; i < n; ++i) regs.push_back({static_cast<char*>(v[i].iov_base), v[i].iov_len}); return 0; }
extern "C" void io_uring_queue_exit(io_uring*) { ++exits; CHECK(inflight.empty() && queued.empty(), "the ring is released with %zu operations outstanding", inflight.size() + queued.size()); }
extern "C" int fsync(int) { ++fsyncs; for (auto& o : inflight) CHECK(o.e.opcode == IORING_OP_CLOSE, "the file was synced before its writes completed"); return 0; }
static io_uring_sqe* fget(io_uring* r) { if (queued.size() == N) return nullptr; unsigned i = unsigned(next_++ % N); queued.push_back(i); ++r->sq.sqe_tail; return &sq[i]; }
static int fsubmit(io_uring*) { int n = int(queued.size()); for (; !queued.empty(); queued.pop_front()) { auto& e = sq[queued.front()]; if (e.opcode == IORING_OP_WRITE_FIXED) { CHECK(e.buf_index < regs.size(), "buffer index %u", e.buf_index); auto& g = regs[e.buf_index]; char* p = reinterpret_cast<char*>(e.addr); CHECK(p >= g.p && p + e.len <= g.p + g.n, "a write outside its registered buffer"); CHECK(e.len > 0, "an empty write"); for (auto& o : inflight) if (o.e.opcode == IORING_OP_WRITE_FIXED) CHECK(o.e.buf_index != e.buf_index, "a buffer submitted while in flight"); } else CHECK(e.opcode == IORING_OP_CLOSE, "operation %d", int(e.opcode)); inflight.push_back({e, (e.flags & IOSQE_IO_DRAIN) != 0}); ++khead; } return n; }
static int fwait(io_uring*, io_uring_cqe** c) {
  CHECK(!inflight.empty(), "waiting for a completion with none outstanding (%zu queued, not submitted)", queued.size()); CHECK(seen || true, ""); if ((*R)(40) == 0) return -EINTR;
  std::size_t lim = inflight.size(); for (std::size_t i = 0; i < inflight.size(); ++i) if (inflight[i].drain && (!anyorder || inflight[i].e.opcode == IORING_OP_CLOSE)) { lim = i == 0 ? 1 : i; break; } std::size_t k = (*R)(lim); op o = inflight[k]; inflight.erase(inflight.begin() + long(k)); cqe = {}; cqe.user_data = o.e.user_data;
  if (o.e.opcode == IORING_OP_CLOSE) { closed.push_back(o.e.fd); for (auto& q : inflight) if (q.e.opcode == IORING_OP_WRITE_FIXED && q.e.fd == o.e.fd) CHECK(!o.drain, "?"); cqe.res = (*R)(3) ? 0 : -EIO; }
  else { for (int f : closed) CHECK(f != o.e.fd, "a write on a closed descriptor"); std::size_t w = clean ? (*R)(8) : (*R)(5); if (full) w = 4; if (w == 0) cqe.res = -EAGAIN; else if (w == 1) cqe.res = int((*R)(o.e.len)); else if (w == 2 && !clean) { cqe.res = -EIO; for (unsigned i = 0; i < o.e.len; ++i) lost[o.e.off + i] = true; } else cqe.res = int(o.e.len); if (cqe.res != int(o.e.len)) partial = true; if (cqe.res > 0) appended.append(reinterpret_cast<char*>(o.e.addr), std::size_t(cqe.res)); for (int i = 0; i < cqe.res; ++i) { auto [it, fresh] = file.emplace(o.e.off + unsigned(i), reinterpret_cast<unsigned char*>(o.e.addr)[i]); CHECK(fresh, "byte %zu written twice", std::size_t(o.e.off + unsigned(i))); } }
  *c = &cqe; ++completions; return 0; }
static int fpeek(io_uring* r, io_uring_cqe** c) { return inflight.empty() ? -EAGAIN : fwait(r, c); }
static int fsqwait(io_uring* r) { return fsubmit(r); }
struct probe : xtr::io_uring_fd_storage { probe(int fd, std::size_t c, std::size_t q, std::size_t b) : io_uring_fd_storage(fd, "unused", c, q, b, fsubmit, fget, fwait, fsqwait, fpeek) {} };
static int openfds() { int n = 0; for (int i = 0; i < 256; ++i) if (::fcntl(i, F_GETFD) != -1) ++n; return n; }
int main() {
  nt::watchdog(170); nt::rng r; R = &r; if (!std::freopen("/dev/null", "w", stderr)) return 0; int nul = ::open("/dev/null", O_WRONLY); int n = nt::thorough() ? 20000 : 1500;
  for (int k = 0; k < n; ++k) {
    file.clear(); lost.clear(); closed.clear(); clean = r(2); full = r(3) == 0; anyorder = r(2); appended.clear(); partial = false; std::size_t cap = 1 + r(40), q = 1 + r(8), b = r(12); std::string want; inits = exits = 0;
    { probe st(nul, cap, q, b);
      for (std::size_t i = 0, e = r(120); i < e; ++i) switch (r(12)) {
        case 0: st.flush(); break;
        case 1: { st.flush(); auto f = fsyncs; st.sync(); CHECK(inflight.empty() && queued.empty(), "sync() returned with %zu operations outstanding", inflight.size() + queued.size()); CHECK(fsyncs > f, "sync() did not sync the file"); break; }
        case 2: if (r(4) == 0) { closed.clear(); int nf = ::dup(nul); int old = st.fd_.get(); st.replace_fd(nf); CHECK(st.fd_.get() == nf, "the new descriptor is not in use"); st.flush(); st.sync(); CHECK(closed.size() == 1 && closed[0] == old, "the old descriptor was not closed once"); closed.clear(); ::close(old); } break;
        default: { auto s = st.allocate_buffer(); CHECK(s.size() == cap, "a buffer of %zu bytes", s.size()); for (auto& o : inflight) if (o.e.opcode == IORING_OP_WRITE_FIXED) { char* p = regs[o.e.buf_index].p; CHECK(p + regs[o.e.buf_index].n <= s.data() || s.data() + cap <= p, "a buffer handed out while its write is in flight"); } for (unsigned j : queued) if (sq[j].opcode == IORING_OP_WRITE_FIXED) CHECK(regs[sq[j].buf_index].p != s.data(), "a buffer handed out while its write is queued"); std::size_t len = r(2) ? cap : 1 + r(cap); for (std::size_t j = 0; j < cap; ++j) s[j] = char(r(256)); want.append(s.data(), len); st.submit_buffer(s.data(), len); } } }
    CHECK(exits == 1 && inits == 1, "ring set up %d times, released %d times", inits, exits);
    for (std::size_t i = 0; i < want.size(); ++i) { auto it = file.find(i); if (it == file.end()) CHECK(lost.count(i), "byte %zu of %zu was never written", i, want.size()); else CHECK(it->second == static_cast<unsigned char>(want[i]), "byte %zu is wrong", i); } CHECK(file.empty() || file.rbegin()->first < want.size(), "bytes written past the end"); if (!partial && !anyorder) CHECK(appended == want, "a write was started before an earlier one completed: a file opened for appending has its bytes out of order"); }
  int fds = openfds(); for (int k = 0; k < 4; ++k) { inits = exits = 0; failinit = k == 0 ? ENOMEM : 0; failreg = k == 1 ? ENOMEM : 0; bool threw = false; try { if (k == 2) probe st(nul, std::size_t(1) << 40, 4, 4); else if (k == 3) probe st(nul, 64, std::size_t(1) << 40, 4); else probe st(nul, 64, 4, 4); } catch (const std::exception&) { threw = true; } CHECK(threw, "construction %d did not fail", k); CHECK(inits == exits, "a failed construction did not release the ring"); CHECK(openfds() == fds, "a failed construction leaked a descriptor"); failinit = failreg = 0; }
}
#else
int main() {}
#endif
