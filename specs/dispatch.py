"""Contracts of detail::command_dispatcher (C13).
Both vectors are the real std::vector code (inlined); only their reallocation is a contract. The two hash maps are contracts: one entry, for the connection's
descriptor respectively the message id asked for, stands for all. recvmsg/sendmsg/poll/accept4/socket/bind/listen are environment contracts with every outcome."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.stdlib import EXC_TYPES, set_errno, get_errno
from irv.strmodel import STR, new_string, get as str_get
UNITS = ["dispatch"]
T = z3.BoolVal(True); F = z3.BoolVal(False); Z = z3.BitVecVal(0, 64)
def U(a, b): return z3.ULE(bv(a), bv(b))
def LT(a, b): return z3.ULT(bv(a), bv(b))
def B(x): return z3.simplify(zb(x))
def num(st, x): return bv(addr(st, x) if isinstance(x, (Ptr, FnP)) else fresh("undef") if x is UNDEF else x)
def inc(x): return simp(bv(x) + 1)
CD = "xtr::detail::command_dispatcher"
M1 = z3.BitVecVal(-1, 64)
KNOWN = z3.Function("KNOWN", z3.BitVecSort(32), z3.BoolSort()); SIZE = z3.Function("SIZE", z3.BitVecSort(32), BV64)      # the registered message ids and their lengths

class Env:
    def __init__(s, ctx, contracts=(), N=None, bare=False):
        RM = rf"^std::unordered_map<int, {CD}::callback_result, .*>::"; CM = rf"^std::unordered_map<unsigned int, {CD}::callback, .*>::"
        C = [(RM + r"operator\[\]\(", s.r_at), (RM + r"erase\(int const&\)", s.r_erase), (RM + r"(unordered_map\(\)|~unordered_map\(\))", lambda *a: 0), (RM, s.r_other), (CM + r"find\(", s.c_find), (CM + r"c?end\(\)", lambda *a: 0), (CM + r"(unordered_map\(\)|~unordered_map\(\))", lambda *a: 0), (CM, s.r_other),
             (rf"std::vector<{CD}::(pollfd|buffer), .*>::_M_realloc_(insert|append)", s.realloc), (r"^std::function<void \(int, void\*\)>::operator\(\)\(int, void\*\) const", s.dispatch),
             (r"^close$", s.close), (r"^recvmsg$", s.recvmsg), (r"^recv$", s.recv), (r"^sendmsg$", s.sendmsg), (r"^send$", s.send1), (r"^poll$", s.poll), (r"^accept4$", s.accept), (r"^strerror$", lambda ex, st, a, i: cstring(st, "strerror")),
             (r"^(void )?xtr::detail::errx?<", lambda *a: 0), (r"std::(basic_ostream|operator<<)", lambda ex, st, a, i: a[0])]
        s.ctx = ctx; s.v = v = ctx.verifier("dispatch", list(contracts) + C + STR, s.loops); s.off = o = v.off; s.st = st = State(); s.fd = None
        for k, x in (("closed", Z), ("errs", Z), ("disp", Z), ("sent", Z), ("erased", Z), ("recvs", Z), ("polled", Z), ("got", M1), ("accepts", Z), ("served", Z), ("newfd", z3.BitVecVal(0, 32))): st.g[k] = x
        for k in ("fatal", "blocked", "threw", "accok", "chk"): st.g[k] = F
        c = new_region(st, "dispatcher", o["cd_size"], align=8); s.cd = c.rid; s.this = Ptr(c.rid, 0)
        def ck(ex, q, p, n, write):
            if isinstance(p.off, int) and (o["cd_callbacks"] <= p.off < o["cd_callbacks"] + 56 or o["cd_results"] <= p.off < o["cd_results"] + 56): raise Unsupported("a map is accessed other than through its functions")
        st.wregion(c.rid).check = ck
        ctx.extra_assume += ["std::unordered_map and std::function behave as documented", "a handler throws only exceptions derived from std::exception", "SOCK_SEQPACKET: sendmsg sends a message whole or not at all", "writing diagnostics to std::cerr has no other effect"]
        if bare: return
        s.N = N = fresh("N"); st.assume(AND(bv(N) != 0, U(N, 1 << 24))); cap = fresh("cap"); st.assume(AND(U(N, cap), U(cap, 1 << 25))); s.PF = s.arena(st, "pollfds", 8, cap)
        for k, x in ((0, Ptr(s.PF, 0)), (8, Ptr(s.PF, simp(bv(N) * 8))), (16, Ptr(s.PF, simp(cap * 8)))): mem_write(st, c.rid, o["cd_pollfds"] + k, 8, x)
    def arena(s, st, name, E, cap):
        r = new_region(st, name, simp(bv(cap) * E), align=8, kind="heap", arr=fresh_arr(name)); r.elem = E; return r.rid
    def vec(s, st, p):
        """(region, length in elements) of the vector at p"""
        b = mem_read(st, p.rid, p.off, 8); e = mem_read(st, p.rid, add(p.off, 8), 8)
        if isinstance(b, int): return None, 0
        d = stride(sub(e.off, b.off), st.mem[b.rid].elem)
        if d is None or e.rid != b.rid: raise Unsupported("vector")
        return b.rid, d[0]
    def pf(s, st): return s.vec(st, Ptr(s.cd, s.off["cd_pollfds"]))
    def fld(s, st, i, f, n): rid, _ = s.pf(st); return bv(mem_read(st, rid, simp(bv(i) * 8 + s.off[f]), n), 8 * n)
    def realloc(s, ex, st, a, ins):
        name = ins.x["callee"].v.dname; E = s.off["pf_size"] if "::pollfd, std" in name.split("_M_realloc")[0] else s.off["bu_size"]; vp = a[0] if isinstance(a[0], Ptr) else resolve(st, a[0]); rid, n = s.vec(st, vp); args = a[2:] if "_M_realloc_insert" in name else a[1:]
        if "_M_realloc_insert" in name and rid is not None: ex.oblige(st, num(st, a[1]) == num(st, Ptr(rid, simp(bv(n) * E))), "elements are added at the end")
        cap = fresh("cap"); st.assume(AND(LT(n, cap), U(cap, 1 << 26))); new = s.arena(st, "grown", E, cap)
        if rid is not None: mem_copy(st, new, 0, rid, 0, simp(bv(n) * E)); st.wregion(rid).live = False
        for k, x in ((0, Ptr(new, 0)), (8, Ptr(new, simp((bv(n) + 1) * E))), (16, Ptr(new, simp(cap * E)))): mem_write(st, vp.rid, add(vp.off, k), 8, x)
        at = Ptr(new, simp(bv(n) * E)); T = "pollfd" if E == 8 else "buffer"
        if len(args) == 1: f = rf"^{CD}::{T}::{T}\({CD}::{T}&&\)"; av = [at, args[0]]
        else: f = rf"^{CD}::buffer::buffer\(void const\*, unsigned long\)"; g = lambda p, n: (lambda q: mem_read(st, q.rid, q.off, n))(ex.bounds(st, p, n, "argument", False)); av = [at, g(args[0], 8), g(args[1], 8)]
        d0 = len(st.frames); ex.call_fn(st, s.v.fn(f), av); out = []
        for d in ex.explore([st], d0):
            if d.kind == "ret": out.append(Ret(d.st, 0))
            else: out.append(Throw(d.st, d.val))
        return out
    # ---- hash maps
    def key(s, ex, st, p, n=4): p = ex.bounds(st, p, n, "key", False); return bv(mem_read(st, p.rid, p.off, n), 8 * n)
    def r_other(s, ex, st, a, ins): raise Unsupported("map function without contract: " + ins.x["callee"].v.dname[-60:])
    def r_at(s, ex, st, a, ins):
        ex.oblige(st, num(st, a[0]) == num(st, Ptr(s.cd, s.off["cd_results"])), "the dispatcher's own table of replies is used"); ex.oblige(st, s.key(ex, st, a[1]) == s.fd, "only the replies of the connection concerned are used")
        if simp(bv(st.g["erased"]) == 0) != 1: raise Unsupported("replies looked up again after they were discarded")
        ex.cover(st, "replies found"); return Ptr(s.CR, 0)
    def r_erase(s, ex, st, a, ins):
        ex.oblige(st, s.key(ex, st, a[1]) == s.fd, "only the replies of the connection concerned are discarded"); st.g["erased"] = inc(st.g["erased"]); st.wregion(s.CR).live = False; return 1
    def replies(s, M):
        """the connection's queue of replies"""
        st = s.st; o = s.off; s.CR = new_region(st, "replies", o["cr_size"], align=8, kind="heap").rid; cap = fresh("bcap"); s.M = M; st.assume(AND(U(M, cap), U(cap, 1 << 24))); s.BF = s.arena(st, "reply buffers", o["bu_size"], cap)
        st.wregion(s.BF).on_read = lambda i, b: [IMP(z3.And(z3.UGE(bv(i) & 15, bv(o["bu_n"] + 2)), z3.ULE(bv(i) & 15, bv(o["bu_n"] + 7))), b == 0)] if isz(b) and b.size() == 8 else []      # replies are shorter than 64 KiB
        for k, x in ((0, Ptr(s.BF, 0)), (8, Ptr(s.BF, simp(bv(M) * o["bu_size"]))), (16, Ptr(s.BF, simp(cap * o["bu_size"])))): mem_write(st, s.CR, o["cr_bufs"] + k, 8, x)
        s.pos0 = fresh("pos0"); st.assume(U(s.pos0, M)); mem_write(st, s.CR, o["cr_pos"], 8, s.pos0); st.g["sent"] = s.pos0
    def c_find(s, ex, st, a, ins):
        o = s.off; ex.oblige(st, num(st, a[0]) == num(st, Ptr(s.cd, o["cd_callbacks"])), "the dispatcher's own table of handlers is used"); k = s.key(ex, st, a[1])
        ex.oblige(st, AND(z3.BitVecVal(o["hdr_size"], 64) <= bv(st.g["got"]), k == bv(mem_read(st, s.bufp.rid, s.bufp.off, 4), 32)) if getattr(s, "bufp", None) else F, "the handler looked up is that of the message id received")
        s2 = st.fork(); n = SIZE(k); st.assume(KNOWN(k)); s2.assume(NOT(KNOWN(k)))
        r = new_region(st, "handler", 8 + o["kv_size"], align=8, kind="heap"); mem_write(st, r.rid, 8, 4, k); mem_write(st, r.rid, 8 + o["kv_cb"] + o["cb_n"], 8, n); s.node = r.rid; st.g["$node"] = r.rid; ex.cover(st, "handler found"); ex.cover(s2, "handler not found")
        return [Ret(st, Ptr(r.rid, 0)), Ret(s2, 0)]
    def dispatch(s, ex, st, a, ins):
        o = s.off; nd = st.g.get("$node"); ex.cover(st, "dispatched")
        if nd is None: ex.fail(st, "a handler is called only for a known message id"); return 0
        ex.oblige(st, num(st, a[0]) == num(st, Ptr(nd, 8 + o["kv_cb"] + o["cb_func"])), "the handler called is the one registered for the message id"); ex.oblige(st, bv(a[1], 32) == s.fd, "the handler is told the connection the message came from")
        ex.oblige(st, num(st, a[2]) == num(st, s.bufp), "the handler gets the message received"); ex.oblige(st, bv(st.g["L"]) == SIZE(bv(mem_read(st, s.bufp.rid, s.bufp.off, 4), 32)), "a message is dispatched only when its length is exactly that of its kind"); ex.oblige(st, bv(st.g["disp"]) == 0, "a message is dispatched once")
        st.g["disp"] = inc(st.g["disp"]); s2 = st.fork(); s2.g["threw"] = T; return [Ret(st, 0), Throw(s2, Exc(EXC_TYPES["exception"], kind="handler"))]
    # ---- system calls
    def errno(s, ex, st): e = fresh("errno", 32); st.assume(AND(e > 0, e < 4096)); set_errno(ex, st, e); return e
    def close(s, ex, st, a, ins):
        ex.oblige(st, bv(a[0], 32) == s.fd if s.fd is not None else F, "only the connection concerned is closed"); st.g["closed"] = inc(st.g["closed"]); ex.cover(st, "closed"); s2 = st.fork(); s.errno(ex, s2); return [Ret(st, 0), Ret(s2, mask(-1, 32))]
    def msg(s, ex, st, h):
        o = s.off; h = ex.bounds(st, h, o["mh_size"], "message header", False); iov = mem_read(st, h.rid, add(h.off, o["mh_iov"]), 8); ex.oblige(st, eq(mem_read(st, h.rid, add(h.off, o["mh_iovlen"]), 8), 1), "one buffer per message"); iov = ex.bounds(st, iov, 16, "iovec", False)
        return mem_read(st, iov.rid, iov.off, 8), mem_read(st, iov.rid, add(iov.off, 8), 8)
    def recvmsg(s, ex, st, a, ins): b, n = s.msg(ex, st, a[1]); return s.receive(ex, st, a[0], b, n)
    def recv(s, ex, st, a, ins): return s.receive(ex, st, a[0], a[1], a[2])
    def receive(s, ex, st, fd, b, n):
        o = s.off; ex.oblige(st, bv(fd, 32) == s.fd, "the message is read from its connection"); ex.oblige(st, bv(st.g["got"]) == M1, "one message is read"); p = ex.bounds(st, b, n, "receive buffer", True); ex.oblige(st, U(o["frame_max"], n), "the buffer holds any message that is dispatched")
        s2 = st.fork(); s.errno(ex, s2); L = fresh("L"); st.assume(U(L, 1 << 30)); r = z3.If(U(L, n), L, bv(n)); st.g["L"] = L; st.g["got"] = simp(r); mem_havoc(st, p.rid, p.off, r); k = bv(mem_read(st, p.rid, p.off, 4), 32); st.g["id"] = k; st.assume(AND(U(o["hdr_size"], SIZE(k)), LT(SIZE(k), o["frame_max"]))); st.g["$buf"] = p; s.bufp = p; ex.cover(st, "received")
        def ck(ex, q, pp, k, write):
            if not write and q.g.get("$buf") is not None: ex.oblige(q, AND(U(p.off, pp.off), U(k, q.g["got"]), U(sub(pp.off, p.off), sub(q.g["got"], k))), "nothing is read beyond the bytes received")
        st.wregion(p.rid).check = ck; return [Ret(st, simp(r)), Ret(s2, mask(-1, 64))]
    def sendmsg(s, ex, st, a, ins):
        b, n = s.msg(ex, st, a[1]); return s.transmit(ex, st, a[0], b, n, a[2])
    def send1(s, ex, st, a, ins): return s.transmit(ex, st, *a)
    def transmit(s, ex, st, fd, b, n, flags):
        o = s.off; k = bv(st.g["sent"]); ex.oblige(st, bv(fd, 32) == s.fd, "a reply is sent to the connection that made the request"); ex.oblige(st, LT(k, s.M), "only queued replies are sent"); ex.oblige(st, NOT(OR(st.g["fatal"], st.g["blocked"])), "nothing is sent after a failure")
        E = o["bu_size"]; rd = lambda f: num(st, mem_read(st, s.BF, simp(k * E + o[f]), 8)); ex.oblige(st, AND(num(st, b) == rd("bu_buf"), bv(n) == rd("bu_n")), "replies are sent whole and in the order produced"); ex.oblige(st, (bv(flags, 32) & 0x4000) != 0, "a closed peer raises no signal")
        s2 = st.fork(); e = s.errno(ex, s2); s2.g["fatal"] = B(AND(e != o["eagain"], e != o["eintr"])); s2.g["blocked"] = B(e == o["eagain"]); st.g["sent"] = simp(k + 1); ex.cover(st, "sent"); ex.cover(s2, "not sent"); return [Ret(st, n), Ret(s2, mask(-1, 64))]
    def poll(s, ex, st, a, ins):
        rid, n = s.pf(st); ex.oblige(st, AND(num(st, a[0]) == num(st, Ptr(rid, 0)), bv(a[1]) == bv(n)), "all connections are polled"); ex.oblige(st, AND(bv(a[2], 32) == s.timeout, bv(st.g["polled"]) == 0), "poll is called once with the timeout given")
        st.g["polled"] = inc(st.g["polled"]); s2 = st.fork(); s.errno(ex, s2); o = s.off; r = st.wregion(rid)
        if r.log or r.cells or r.arr is None: raise Unsupported("poll after the list was changed")
        x = z3.BitVec("x!poll", 64); A = r.arr; R = fresh_arr("revents"); r.arr = z3.Lambda([x], z3.If(z3.UGE(x & 7, o["pf_revents"]), R[x], A[x])); k = fresh("nfds", 32); st.assume(AND(k >= 0, U(z3.ZeroExt(32, k), n))); ex.cover(st, "polled"); return [Ret(st, k), Ret(s2, mask(-1, 32))]
    def accept(s, ex, st, a, ins):
        ex.oblige(st, AND((s.fld(st, 0, "pf_revents", 2) & s.off["pollin"]) != 0, bv(a[0], 32) == s.lfd, (bv(a[3], 32) & 0x800) != 0), "a connection is accepted, non-blocking, from the listening socket when one is waiting"); ex.oblige(st, bv(st.g["accepts"]) == 0, "one connection is accepted at a time")
        st.g["accepts"] = inc(st.g["accepts"]); f = fresh("newfd", 32); st.assume(f >= 0); s2 = st.fork(); s.errno(ex, s2); st.g["accok"] = T; st.g["newfd"] = f; ex.cover(st, "accepted"); return [Ret(st, f), Ret(s2, mask(-1, 32))]
    def loops(s, ex, st, f): return LoopSpec(invs=s.invs(ex, st, f), auto=True)
    more = lambda s, ex, st, f: []
    def invs(s, ex, st, f): return s.more(ex, st, f) + [("nothing received", lambda ex, q: bv(q.g["got"]) == M1), ("nothing fatal", lambda ex, q: NOT(q.g["fatal"])), ("not blocked", lambda ex, q: NOT(q.g["blocked"])), ("sent grows", lambda ex, q: U(st.g["sent"], q.g["sent"])), ("sent bounded", lambda ex, q: U(q.g["sent"], s.M) if hasattr(s, "M") else None), ("sent kept", lambda ex, q: bv(q.g["sent"]) == bv(st.g["sent"])),
        ("pos", lambda ex, q: bv(mem_read(q, s.CR, s.off["cr_pos"], 8)) == bv(q.g["sent"]) if hasattr(s, "CR") and q.mem[s.CR].live else None)]
def rets(v, ds, what):
    for d in ds:
        if d.kind == "stop": continue
        if d.kind != "ret": v.fail(d.st, f"{what} returns normally")
        else: yield d.st, d.val
def conn(s):
    """an arbitrary connection: entry i of the list, never the listening socket"""
    st = s.st; i = fresh("i"); st.assume(AND(i != 0, LT(i, s.N))); s.i = i; s.fd = s.fld(st, i, "pf_fd", 4); st.assume(s.fd >= 0); s.k = fresh("other"); st.assume(AND(LT(s.k, s.N), s.k != i)); s.other = [s.fld(st, s.k, f, n) for f, n in (("pf_fd", 4), ("pf_events", 2))]; st.assume(s.other[0] != s.fd); return Ptr(s.PF, simp(i * 8))

@harness("dispatch.read", ("C13",), cost=5)
def h_read(ctx):
    def send_error(ex, st, a, ins):
        ex.oblige(st, AND(num(st, a[0]) == num(st, s.this), bv(a[1], 32) == s.fd), "the error reply goes to the connection that sent the message"); st.g["errs"] = inc(st.g["errs"]); ex.cover(st, "error reply"); return 0
    s = Env(ctx, [(rf"^{CD}::send_error\(", send_error)]); v = s.v; o = s.off; p = conn(s); s.bufp = None
    for q, _ in rets(v, v.run(s.st, v.fn("^vp_cd_read$"), [s.this, p]), "process_socket_read"):
        v.cover(q, "returned"); v.oblige(q, s.fld(q, s.i, "pf_events", 2) == o["pollout"], "the connection is next waited on for writing, so that it is answered and closed"); n = bv(q.g["got"]); d = bv(q.g["disp"]); e = bv(q.g["errs"])
        v.oblige(q, IMP(OR(n == 0, n == M1), AND(d == 0, e == 0)), "end of file and read errors are neither dispatched nor answered"); L = bv(q.g.get("L", Z)); ok = F
        if s.bufp is not None and "L" in q.g: k = bv(q.g["id"], 32); ok = AND(U(o["hdr_size"], L), KNOWN(k), L == SIZE(k))
        v.oblige(q, IMP(AND(n != 0, n != M1), z3.If(zb(ok), AND(d == 1, e == z3.If(zb(q.g["threw"]), bv(1), bv(0))), AND(d == 0, e == 1))), "every message is either dispatched or answered with exactly one error"); v.oblige(q, AND(bv(q.g["closed"]) == 0, s.fld(q, s.i, "pf_fd", 4) == s.fd), "the connection stays open until it is answered")
        v.oblige(q, AND(*[s.fld(q, s.k, f, m) == x for (f, m), x in zip((("pf_fd", 4), ("pf_events", 2)), s.other)]), "other connections are unaffected")
        if q.g["threw"] is T: v.cover(q, "exception answered")
    for nm in ("status", "level", "reopen"): ctx.lemma(f"the {nm} message is shorter than the receive buffer", z3.BoolVal(o["hdr_size"] <= o["fs_" + nm] < o["frame_max"]))
    need_covers(ctx, v, ["returned", "received", "dispatched", "handler found", "handler not found", "error reply", "exception answered"])

@harness("dispatch.write", ("C13",), cost=10)
def h_write(ctx):
    s = Env(ctx); v = s.v; o = s.off; p = conn(s); M = fresh("M"); s.replies(M)
    for q, _ in rets(v, v.run(s.st, v.fn("^vp_cd_write$"), [s.this, p]), "process_socket_write"):
        v.cover(q, "returned"); rid, n = s.pf(q); done = OR(q.g["fatal"], bv(q.g["sent"]) == M); gone = bv(q.g["closed"])
        v.oblige(q, gone == z3.If(zb(done), bv(1), bv(0)), "a connection is closed after its last reply or an error, and only then"); v.oblige(q, bv(n) == bv(s.N) - gone, "exactly the closed connection leaves the list"); v.oblige(q, bv(q.g["erased"]) == gone, "the replies of a closed connection, and only those, are discarded")
        at = z3.If(zb(AND(gone == 1, s.k == bv(s.N) - 1)), s.i, s.k); v.oblige(q, AND(LT(at, n), *[s.fld(q, at, f, m) == x for (f, m), x in zip((("pf_fd", 4), ("pf_events", 2)), s.other)]), "every other connection stays in the list, unchanged")
        if q.mem[s.CR].live: v.oblige(q, AND(bv(mem_read(q, s.CR, o["cr_pos"], 8)) == bv(q.g["sent"]), s.fld(q, s.i, "pf_fd", 4) == s.fd), "an unfinished connection continues with the first reply not yet sent"); v.cover(q, "continues")
        v.oblige(q, IMP(s.pos0 != M, OR(q.g["fatal"], q.g["blocked"], bv(q.g["sent"]) == M)), "sending goes on until it would block, fails or is finished")
    need_covers(ctx, v, ["returned", "sent", "not sent", "closed", "continues", "replies found"])

@harness("dispatch.send", ("C13",), cost=3)
def h_send(ctx):
    s = Env(ctx); v = s.v; o = s.off; st = s.st; s.fd = fresh("fd", 32); M = fresh("M"); s.replies(M); n = fresh("n"); st.assume(U(n, 4096)); b = new_region(st, "reply", n, align=1, arr=fresh_arr("reply")); j = fresh("j"); st.assume(LT(j, n)); E = o["bu_size"]; k = fresh("k"); st.assume(LT(k, M)); old = [num(st, mem_read(st, s.BF, simp(k * E + f), 8)) for f in (0, 8)]
    for q, _ in rets(v, v.run(st, v.fn("^vp_cd_send$"), [s.this, s.fd, Ptr(b.rid, 0), n]), "send"):
        rid, m = s.vec(q, Ptr(s.CR, o["cr_bufs"])); v.cover(q, "queued"); v.oblige(q, bv(m) == M + 1, "one reply is queued"); rd = lambda i, f: mem_read(q, rid, simp(i * E + f), 8)
        v.oblige(q, AND(*[num(q, rd(k, f)) == x for f, x in zip((0, 8), old)]), "replies queued earlier are kept, in order"); d = rd(M, o["bu_buf"]); d = resolve(q, d) if isz(d) else d
        if not isinstance(d, Ptr): raise Unsupported("the reply's copy")
        v.oblige(q, AND(num(q, rd(M, o["bu_n"])) == n, z3.BoolVal(d.rid != b.rid and q.mem[d.rid].live), bv(read_byte(q, d.rid, add(d.off, j)), 8) == bv(read_byte(q, b.rid, j), 8)), "the reply queued is a whole copy of the one given"); v.oblige(q, bv(mem_read(q, s.CR, o["cr_pos"], 8)) == s.pos0, "queueing sends nothing")
    need_covers(ctx, v, ["queued", "replies found"])

@harness("dispatch.send_error", ("C13",), cost=3)
def h_error(ctx):
    def send(ex, st, a, ins):
        o = s.off; ex.oblige(st, AND(num(st, a[0]) == num(st, s.this), bv(a[1], 32) == s.fd), "the error goes to the connection given"); p = ex.bounds(st, a[2], a[3], "reply", False); ex.oblige(st, AND(eq(a[3], o["ef_size"]), eq(mem_read(st, p.rid, p.off, 4), o["id_error"], 32)), "a whole error message is sent")
        n = z3.If(U(ln, o["ef_len"] - 1), ln, bv(o["ef_len"] - 1)); c = bv(read_byte(st, p.rid, add(add(p.off, o["ef_reason"]), j)), 8); ex.oblige(st, AND(IMP(LT(j, n), c == bv(read_byte(st, r.rid, j), 8)), IMP(j == n, c == 0)), "the error carries the reason given, cut to fit and terminated"); st.g["errs"] = inc(st.g["errs"]); ex.cover(st, "sent"); return 0
    s = Env(ctx, [(rf"^{CD}::send\(int, void const\*, unsigned long\)", send)]); v = s.v; st = s.st; s.fd = fresh("fd", 32); ln = fresh("len"); st.assume(U(ln, 1 << 20)); r = new_region(st, "reason", ln, align=1, arr=fresh_arr("reason")); j = fresh("j"); st.assume(LT(j, s.off["ef_len"]))
    for q, _ in rets(v, v.run(st, v.fn("^vp_cd_error$"), [s.this, s.fd, Ptr(r.rid, 0), ln]), "send_error"): v.oblige(q, bv(q.g["errs"]) == 1, "one error is sent"); v.cover(q, "returned")
    need_covers(ctx, v, ["sent", "returned"])

@harness("dispatch.commands", ("C13",), cost=10)
def h_commands(ctx):
    def arrived(q): return AND(bv(s.pf(q)[1]) == bv(s.N) + 1, s.fld(q, s.N, "pf_fd", 4) == q.g["newfd"], s.fld(q, s.N, "pf_events", 2) == s.off["pollin"], s.fld(q, s.N, "pf_revents", 2) == 0)
    def settle(ex, st): ex.oblige(st, IMP(AND(st.g["accok"], NOT(st.g["chk"])), arrived(st)), "an accepted connection is added to the list, waiting for its message"); st.g["chk"] = T
    def serve(write):
        def h(ex, st, a, ins):
            o = s.off; settle(ex, st); rid, n = s.pf(st); p = a[1] if isinstance(a[1], Ptr) else resolve(st, a[1])
            if not isinstance(p, Ptr): raise Unsupported("connection")
            ex.oblige(st, z3.BoolVal(p.rid == rid), "the connection served is in the current list"); d = stride(p.off, 8)
            if p.rid != rid or d is None: return Stop(st, "not an entry")
            i = d[0]; ex.oblige(st, AND(bv(i) != 0, LT(i, n), eq(d[1], 0)), "the connection served is in the list and not the listening socket"); rev = s.fld(st, i, "pf_revents", 2)
            ex.oblige(st, (rev & (o["pollout"] if write else o["pollin"] | o["pollhup"])) != 0, "a connection is written to or read from only when poll said so"); ex.cover(st, "written" if write else "read")
            if not write: mem_write(st, rid, simp(bv(i) * 8 + o["pf_events"]), 2, o["pollout"]); return 0
            s2 = st.fork(); e = mem_read(s2, s.cd, o["cd_pollfds"] + 8, 8); last = simp(bv(n) * 8 - 8); mem_copy(s2, rid, simp(bv(i) * 8), rid, last, 8); mem_write(s2, s.cd, o["cd_pollfds"] + 8, 8, Ptr(rid, sub(e.off, 8))); return [Ret(st, 0), Ret(s2, 0)]
        return h
    s = Env(ctx, [(rf"^{CD}::process_socket_read\(", serve(False)), (rf"^{CD}::process_socket_write\(", serve(True))]); v = s.v; o = s.off; st = s.st; s.timeout = fresh("timeout", 32); s.lfd = s.fld(st, 0, "pf_fd", 4); st.assume(s.lfd >= 0)
    def more(ex, st, f):
        d = len(st.frames) - 1; n = lambda q: bv(s.pf(q)[1])
        I = [("list not empty", lambda ex, q: n(q) != 0), ("list bounded", lambda ex, q: U(n(q), 1 << 26)), ("listening socket kept", lambda ex, q: s.fld(q, 0, "pf_fd", 4) == s.lfd), ("accepted", lambda ex, q: IMP(AND(q.g["accok"], NOT(q.g["chk"])), arrived(q))), ("list shrinks", lambda ex, q: U(n(q), n(st)))]
        for p in f.bb.phis:
            g = lambda q, i=p.id: q.frames[d].regs[i]
            if isinstance(g(st), (Ptr, FnP)) or p.ty.kind != "int" or p.ty.width != 64: continue
            I += [(f"phi{p.id}>=1", lambda ex, q, g=g: bv(g(q)) != 0), (f"phi{p.id}<=n", lambda ex, q, g=g: U(g(q), n(q))), (f"phi{p.id}<n", lambda ex, q, g=g: LT(g(q), n(q)))]
        return I
    s.more = more
    def ck(ex, q, p, n, write):
        if write or any(re.search("pop_back|[dD]estroy|~", fr.fn.dname) for fr in q.frames): return
        rid, m = s.pf(q)
        if rid == p.rid: ex.oblige(q, LT(p.off, bv(m) * 8), "only entries in the list are looked at")
    st.wregion(s.PF).check = ck
    for q, _ in rets(v, v.run(st, v.fn("^vp_cd_commands$"), [s.this, s.timeout]), "process_commands"):
        settle(v, q); v.cover(q, "returned"); v.oblige(q, bv(q.g["polled"]) == 1, "the connections are polled"); v.oblige(q, s.fld(q, 0, "pf_fd", 4) == s.lfd, "the listening socket stays the first entry")
    need_covers(ctx, v, ["returned", "polled", "accepted", "written", "read"])

@harness("dispatch.construct", ("C13",), cost=3)
def h_ctor(ctx):
    def sysfail(ex, st, k): s2 = st.fork(); s.errno(ex, s2); s2.g[k] = F; return [Ret(st, 0), Ret(s2, mask(-1, 32))]
    def socket(ex, st, a, ins):
        ex.oblige(st, AND(eq(a[0], 1, 32), (bv(a[1], 32) & 0xf) == 5, (bv(a[1], 32) & 0x800) != 0), "a local, message preserving, non-blocking socket is made"); s2 = st.fork(); s.errno(ex, s2); st.g["made"] = T; ex.cover(st, "socket"); return [Ret(st, s.fd), Ret(s2, mask(-1, 32))]
    def bind(ex, st, a, ins):
        p = ex.bounds(st, a[1], a[2], "socket address", False); ex.oblige(st, AND(bv(a[0], 32) == s.fd, eq(z3.ZeroExt(32, bv(a[2], 32)), o["sun_size"])), "the socket made is bound"); c = bv(read_byte(st, p.rid, add(add(p.off, o["sun_path"]), j)), 8); w = bv(read_byte(st, s.rid, j), 8); ab = AND(n != 0, bv(read_byte(st, s.rid, 0), 8) == 0) 
        ex.oblige(st, AND(IMP(LT(j, n), c == w), IMP(j == n, c == 0), IMP(AND(ab, U(n, j)), c == 0)), "the socket is bound to exactly the path given"); ex.oblige(st, eq(mem_read(st, p.rid, p.off, 2), 1, 16), "the address family is local"); st.g["bound"] = T; ex.cover(st, "bound"); return sysfail(ex, st, "bound")
    def listen(ex, st, a, ins): ex.oblige(st, AND(bv(a[0], 32) == s.fd, st.g["bound"]), "the bound socket listens"); st.g["ok"] = T; return sysfail(ex, st, "ok")
    s = Env(ctx, [(r"^socket$", socket), (r"^bind$", bind), (r"^listen$", listen)], bare=True); v = s.v; o = s.off; st = s.st; s.fd = fresh("fd", 32); st.assume(s.fd >= 0); P = new_region(st, "path", 32, align=8); s.rid, n = new_string(st, Ptr(P.rid, 0), "path"); n = bv(n)
    for k in ("made", "bound", "ok"): st.g[k] = F
    j = fresh("j"); st.assume(LT(j, o["sun_size"] - o["sun_path"]))
    for q, _ in rets(v, v.run(st, v.fn("^vp_cd_ctor$"), [s.this, Ptr(P.rid, 0)]), "construction"):
        rid, m = s.pf(q); ok = q.g["ok"]; d, ln = str_get(v, q, Ptr(s.cd, o["cd_path"])); v.cover(q, "made"); v.oblige(q, bv(m) == z3.If(zb(ok), bv(1), bv(0)), "the dispatcher is open exactly when its socket listens"); v.oblige(q, bv(q.g["closed"]) == z3.If(zb(AND(q.g["made"], NOT(ok))), bv(1), bv(0)), "a socket that cannot be used is closed")
        v.oblige(q, bv(ln) == z3.If(zb(q.g["bound"]), n, bv(0)), "the path is kept exactly when a socket was bound to it"); v.oblige(q, IMP(AND(q.g["bound"], LT(j, n)), bv(read_byte(q, d.rid, add(d.off, j)), 8) == bv(read_byte(q, s.rid, j), 8)), "the path kept is the one bound")
        if rid is not None: v.oblige(q, AND(s.fld(q, 0, "pf_fd", 4) == s.fd, s.fld(q, 0, "pf_events", 2) == o["pollin"], s.fld(q, 0, "pf_revents", 2) == 0), "the listening socket is waited on for connections"); v.cover(q, "listening")
        for u, r in rets(v, v.run(q, v.fn("^vp_cd_open$"), [s.this]), "is_open"): v.oblige(u, zb(r) == zb(ok) if not (isz(r) and z3.is_bv(r)) else (r != 0) == zb(ok), "is_open tells whether the socket listens")
    need_covers(ctx, v, ["made", "socket", "bound", "listening", "closed"])

@harness("dispatch.destroy", ("C13",), cost=2)
def h_dtor(ctx):
    def unlink(ex, st, a, ins):
        p = ex.bounds(st, a[0], simp(n + 1), "path", False); ex.oblige(st, AND(n != 0, bv(st.g["errs"]) == 0, IMP(LT(j, n), bv(read_byte(st, p.rid, add(p.off, j)), 8) == bv(read_byte(st, s.rid, j), 8))), "only the bound path is removed, once"); st.g["errs"] = inc(st.g["errs"]); ex.cover(st, "unlinked"); s2 = st.fork(); s.errno(ex, s2); return [Ret(st, 0), Ret(s2, mask(-1, 32))]
    def destroy(ex, st, a, ins): ex.oblige(st, AND(num(st, a[0]) == num(st, Ptr(s.PF, 0)), num(st, a[1]) == num(st, Ptr(s.PF, simp(bv(s.N) * 8)))), "all connections are closed"); st.g["closed"] = T; return 0
    s = Env(ctx, [(r"^unlink$", unlink), (rf"^void std::_Destroy<{CD}::pollfd\*>\(", destroy)]); v = s.v; o = s.off; st = s.st; st.g["closed"] = F; s.rid, n = new_string(st, Ptr(s.cd, o["cd_path"]), "path"); n = bv(n); j = fresh("j")
    for q, _ in rets(v, v.run(st, v.fn("^vp_cd_dtor$"), [s.this]), "destruction"): v.oblige(q, bv(q.g["errs"]) == z3.If(n != 0, bv(1), bv(0)), "the socket file is removed exactly when one was bound"); v.oblige(q, q.g["closed"], "all connections are closed"); v.cover(q, "destroyed")
    need_covers(ctx, v, ["destroyed", "unlinked"])

@harness("consumer.set_command_path", ("C13", "C14"), cost=5)
def h_setpath(ctx):
    CM = rf"std::unordered_map<unsigned int, {CD}::callback, .*>::"; KEYS = {}
    def new(ex, st, a, ins):
        r = new_region(st, "heap", a[0], align=16, kind="heap"); return Ptr(r.rid, 0)
    def ctor(ex, st, a, ins):
        d, m = str_get(ex, st, a[1]); ex.oblige(st, AND(bv(m) == n, IMP(LT(j, n), bv(read_byte(st, d.rid, add(d.off, j)), 8) == bv(read_byte(st, rid, j), 8))), "the dispatcher is made for the path given"); p = a[0]; st.g["$cd"] = p.rid; st.g["ctor"] = inc(st.g["ctor"]); ex.cover(st, "made"); out = []
        for k in (0, 1):
            q = st.fork() if k == 0 else st; r = new_region(q, "pfds", 8, align=8, kind="heap"); q.g["open"] = B(z3.BoolVal(k == 1))
            mem_write(q, p.rid, add(p.off, o["cd_pollfds"]), 8, Ptr(r.rid, 0)); mem_write(q, p.rid, add(p.off, o["cd_pollfds"] + 8), 8, Ptr(r.rid, 8 * k)); out.append(Ret(q, 0))
        return out
    def delete(ex, st, a, ins):
        p = a[1]; st.g["deleted"] = inc(st.g["deleted"]); ex.oblige(st, OR(num(st, p) == old, AND(num(st, p) == num(st, Ptr(st.g["$cd"], 0)) if st.g.get("$cd") else F, NOT(st.g["open"]))), "only the previous dispatcher, or one that could not be opened, is destroyed"); return 0
    def at(ex, st, a, ins):
        ex.oblige(st, num(st, a[0]) == num(st, Ptr(st.g["$cd"], o["cd_callbacks"])), "handlers are registered with the new dispatcher"); k = ex.bounds(st, a[1], 4, "key", False); k = mem_read(st, k.rid, k.off, 4)
        if not isinstance(k, int): raise Unsupported("message id")
        N = dict(st.g.get("$nodes", {}))
        if k not in N: r = new_region(st, f"handler{k}", o["cb_size"], align=8, kind="heap", zero=True); N[k] = r.rid; mem_write(st, r.rid, 0, 8, 0); mem_write(st, r.rid, 8, 8, 0); mem_write(st, r.rid, 16, 8, 0); mem_write(st, r.rid, 24, 8, 0); mem_write(st, r.rid, 32, 8, 0); st.g["$nodes"] = N
        return Ptr(N[k], 0)
    def handler(which):
        def h(ex, st, a, ins): ex.oblige(st, AND(num(st, a[0]) == num(st, Ptr(co.rid, 0)), bv(a[1], 32) == fd, z3.BoolVal(st.g.get("$want") == which)), "a message goes to the handler of its kind"); ex.oblige(st, num(st, a[2]) == num(st, Ptr(fb.rid, o["hdr_size"])) if which != "reopen" else T, "the handler gets the message's contents"); st.g["called"] = inc(st.g["called"]); ex.cover(st, which); return 0
        return h
    v = ctx.verifier(["consumer", "dispatch"], [(rf"^{CD}::command_dispatcher\(", ctor), (r"^xtr::detail::command_dispatcher_deleter::operator\(\)", delete), (rf"^{CM}operator\[\]\(", at), (rf"^{CM}", lambda ex, st, a, i: (_ for _ in ()).throw(Unsupported("map function"))),
        (r"^xtr::detail::consumer::status_handler\(", handler("status")), (r"^xtr::detail::consumer::set_level_handler\(", handler("level")), (r"^xtr::detail::consumer::reopen_handler\(", handler("reopen"))] + STR)
    o = v.off; st = State(); co = new_region(st, "consumer", o["co_size"], align=8); P = new_region(st, "path", 32, align=8); rid, n = new_string(st, Ptr(P.rid, 0), "path"); n = bv(n); j = fresh("j"); fd = fresh("fd", 32); fb = new_region(st, "frame", o["frame_max"], align=16, arr=fresh_arr("frame"))
    od = new_region(st, "old", 8, kind="heap"); has = fresh("has", 1); old = z3.If(has if z3.is_bool(has) else has != 0, bv(addr(st, Ptr(od.rid, 0))), bv(0)); mem_write(st, co.rid, o["co_cmds"], 8, old)
    for k, x in (("ctor", Z), ("deleted", Z), ("called", Z), ("open", F)): st.g[k] = x
    null = [ord(c) for c in "\0"]
    for q, _ in rets(v, v.run(st, v.fn("^vp_co_path$"), [Ptr(co.rid, 0), Ptr(P.rid, 0)]), "set_command_path"):
        cm = num(q, mem_read(q, co.rid, o["co_cmds"], 8)); v.cover(q, "returned")
        if q.g.get("$cd") is None: v.oblige(q, AND(cm == old, bv(q.g["deleted"]) == 0), "without a path nothing changes"); v.cover(q, "no path"); continue
        v.oblige(q, cm == z3.If(zb(q.g["open"]), num(q, Ptr(q.g["$cd"], 0)), bv(0)), "the dispatcher is kept exactly when it could be opened"); N = q.g.get("$nodes", {})
        if z3.is_false(z3.simplify(zb(q.g["open"]))): continue
        v.oblige(q, z3.BoolVal(set(N) == {o["id_" + k] for k in ("status", "level", "reopen")}), "exactly the known messages have handlers")
        for k in ("status", "level", "reopen"):
            r = N.get(o["id_" + k])
            if r is None: continue
            u = q.fork(); u.g["$want"] = k; v.oblige(u, eq(mem_read(u, r, o["cb_n"], 8), o["fs_" + k]), "a message is accepted with exactly the length of its kind")
            for w, _ in rets(v, v.run(u, v.fn(r"^std::function<void \(int, void\*\)>::operator\(\)\(int, void\*\) const"), [Ptr(r, o["cb_func"]), fd, Ptr(fb.rid, 0)]), "the handler"): v.oblige(w, bv(w.g["called"]) == 1, "a message reaches its handler once")
    need_covers(ctx, v, ["returned", "made", "status", "level", "reopen", "no path"])
