"""Contracts of io_uring_fd_storage (C10; C11 and C17 for the descriptor).
The ring is an environment contract: io_uring_get_sqe / submit / wait_cqe with every outcome (full, short, EAGAIN and failed writes, close
completions, interrupted waits, full submission queue). Ghosts: out = operations queued whose completion was not consumed; unsub = operations queued
since the last submit. An operation is decoded from the bytes of the submission entry when it is submitted or the function returns."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.stdlib import set_errno, get_errno
from irv.strmodel import STR, new_string
from specs.fdio import FDENV, fd_start, closed, opened, isk, anyfd, some_errno, sys_err, open_ghosts, O_APPEND, O_CREAT, O_TRUNC, O_EXCL, O_WRONLY, O_RDWR, ENOENT
UNITS = ["uring"]
EAGAIN = 11
T = z3.BoolVal(True); F = z3.BoolVal(False)
def U(a, b): return z3.ULE(bv(a), bv(b))
def IMP(a, b): return z3.Implies(zb(a), zb(b))
def ite(c, a, b, n=64): return z3.If(zb(c), bv(a, n), bv(b, n))
ASSUME = ["io_uring: a completion reports at most the queued length or a negative error; the kernel writes exactly the bytes [addr, addr+res) of a completed write at its offset on its descriptor",
          "io_uring_get_sqe succeeds directly after a completion was consumed (no submit call failed and the batch is at most the queue; uring.progress.* proves that under successful submits it never fails)",
          "XTR_IO_URING_POLL=0 (the default)"]

def havoc_all(st, rid): mem_havoc(st, rid)
def num(st, x): return bv(addr(st, x) if isinstance(x, (Ptr, FnP)) else fresh("undef") if x is UNDEF else x)
def uge1(x): return z3.UGE(bv(x), bv(1))
class Ring:
    def __init__(s, ctx, waitc=True, prog=False, extra=()):
        s.ctx = ctx; s.prog = prog; ctx.extra_assume += ASSUME
        C = list(extra) + [(r"^io_uring_cq_advance\(|^io_uring_cq_advance$", s.advance), (r"^fprintf$|^fputs$|^fwrite$|^perror$|^vfprintf$", lambda ex, st, a, i: fresh("n", 32)), (r"^strerror$", lambda ex, st, a, i: cstring(st, "err")),
             (r"^io_uring_queue_init$", s.queue_init), (r"^io_uring_queue_exit$", s.queue_exit), (r"^fsync$|^fdatasync$", s.fsync)]
        if waitc: C.append((r"^xtr::io_uring_fd_storage::wait_for_one_cqe\(\)", s.wait_contract))
        s.v = v = ctx.verifier("uring", C + FDENV + STR, s.loops); s.off = v.off; s.st = st = State(); fd_start(v, st); s.expect = None; s.invs = []; s.objs = []
        for k in ("need", "sqe", "cqe", "rs", "room", "werr"): st.g[k] = F
        s.out0 = fresh("out0"); s.unsub0 = fresh("unsub0"); st.assume(U(s.unsub0, s.out0)); st.assume(U(s.out0, 1 << 48))
        st.g.update({"out": s.out0, "unsub": s.unsub0, "nops": z3.BitVecVal(0, 64), "last": z3.BitVecVal(0, 64), "submits": z3.BitVecVal(0, 64), "exits": z3.BitVecVal(0, 64)})
        s.sqe = new_region(st, "sqe", s.off["sqe_size"], align=8, kind="env"); s.cqe = new_region(st, "cqe", 16, align=8, kind="env")
        def rd(ex, st, p, n, write): ex.oblige(st, st.g["cqe"], "a completion entry is not used after it was handed back")
        st.wregion(s.cqe.rid).check = rd
    def loops(s, ex, st, f):
        return LoopSpec(invs=[("no open obligation", lambda ex, q: AND(NOT(q.g["need"]), NOT(q.g["rs"]), NOT(q.g["cqe"]), NOT(q.g["sqe"]))), ("no open obligation 2", lambda ex, q: AND(NOT(q.g["rs"]), NOT(q.g["sqe"]), NOT(q.g["need"]))),
            ("pending==out", lambda ex, q: eq(s.fld(q, "pending"), q.g["out"]) if s.this else T), ("out==out0", lambda ex, q: q.g["out"] == s.out0), ("out<=out0", lambda ex, q: U(q.g["out"], s.out0)), ("unsub<=unsub0", lambda ex, q: AND(U(q.g["unsub"], s.unsub0), U(q.g["unsub"], q.g["out"]))),
            ("nops==0", lambda ex, q: q.g["nops"] == 0), ("last==0", lambda ex, q: q.g["last"] == 0), ("unsub==0", lambda ex, q: q.g["unsub"] == 0)] + s.invs, objs=s.objs)
    # ------------------------------------------------------------ objects
    this = None
    def storage(s, fns=True):
        st = s.st; o = s.off; r = new_region(st, "storage", o["us_size"], align=8); s.this = Ptr(r.rid, 0); s.fd = anyfd(st, "storagefd"); st.assume(s.fd >= 0)
        mem_write(st, r.rid, 0, 8, Ptr(s.v.global_region(st, "_ZTVN3xtr19io_uring_fd_storageE"), 16)); mem_write(st, r.rid, o["us_fd"], 4, s.fd)
        s.path = new_string(st, Ptr(r.rid, o["us_path"]), "reopen_path")
        s.cap = fresh("cap"); st.assume(U(s.cap, 0x7fffffff)); s.set(st, "cap", s.cap); s.B = fresh("batch"); s.N = fresh("N"); st.assume(AND(U(1, s.B), U(s.B, s.N), U(1, s.N), U(s.N, 0x7fffffff))); s.set(st, "batch", s.B)
        s.bidx = fresh("bidx"); s.set(st, "bidx", s.bidx); s.set(st, "pending", s.out0); s.off0 = fresh("offset"); st.assume(U(s.off0, 1 << 60)); s.set(st, "offset", s.off0)
        store = new_region(st, "buffer_storage", 64, align=16, kind="heap"); s.store = store.rid; s.set(st, "store", Ptr(store.rid, 0))
        s.free0 = fresh("freelist"); st.g["freeval"] = s.free0; s.set(st, "free", s.free0)
        for k, h in (("fsubmit", s.submit), ("fget", s.get), ("fwait", s.wait), ("fsqw", s.nocall), ("fpeek", s.nocall)): s.set(st, k, FnP(Pseudo("io_uring " + k[1:], h)))
        if s.prog: st.assume(U(s.unsub0, z3.URem(s.bidx, s.B)))
        return s.this
    def set(s, st, f, x): mem_write(st, s.this.rid, s.off["us_" + f], 8, x)
    def fld(s, st, f): return mem_read(st, s.this.rid, s.off["us_" + f], 8)
    def fdv(s, st): return mem_read(st, s.this.rid, s.off["us_fd"], 4)
    def buffer(s, st, name):
        r = new_region(st, name, add(s.cap, s.off["ub_data"]), align=s.off["ub_align"], kind="heap")
        def ck(ex, st, p, n, write):
            if write: ex.oblige(st, U(add(p.off, n), s.off["ub_data"]), "the bytes of a submitted buffer are not modified")
        st.wregion(r.rid).check = ck; return r.rid
    def b(s, st, rid, f): n = 4 if f in ("index", "size") else 8; return mem_read(st, rid, s.off["ub_" + f], n)
    def bset(s, st, rid, f, x): n = 4 if f in ("index", "size") else 8; mem_write(st, rid, s.off["ub_" + f], n, x)
    def isp(s, st, x, rid, off=0):
        """x is the address rid+off"""
        if isz(x):
            try: x = resolve(st, x)
            except NeedFork: return bv(x) == bv(addr(st, Ptr(rid, off)))
        if isinstance(x, Ptr): return eq(x.off, off) if x.rid == rid else F
        if x is UNDEF: return F
        return bv(x) == bv(addr(st, Ptr(rid, off)))
    def qinv(s, st, rid):
        """a queued buffer: the operation in flight is [data+offset_, size_) at file_offset_"""
        return AND(U(s.b(st, rid, "offset"), s.cap), U(z3.ZeroExt(32, bv(s.b(st, rid, "size"), 32)), bv(s.cap) - bv(s.b(st, rid, "offset"))))
    # ------------------------------------------------------------ environment
    def ring_ok(s, ex, st, a): ex.oblige(st, s.isp(st, a[0], s.this.rid, s.off["us_ring"]), "the storage's own ring is used")
    def nocall(s, ex, st, a, ins): raise Unsupported("polling function called although XTR_IO_URING_POLL=0")
    def sq(s, st, f, n): return mem_read(st, s.sqe.rid, s.off["sqe_" + f], n)
    def settle(s, ex, st):
        c = simp(st.g["sqe"]); st.g["sqe"] = F
        if z3.is_false(zb(c)) or not ex.solver.feasible(st, zb(c)): return
        s.expect(ex, st, zb(c)); st.g["nops"] = simp(st.g["nops"] + ite(c, 1, 0))
    def submit(s, ex, st, a, ins):
        s.ring_ok(ex, st, a); s.settle(ex, st); st.g["unsub"] = z3.BitVecVal(0, 64); st.g["rs"] = F; st.g["submits"] = simp(st.g["submits"] + 1); return fresh("submitted", 32)
    def get(s, ex, st, a, ins):
        s.ring_ok(ex, st, a); s.settle(ex, st); res = []; n = st.fork()
        n.assume(U(s.N, n.g["unsub"]) if s.prog else AND(bv(n.g["out"]) != 0, NOT(n.g["room"])))
        if ex.solver.feasible(n, T): res.append(Ret(n, 0))
        r = s.sqe.rid; havoc_all(st, r); st.g["sqe"] = T; st.g["room"] = F; st.g["out"] = simp(st.g["out"] + 1); st.g["unsub"] = simp(st.g["unsub"] + 1)
        return res + [Ret(st, Ptr(r, 0))]
    def may_wait(s, ex, st):
        ex.oblige(st, bv(st.g["out"]) != 0, "waits for a completion only if an operation is outstanding")
        if s.prog: ex.oblige(st, z3.ULT(bv(st.g["unsub"]), bv(st.g["out"])), "waits for a completion only if a submitted operation is outstanding")
        st.assume(bv(st.g["out"]) != 0)
    def idle(s, ex, st, what):
        ex.oblige(st, NOT(st.g["need"]), what + ": an unfinished write was queued again")
        ex.oblige(st, NOT(st.g["rs"]), what + ": the remainder of an unfinished write was submitted")
        ex.oblige(st, NOT(st.g["cqe"]), what + ": every completion is handed back exactly once")
    def wait(s, ex, st, a, ins):
        s.ring_ok(ex, st, a); s.settle(ex, st); s.idle(ex, st, "before waiting again"); s.may_wait(ex, st)
        ex.oblige(st, NOT(st.g["fin"]), "one completion is handled per call unless the write was unfinished")
        e = st.fork(); er = fresh("errnum", 32); e.assume(AND(er < 0, er > -4096)); e.g["werr"] = T; ex.cover(e, "wait failed")
        st.g["out"] = simp(st.g["out"] - 1); st.g["cqe"] = T; st.g["room"] = T
        mem_write(st, a[1].rid, a[1].off, 8, Ptr(s.cqe.rid, 0)); res = fresh("res", 32); c = st.fork(); q = s.cqe.rid
        for x in (st, c): mem_write(x, q, s.off["cqe_res"], 4, res)
        # close
        mem_write(c, q, s.off["cqe_ud"], 8, 0); c.g["last"] = z3.BitVecVal(2, 64); c.g["fin"] = T; c.g["may"] = F; ex.cover(c, "close completed")
        # write
        mem_write(st, q, s.off["cqe_ud"], 8, Ptr(s.buf, 0)); havoc_all(st, s.buf); st.assume(s.qinv(st, s.buf)); sz = bv(s.b(st, s.buf, "size"), 32)
        st.assume(AND(res > -4096, z3.Or(res < 0, z3.ULE(res, sz)))); need = z3.Or(res == -EAGAIN, AND(res >= 0, res != sz)); k = z3.If(res < 0, z3.BitVecVal(0, 32), res); k64 = z3.ZeroExt(32, k)
        st.g.update({"need": need, "may": z3.Or(need, res < 0), "fin": NOT(need), "last": ite(need, 0, 1), "x.len": simp(sz - k), "x.off": simp(bv(s.b(st, s.buf, "offset")) + k64), "x.foff": simp(bv(s.b(st, s.buf, "foff")) + k64), "x.index": bv(s.b(st, s.buf, "index"), 32)})
        return [Ret(st, 0), Ret(c, 0), Ret(e, er)]
    def advance(s, ex, st, a, ins):
        s.ring_ok(ex, st, a); ex.oblige(st, AND(st.g["cqe"], eq(a[1], 1, 32)), "a completion is handed back exactly once"); st.g["cqe"] = F; return 0
    def fsync(s, ex, st, a, ins):
        ex.oblige(st, eq(a[0], s.fd, 32), "sync: the working descriptor is synced"); ex.oblige(st, bv(st.g["out"]) == 0, "sync: the file is synced after every operation has completed")
        st.g["synced"] = T; t = st.fork(); some_errno(ex, t); return [Ret(st, 0), Ret(t, mask(-1, 32))]
    def queue_exit(s, ex, st, a, ins):
        s.ring_ok(ex, st, a); ex.oblige(st, bv(st.g["out"]) == 0, "the ring is released only after every operation has completed"); st.g["exits"] = simp(st.g["exits"] + 1); return 0
    def queue_init(s, ex, st, a, ins): raise Unsupported("io_uring_queue_init")
    # ------------------------------------------------------------ wait_for_one_cqe as its callers see it
    head = None     # region standing for the buffer at the head of the free list
    def wait_contract(s, ex, st, a, ins):
        ex.oblige(st, s.isp(st, a[0], s.this.rid), "wait_for_one_cqe: called on this storage"); s.settle(ex, st); s.may_wait(ex, st)
        ex.oblige(st, eq(s.fld(st, "pending"), st.g["out"]), "wait_for_one_cqe: the pending count equals the outstanding operations"); ex.cover(st, "waited")
        u = fresh("unsub"); st.assume(AND(U(u, st.g["unsub"]), U(u, st.g["out"]))); st.g["unsub"] = u
        e = st.fork(); st.assume(z3.ULT(u, bv(st.g["out"]))); st.g["out"] = simp(st.g["out"] - 1); s.set(st, "pending", st.g["out"]); st.g["room"] = T; c = st.fork()
        if "qb" in st.g: st.assume(z3.UGE(bv(st.g["qb"]), bv(1))); st.g["qb"] = simp(st.g["qb"] - 1); st.g["nf"] = simp(st.g["nf"] + 1); c.assume(U(c.g["qb"], c.g["out"])); st.assume(U(st.g["qb"], st.g["out"]))
        if s.head is not None:
            old = s.fld(st, "free"); havoc_all(st, s.head); s.bset(st, s.head, "next", old); st.g["tail"] = bv(old) if not isinstance(old, Ptr) else addr(st, old); s.set(st, "free", Ptr(s.head, 0))
        else: st.g["freeval"] = fresh("freelist"); s.set(st, "free", st.g["freeval"])
        return [Ret(st, 0), Ret(c, 0), Ret(e, 0)]
    # ------------------------------------------------------------ common postconditions
    def frame(s, v, st, what, changed=()):
        for f, x in (("cap", s.cap), ("batch", s.B), ("bidx", s.bidx), ("offset", s.off0), ("free", s.free0), ("store", None)):
            if f in changed: continue
            y = s.fld(st, f); v.oblige(st, s.isp(st, y, s.store) if f == "store" else num(st, y) == bv(x), f"{what}: leaves {dict(cap='the capacity', batch='the batch size', bidx='the batch count', offset='the file offset', free='the free list', store='the buffers')[f]} alone")
        if "fd" not in changed: v.oblige(st, AND(eq(s.fdv(st), s.fd, 32), closed(st) == 0, opened(st) == 0), f"{what}: keeps the descriptor")
    def count(s, v, st, what): v.oblige(st, eq(s.fld(st, "pending"), st.g["out"]), f"{what}: the pending count equals the operations queued and not completed")
    def is_write(s, st, fd, rid, off, ln, foff, idx):
        fl = bv(s.sq(st, "flags", 1), 8); op = bv(s.sq(st, "op", 1), 8); wf = op == s.off["op_write_fixed"]
        return [("it is a write", z3.Or(wf, op == s.off["op_write"])), ("to the working descriptor", eq(s.sq(st, "fd", 4), fd, 32)), ("of the buffer's unwritten bytes", s.isp(st, s.sq(st, "addr", 8), rid, off)),
          ("of exactly their length", eq(s.sq(st, "len", 4), ln, 32)), ("at their place in the file", eq(s.sq(st, "off", 8), foff)), ("naming the buffer's registered index", IMP(wf, eq(s.sq(st, "bidx", 2), z3.Extract(15, 0, bv(idx, 32)), 16))),
          ("identified by the buffer", s.isp(st, s.sq(st, "ud", 8), rid)), ("with no special flags", (fl & ~z3.BitVecVal(s.off["f_drain"] | 16, 8)) == 0)]

@harness("uring.wait_for_one_cqe", ("C10",), cost=20)
def wait(ctx):
    s = Ring(ctx, waitc=False); v = s.v; st = s.st; s.storage(); s.buf = s.buffer(st, "completed")
    st.g.update({"fin": F, "may": F, "x.len": fresh("xlen", 32), "x.off": fresh("xoff"), "x.foff": fresh("xfoff"), "x.index": fresh("xidx", 32)}); st.assume(s.out0 != 0)
    def expect(ex, st, c):
        ex.cover(st, "queued again"); ex.oblige(st, IMP(c, st.g["may"]), "wait_for_one_cqe: queues an operation only for an unfinished write")
        for nm, f in s.is_write(st, s.fd, s.buf, add(st.g["x.off"], s.off["ub_data"]), st.g["x.len"], st.g["x.foff"], st.g["x.index"]): ex.oblige(st, IMP(c, f), f"wait_for_one_cqe: the write queued for the remainder: {nm}")
        ex.oblige(st, IMP(c, AND(eq(s.b(st, s.buf, "size"), st.g["x.len"], 32), eq(s.b(st, s.buf, "offset"), st.g["x.off"]), eq(s.b(st, s.buf, "foff"), st.g["x.foff"]), eq(s.b(st, s.buf, "index"), st.g["x.index"], 32))), "wait_for_one_cqe: the buffer records the remainder")
        st.g["may"] = AND(st.g["may"], NOT(c)); st.g["fin"] = AND(st.g["fin"], NOT(c)); st.g["last"] = ite(c, 0, st.g["last"]); st.g["need"] = AND(st.g["need"], NOT(c)); st.g["rs"] = z3.Or(st.g["rs"], c)
    s.expect = expect; s.invs.append(("not finished", lambda ex, q: NOT(q.g["fin"])))
    for d in v.run(st, v.fn("^vp_us_wait$"), [s.this]):
        q = d.st
        if d.kind != "ret": v.fail(q, "wait_for_one_cqe returns"); continue
        s.settle(v, q); s.idle(v, q, "wait_for_one_cqe"); s.count(v, q, "wait_for_one_cqe"); s.frame(v, q, "wait_for_one_cqe", ("free",))
        last = q.g["last"]; done = uge1(last); v.oblige(q, z3.Or(q.g["werr"], done), "wait_for_one_cqe: returns only after a completed operation or a failed wait")
        v.oblige(q, bv(q.g["out"]) == s.out0 - ite(done, 1, 0), "wait_for_one_cqe: exactly one operation fewer is outstanding, none if the wait failed")
        fl = s.fld(q, "free"); v.oblige(q, IMP(last == 1, AND(s.isp(q, fl, s.buf), num(q, s.b(q, s.buf, "next")) == s.free0)), "wait_for_one_cqe: a buffer whose write is complete joins the free list")
        v.oblige(q, IMP(last != 1, num(q, fl) == s.free0), "wait_for_one_cqe: nothing else joins or leaves the free list"); v.cover(q, "returned")
        if v.solver.check(q, AND(last == 1)) == z3.sat: v.covers["freed"] = True
        v.oblige(q, U(q.g["unsub"], s.unsub0), "wait_for_one_cqe: leaves no further operation unsubmitted")
    need_covers(ctx, v, ["wait failed", "close completed", "queued again", "returned", "freed"])

def submit_h(name, prog):
    @harness(name, ("C10",), cost=10)
    def h(ctx):
        s = Ring(ctx, prog=prog); v = s.v; st = s.st; s.storage(); size = fresh("size"); st.assume(U(size, s.cap)); D = s.buffer(st, "submitted")
        s.bset(st, D, "offset", 0); s.bset(st, D, "foff", s.off0); idx = fresh("index", 32); s.bset(st, D, "index", idx); nx = fresh("next"); s.bset(st, D, "next", nx)
        def expect(ex, st, c):
            for nm, f in s.is_write(st, s.fd, D, s.off["ub_data"], z3.Extract(31, 0, size), s.off0, idx): ex.oblige(st, IMP(c, f), f"submit_buffer: the write queued for the buffer: {nm}")
            ex.oblige(st, IMP(c, (bv(s.sq(st, "flags", 1), 8) & s.off["f_drain"]) != 0), "submit_buffer: the write queued for the buffer: starts only after the writes queued before it (files opened for appending ignore offsets)")
        s.expect = expect
        if prog:
            ctx.extra_assume.append("(b+1) mod B is (b mod B)+1 or 0 (division with remainder; the batch counter does not overflow 64 bits)")
            st.assume(s.bidx != mask(-1, 64)); r = z3.URem(s.bidx, s.B); st.assume(z3.URem(s.bidx + 1, s.B) == z3.If(r + 1 == s.B, z3.BitVecVal(0, 64), r + 1)); st.assume(z3.ULT(r, s.B))
        for d in v.run(st, v.fn("^vp_us_submit$"), [s.this, Ptr(D, s.off["ub_data"]), size]):
            q = d.st
            if d.kind != "ret": v.fail(q, "submit_buffer returns"); continue
            s.settle(v, q); v.cover(q, "returned")
            if prog:
                v.oblige(q, U(q.g["unsub"], z3.URem(bv(s.fld(q, "bidx")), bv(s.fld(q, "batch")))), "submit_buffer: fewer operations than a batch are left unsubmitted"); continue
            v.oblige(q, q.g["nops"] == 1, "submit_buffer: queues exactly one operation"); s.count(v, q, "submit_buffer"); s.frame(v, q, "submit_buffer", ("free", "bidx", "offset"))
            v.oblige(q, eq(s.fld(q, "offset"), s.off0 + size), "submit_buffer: the next buffer goes directly after this one"); v.oblige(q, AND(eq(s.b(q, D, "size"), z3.Extract(31, 0, size), 32), eq(s.b(q, D, "offset"), 0), eq(s.b(q, D, "foff"), s.off0), eq(s.b(q, D, "index"), idx, 32)), "submit_buffer: the buffer records what is in flight")
            v.oblige(q, num(q, s.fld(q, "free")) == bv(q.g["freeval"]), "submit_buffer: a buffer in flight is not on the free list")
        need_covers(ctx, v, ["returned"] if prog else ["returned", "waited"])
submit_h("uring.submit_buffer", False); submit_h("uring.progress.submit_buffer", True)

class FreeHead:
    """the free list as allocate_buffer sees it: empty, or headed by the region s.head"""
    def __init__(s, r): s.r = r
    def covers(s, st, rid, off): return rid == s.r.this.rid and isinstance(off, int) and off == s.r.off["us_free"] or rid == s.r.head
    def covers_ghost(s, g): return g == "tail"
    def shape(s, ex, st):
        c = fresh("isempty", 1); c = c if z3.is_bool(c) else c == 1; t = fresh("tail"); r = s.r; havoc_all(st, r.head); r.bset(st, r.head, "next", t); st.g["tail"] = t
        r.set(st, "free", z3.If(c, z3.BitVecVal(0, 64), addr(st, Ptr(r.head, 0)))); st.assume(c == (bv(st.g["nf"]) == 0)); st.assume(AND(st.g["nf"] + st.g["qb"] == r.N, U(st.g["nf"], r.N), U(st.g["qb"], r.N), U(st.g["qb"], st.g["out"])))
    def havoc(s, ex, st): s.shape(ex, st)
    def facts(s, ex, st): return []
    def check(s, ex, st):
        r = s.r; x = r.fld(st, "free"); z = eq(x, 0) if not isinstance(x, Ptr) else F
        return [("the free list is empty exactly if no buffer is free", AND(z3.Or(z, r.isp(st, x, r.head)), z == (bv(st.g["nf"]) == 0), bv(st.g["nf"]) + bv(st.g["qb"]) == r.N, U(st.g["qb"], st.g["out"]), IMP(NOT(z), num(st, r.b(st, r.head, "next")) == bv(st.g["tail"]))))]

def alloc_h(name, prog):
    @harness(name, ("C10",), cost=8)
    def h(ctx):
        s = Ring(ctx, prog=prog); v = s.v; st = s.st; s.storage(); s.head = s.buffer(st, "freebuf"); st.g["nf"] = fresh("nf"); st.g["qb"] = fresh("qb"); fh = FreeHead(s); fh.shape(v, st); s.objs = [fh]
        out = new_region(st, "span", 16, align=8)
        if prog: st.assume(z3.ULT(z3.URem(s.bidx, s.B), s.B))
        for d in v.run(st, v.fn("^vp_us_alloc$"), [s.this, Ptr(out.rid, 0)]):
            q = d.st
            if d.kind != "ret": v.fail(q, "allocate_buffer returns"); continue
            v.cover(q, "returned")
            if prog: continue
            v.oblige(q, AND(s.isp(q, mem_read(q, out.rid, 0, 8), s.head, s.off["ub_data"]), eq(mem_read(q, out.rid, 8, 8), s.cap)), "allocate_buffer: hands out the whole of a buffer that was free")
            v.oblige(q, num(q, s.fld(q, "free")) == bv(q.g["tail"]), "allocate_buffer: removes exactly that buffer from the free list")
            v.oblige(q, AND(eq(s.b(q, s.head, "offset"), 0), eq(s.b(q, s.head, "foff"), s.fld(q, "offset"))), "allocate_buffer: the buffer starts where the previous buffer's bytes end"); s.count(v, q, "allocate_buffer"); s.frame(v, q, "allocate_buffer", ("free",))
            v.oblige(q, AND(q.g["nops"] == 0, NOT(q.g["sqe"])), "allocate_buffer: queues nothing")
        need_covers(ctx, v, ["returned", "waited"])
alloc_h("uring.allocate_buffer", False); alloc_h("uring.progress.allocate_buffer", True)

@harness("uring.get_sqe.progress", ("C10",), cost=4)
def getsqe(ctx):
    s = Ring(ctx, prog=True); v = s.v; st = s.st; s.storage(); st.assume(z3.ULT(z3.URem(s.bidx, s.B), s.B)); s.expect = lambda ex, st, c: None
    for d in v.run(st, v.fn("^vp_us_get_sqe$"), [s.this]):
        q = d.st
        if d.kind != "ret": v.fail(q, "get_sqe returns"); continue
        v.cover(q, "returned"); v.oblige(q, s.isp(q, d.val, s.sqe.rid), "get_sqe: returns a submission entry")
    need_covers(ctx, v, ["returned"])

@harness("uring.sync_flush", ("C10",), cost=4)
def sync(ctx):
    for prog in (False, True):
        s = Ring(ctx, prog=prog); v = s.v; st = s.st; s.storage(); st.g["synced"] = F
        for d in v.run(st, v.fn("^vp_us_flush$"), [s.this]):
            q = d.st
            if d.kind != "ret": v.fail(q, "flush returns"); continue
            v.oblige(q, AND(q.g["unsub"] == 0, q.g["nops"] == 0, uge1(q.g["submits"])), "flush: submits everything queued, and nothing else"); s.count(v, q, "flush"); s.frame(v, q, "flush"); v.cover(q, "flushed")
            for d2 in v.run(q, v.fn("^vp_us_sync$"), [s.this]):
                q2 = d2.st
                if d2.kind != "ret": v.fail(q2, "sync returns"); continue
                v.cover(q2, "synced"); v.oblige(q2, AND(bv(q2.g["out"]) == 0, q2.g["synced"]), "sync: returns only when nothing is outstanding and the file was synced"); s.count(v, q2, "sync"); s.frame(v, q2, "sync", ("free",))
        need_covers(ctx, v, ["flushed", "synced", "waited"])

@harness("uring.destructor", ("C10", "C17"), cost=4)
def dtor(ctx):
    s = Ring(ctx); v = s.v; st = s.st; s.storage(); st.g["synced"] = F
    for d in v.run(st, v.fn("^vp_us_dtor$"), [s.this]):
        q = d.st
        if d.kind != "ret": v.fail(q, "destructor returns"); continue
        v.cover(q, "destroyed"); v.oblige(q, AND(q.g["exits"] == 1, q.g["synced"], bv(q.g["out"]) == 0), "destructor: waits for every operation, syncs the file, then releases the ring once")
        v.oblige(q, uge1(q.g["submits"]), "destructor: submits what was queued"); v.oblige(q, closed(q) == isk(q, s.fd), "destructor: closes the working descriptor once and nothing else"); v.oblige(q, z3.BoolVal(not q.mem[s.store].live), "destructor: frees the buffers")
    need_covers(ctx, v, ["destroyed"])

@harness("uring.reopen", ("C10", "C11", "C17"), cost=6)
def reopen(ctx):
    s = Ring(ctx); v = s.v; st = s.st; s.storage(); open_ghosts(st); (prid, pn) = s.path; empty = pn == 0
    def chk(ex, st, a):
        ok = isinstance(a[0], Ptr) and a[0].rid == prid; fl = bv(a[1], 32)
        ex.oblige(st, AND(z3.BoolVal(ok), eq(a[0].off if ok else 1, 0), NOT(empty)), "reopen: opens the configured path")
        ex.oblige(st, AND((fl & (O_APPEND | O_CREAT)) == (O_APPEND | O_CREAT), (fl & (O_TRUNC | O_EXCL)) == 0, z3.Or((fl & 3) == O_WRONLY, (fl & 3) == O_RDWR)), "reopen: opens for appending, creating the file if needed")
        ex.oblige(st, AND(closed(st) == 0, st.g["nops"] == 0), "reopen: the working descriptor is not closed before the new file is open")
    st.g["open.check"] = chk; s.invs.append(("unsettled", lambda ex, q: NOT(q.g["open.settled"])))
    def expect(ex, st, c):
        fl = bv(s.sq(st, "flags", 1), 8)
        for nm, f in (("it is a close", eq(s.sq(st, "op", 1), s.off["op_close"], 8)), ("of the old descriptor", eq(s.sq(st, "fd", 4), s.fd, 32)), ("after every write queued before it", (fl & s.off["f_drain"]) != 0), ("with no other special flag", (fl & ~z3.BitVecVal(s.off["f_drain"] | 16, 8)) == 0),
                      ("not identified as a buffer", eq(s.sq(st, "ud", 8), 0))): ex.oblige(st, IMP(c, f), f"reopen: the operation queued on the old descriptor: {nm}")
    s.expect = expect
    for d in v.run(st, v.fn("^vp_us_reopen$"), [s.this]):
        q = d.st
        if d.kind != "ret": v.fail(q, "reopen returns an error number instead of throwing"); continue
        s.settle(v, q); nfd = s.fdv(q); ok = q.g["open.ok"]; s.count(v, q, "reopen"); s.frame(v, q, "reopen", ("free", "fd"))
        v.oblige(q, closed(q) == 0, "reopen: the old descriptor is not closed before the writes queued on it")
        v.oblige(q, IMP(empty, AND(eq(d.val, ENOENT, 32), eq(nfd, s.fd, 32), q.g["nops"] == 0, opened(q) == 0)), "reopen: without a path reports ENOENT and keeps the descriptor")
        v.oblige(q, IMP(NOT(empty), q.g["open.settled"]), "reopen: open is retried while interrupted")
        v.oblige(q, IMP(AND(NOT(empty), NOT(ok)), AND(eq(d.val, q.g["open.errno"], 32), eq(nfd, s.fd, 32), q.g["nops"] == 0)), "reopen: on failure reports the error number and keeps the descriptor")
        v.oblige(q, IMP(ok, AND(eq(d.val, 0, 32), eq(nfd, q.g["open.fd"], 32), q.g["nops"] == 1, q.g["unsub"] == 0)), "reopen: on success uses the new descriptor and queues and submits exactly one close of the old one"); v.cover(q, "returned")
        if v.solver.check(q, ok) == z3.sat: v.covers["success"] = True
        if v.solver.check(q, AND(NOT(ok), NOT(empty))) == z3.sat: v.covers["failure"] = True
        if v.solver.check(q, empty) == z3.sat: v.covers["no path"] = True
    need_covers(ctx, v, ["success", "failure", "no path"])

@harness("uring.constructor", ("C10", "C17"), cost=6)
def ctor(ctx):
    box = {}
    def pool(ex, st, a, ins):
        ex.oblige(st, AND(s.isp(st, a[0], m.rid), eq(a[1], Q)), "constructor: allocates as many buffers as the queue has entries"); ex.oblige(st, st.g["inited"], "constructor: buffers are registered with an initialised ring")
        ex.oblige(st, eq(s.fld(st, "cap"), cap), "constructor: the buffers have the requested capacity")
        t = st.fork(); e = fresh("e", 32); t.g["ctorerr"] = e; s.set(st, "free", fresh("freelist")); r = new_region(st, "store", 64, kind="heap"); s.set(st, "store", Ptr(r.rid, 0)); ex.cover(t, "buffers not registered"); t.g["why"] = z3.BitVecVal(2, 64)
        from irv.stdlib import EXC_TYPES
        return [Ret(st, 0), Throw(t, Exc(EXC_TYPES["system_error"], kind="system_error", errnum=e))]
    s = Ring(ctx, extra=[(r"^xtr::io_uring_fd_storage::allocate_buffers\(", pool)]); v = s.v; st = s.st
    def init(ex, st, a, ins):
        ex.oblige(st, AND(eq(a[0], z3.Extract(31, 0, Q), 32), eq(a[2], 0, 32)), "constructor: the ring has the requested size"); ex.oblige(st, s.isp(st, a[1], m.rid, s.off["us_ring"]), "constructor: the storage's own ring is used")
        t = st.fork(); e = fresh("initerr", 32); t.assume(AND(e < 0, e > -4096)); t.g["ctorerr"] = -e; ex.cover(t, "ring not available"); st.g["inited"] = T; t.g["why"] = z3.BitVecVal(1, 64); return [Ret(st, 0), Ret(t, e)]
    v.contracts = [(r"^io_uring_queue_init$", init)] + v.contracts
    m = new_region(st, "storage", s.off["us_size"], align=8); s.this = Ptr(m.rid, 0); given = anyfd(st, "given"); st.g["dup.arg"] = given; st.g.update({"out": z3.BitVecVal(0, 64), "unsub": z3.BitVecVal(0, 64), "inited": F, "ctorerr": z3.BitVecVal(0, 32), "why": z3.BitVecVal(0, 64)})
    sp = new_region(st, "path", 32, align=8); new_string(st, Ptr(sp.rid, 0), "path"); cap = fresh("cap"); Q = fresh("queue"); B = fresh("batch")
    for d in v.run(st, v.fn("^vp_us_ctor$"), [s.this, given, Ptr(sp.rid, 0), cap, Q, B]):
        q = d.st; big = z3.Or(z3.UGT(cap, bv(0x7fffffff)), z3.UGT(Q, bv(0x7fffffff)))
        if d.kind == "throw":
            v.oblige(q, closed(q) == opened(q), "constructor: a failed construction closes exactly its own duplicate"); v.oblige(q, q.g["exits"] == ite(q.g["inited"], 1, 0), "constructor: a failed construction releases the ring it initialised")
            if d.val.kind == "invalid_argument": v.cover(q, "limits"); v.oblige(q, big, "constructor: rejects only sizes out of range")
            else:
                v.oblige(q, z3.BoolVal(d.val.kind == "system_error"), "constructor: fails with a system error")
                v.oblige(q, z3.Or(q.g["why"] != 1, eq(d.val.errnum, q.g["ctorerr"], 32)), "constructor: the error carries the ring's error number")
            continue
        if d.kind != "ret": v.fail(q, "constructor returns or throws"); continue
        v.cover(q, "constructed"); fd = s.fdv(q); v.oblige(q, NOT(big), "constructor: sizes out of range are rejected"); v.oblige(q, AND(closed(q) == 0, opened(q) == isk(q, fd)), "constructor: owns exactly the duplicate it made")
        v.oblige(q, AND(eq(s.fld(q, "pending"), 0), eq(s.fld(q, "offset"), 0), eq(s.fld(q, "bidx"), 0)), "constructor: nothing is outstanding, output starts at offset zero"); b2 = bv(s.fld(q, "batch"))
        v.oblige(q, AND(eq(s.fld(q, "cap"), cap), b2 != 0, IMP(Q != 0, U(b2, Q)), IMP(AND(B != 0, U(B, Q)), b2 == B), q.g["exits"] == 0, q.g["inited"]), "constructor: keeps the capacity and the batch size, the latter at least one and no larger than the queue")
        for f, n in (("fsubmit", "io_uring_submit"), ("fget", "io_uring_get_sqe"), ("fwait", "io_uring_wait_cqe")):
            x = s.fld(q, f); x = resolve(q, x) if isz(x) else x; v.oblige(q, z3.BoolVal(isinstance(x, FnP) and re.search("(^|[0-9])" + n + "(P|$)", x.fn.name) is not None), f"constructor: uses {n}")
    need_covers(ctx, v, ["limits", "ring not available", "buffers not registered", "constructed"])

def pool_h(cap):
    @harness(f"uring.allocate_buffers.{cap}", ("C10",), cost=30)
    def h(ctx):
        s = Ring(ctx); v = s.v; st = s.st; s.storage(); s.set(st, "cap", cap); Q = fresh("Q"); J = fresh("J"); st.assume(AND(U(1, Q), U(Q, 0x7fffffff), z3.ULT(J, Q))); o = s.off
        mem_write(st, s.this.rid, o["us_store"], 8, 0); ctx.bounded.append(f"buffer capacity {cap}")
        ctx.extra_assume.append("allocate_buffers is verified for every queue size and the buffer capacities " + ", ".join(map(str, CAPS)))
        stride = (o["ub_data"] + cap + o["ub_align"] - 1) // o["ub_align"] * o["ub_align"]; box = {}
        def new(ex, st, a, ins):
            r = new_region(st, "heap", a[0], align=16, kind="heap"); r.tag = "heap"
            return Ptr(r.rid, 0)
        def facts(q, i, which):
            """what holds for entry J once i entries were built"""
            x = s.fld(q, "store"); x = resolve(q, x) if isz(x) else x
            if not isinstance(x, Ptr): return F
            at = lambda f, n, j=J: mem_read(q, x.rid, simp(j * stride + o["ub_" + f]), n)
            if which == "index": return eq(at("index", 4), z3.Extract(31, 0, J), 32)
            if which == "next": return bv(numb(q, at("next", 8))) == bv(addr(q, Ptr(x.rid, simp((J + 1) * stride))))
            if which == "last": return bv(numb(q, at("next", 8))) == 0
            if which == "free": return s.isp(q, s.fld(q, "free"), x.rid, 0)
        def numb(q, y): return addr(q, y) if isinstance(y, Ptr) else y
        def iovf(q, p):
            b = mem_read(q, p.rid, simp(bv(p.off) + J * 16), 8); x = s.fld(q, "store"); x = resolve(q, x) if isz(x) else x
            if not isinstance(x, Ptr): return F
            return AND(bv(numb(q, b)) == bv(addr(q, Ptr(x.rid, simp(J * stride + o["ub_data"])))), eq(mem_read(q, p.rid, simp(bv(p.off) + J * 16 + 8), 8), cap))
        def reg(ex, st, a, ins):
            s.ring_ok(ex, st, a); ex.oblige(st, eq(a[2], z3.Extract(31, 0, Q), 32), "allocate_buffers: registers as many buffers as the queue has entries")
            ex.oblige(st, iovf(st, a[1]), "allocate_buffers: every buffer is registered under its index, with its whole capacity")
            t = st.fork(); e = fresh("e", 32); t.assume(AND(e < 0, e > -4096)); t.g["err"] = -e; ex.cover(t, "registration failed"); return [Ret(st, 0), Ret(t, e)]
        st.g["err"] = z3.BitVecVal(0, 32)
        def grow(ex, st, a, ins):
            if ex.mode == "real" and ex.solver.feasible(st, T): raise Unsupported("vector of buffers grows while it is filled")
            return Stop(st, "grow")
        v.contracts = [(r"^void std::vector<iovec,.*_M_realloc_(insert|append)", grow), (r"^operator new(\[\])?\(unsigned long", new), (r"^io_uring_register_buffers$", reg)] + v.contracts
        def loops(ex, st, f):
            hp = [q for q in st.mem.values() if q.name == "heap"]; invs = []
            def add_(nm, c): invs.append((nm, c))
            ph = [p.id for p in f.bb.phis]; depth = len(st.frames) - 1
            def cnt(q):
                for i in ph:
                    x = q.frames[depth].regs.get(i)
                    if isz(x) and x.size() == 64 or isinstance(x, int): return bv(x)
            for w in ("index", "next", "free"):
                add_(f"{w} of entry J", lambda ex, q, w=w: (lambda i: None if i is None else IMP(z3.ULT(J + (1 if w == "next" else 0), i) if w != "free" else uge1(i), facts(q, i, w)))(cnt(q)))
            def iv(ex, q):
                i = cnt(q); r = [x for x in hp if x.rid in q.mem]
                if i is None: return None
                x = s.fld(q, "store"); x = resolve(q, x) if isz(x) else x
                c = [y for y in r if isinstance(x, Ptr) and y.rid != x.rid]
                return IMP(z3.ULT(J, i), iovf(q, Ptr(c[0].rid, 0))) if c else None
            add_("iov of entry J", iv); add_("i<=Q", lambda ex, q: (lambda i: None if i is None else AND(U(1, i), U(i, Q)))(cnt(q)))
            def at(k, e, c):       # a pointer into the pool kept next to the counter
                def g(ex, q):
                    i = cnt(q); x = s.fld(q, "store"); x = resolve(q, x) if isz(x) else x; p = q.frames[depth].regs.get(k)
                    return bv(p.off) == (i + e) * stride + c if i is not None and isinstance(p, Ptr) and isinstance(x, Ptr) and p.rid == x.rid else None
                return g
            for k in ph:
                for nm, e, c in (("the last entry's link", -1, o["ub_next"]), ("the entry", 0, 0), ("the entry's data", 0, o["ub_data"]), ("the last entry", -1, 0)): add_(f"phi{k} points at {nm}", at(k, e, c))
            def fin(ex, q):
                i = cnt(q); r = []
                for g in list(q.mem.values()):
                    if g.kind == "stack" and g.size == 24 and g.live:
                        x = mem_read(q, g.rid, 8, 8)
                        try: x = resolve(q, x) if isz(x) else x
                        except (NeedFork, Unsupported): continue
                        if isinstance(x, Ptr) and q.mem[x.rid].kind == "heap": r.append(bv(x.off) == i * 16)
                return AND(*r) if r and i is not None else None
            add_("vector end", fin)
            sp = LoopSpec(invs=invs, auto=False); sp.peel = 1; return sp
        v.loopspec = loops
        for d in v.run(st, v.fn("^vp_us_pool$"), [s.this, Q]):
            q = d.st
            if d.kind == "throw": v.cover(q, "threw"); sys_err(v, q, d.val, q.g["err"], "allocate_buffers"); continue
            if d.kind != "ret": v.fail(q, "allocate_buffers returns"); continue
            v.cover(q, "returned"); v.oblige(q, facts(q, None, "index"), "allocate_buffers: every buffer knows its registered index"); v.oblige(q, facts(q, None, "free"), "allocate_buffers: the free list starts at the first buffer")
            v.oblige(q, IMP(z3.ULT(J + 1, Q), facts(q, None, "next")), "allocate_buffers: every buffer is linked to the next"); v.oblige(q, IMP(J + 1 == Q, facts(q, None, "last")), "allocate_buffers: the free list ends after the last buffer")
        need_covers(ctx, v, ["returned", "threw", "registration failed"])
CAPS = (65536, 4096, 1000, 1)
for c in CAPS: pool_h(c)
