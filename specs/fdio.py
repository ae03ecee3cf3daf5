"""Contracts of file_descriptor, fd_storage_base, posix_fd_storage (C09, C11, C17).
System calls are environment contracts: write/open/dup/close/fsync with every POSIX outcome."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.stdlib import set_errno, get_errno
from irv.strmodel import STR, new_string, get as str_get
from irv import strmodel

UNITS = ["io"]
EINTR = 4; ENOENT = 2
O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
NEG1 = z3.BitVecVal(-1, 32)
def sge0(x): return bv(x, 32) >= 0
def some_errno(ex, st):
    e = fresh("errno", 32); st.assume(e > 0); st.assume(e < 4096); set_errno(ex, st, e); return e

# ---------------------------------------------------------------- descriptor ledger: closes of an arbitrary descriptor k
def fd_start(ex, st):
    k = fresh("k", 32); st.assume(k >= 0); st.g["fd.k"] = k
    st.g["fd.closed"] = z3.BitVecVal(0, 32)      # times k was closed
    st.g["fd.opened"] = z3.BitVecVal(0, 32)      # times k was returned by open/dup/socket/accept
def one(c): return z3.If(zb(c), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
def isk(st, fd): return one(AND(bv(fd, 32) == st.g["fd.k"]))
def closed(st): return st.g["fd.closed"]
def opened(st): return st.g["fd.opened"]
def h_close(ex, st, a, ins):
    st.g["fd.closed"] = simp(st.g["fd.closed"] + isk(st, a[0]))
    s2 = st.fork(); some_errno(ex, s2)
    return [Ret(st, 0), Ret(s2, mask(-1, 32))]
def new_fd(ex, st, name):
    fd = fresh(name, 32); st.assume(fd >= 0)
    for x in st.g.get("$livefds", ()): st.assume(fd != bv(x, 32))
    st.g["$livefds"] = tuple(st.g.get("$livefds", ())) + (fd,)
    st.g["fd.opened"] = simp(st.g["fd.opened"] + isk(st, fd))
    return fd
def h_dup(ex, st, a, ins):
    if "dup.arg" in st.g: ex.oblige(st, eq(a[0], st.g["dup.arg"], 32), "the caller's descriptor is the one duplicated")
    s2 = st.fork(); some_errno(ex, s2)
    return [Ret(st, new_fd(ex, st, "dupfd")), Ret(s2, mask(-1, 32))]
def h_open(ex, st, a, ins):
    if st.g.get("open.check"): st.g["open.check"](ex, st, a)
    if "open.settled" in st.g: ex.oblige(st, NOT(st.g["open.settled"]), "open is retried only after an interruption")
    s1 = st; s2 = st.fork()
    e = some_errno(ex, s2)
    fd = new_fd(ex, s1, "newfd")
    if "open.settled" in st.g:
        s1.g["open.settled"] = z3.BoolVal(True); s1.g["open.fd"] = z3.SignExt(0, fd); s1.g["open.ok"] = z3.BoolVal(True)
        s2.g["open.settled"] = e != EINTR; s2.g["open.fd"] = NEG1; s2.g["open.ok"] = z3.BoolVal(False); s2.g["open.errno"] = e
    return [Ret(s1, fd), Ret(s2, mask(-1, 32))]
def h_fsync(ex, st, a, ins):
    if "sync.fd" in st.g: ex.oblige(st, eq(a[0], st.g["sync.fd"], 32), "the working descriptor is synced"); st.g["sync.done"] = z3.BoolVal(True)
    s2 = st.fork(); some_errno(ex, s2)
    return [Ret(st, 0), Ret(s2, mask(-1, 32))]
FDENV = [(r"^close$", h_close), (r"^dup$", h_dup), (r"^open(64)?$", h_open), (r"^fsync$|^fdatasync$", h_fsync)]

def mkfd(v, st, name, fd):
    r = new_region(st, name, v.off["fd_size"], align=4); mem_write(st, r.rid, v.off["fd_off"], 4, fd); return Ptr(r.rid, 0)
def fdval(v, st, p): return mem_read(st, p.rid, add(p.off, v.off["fd_off"]), 4)
def fd_new(ctx): v = ctx.verifier("io", FDENV + STR); st = State(); fd_start(v, st); return v, st
def anyfd(st, name):
    f = fresh(name, 32); st.assume(f >= -1); st.g["$livefds"] = tuple(st.g.get("$livefds", ())) + (f,); return f
def distinct(st, a, b): st.assume(z3.Or(a == NEG1, b == NEG1, a != b))

def simple(name, fn, nfd, args, post, throws=None):
    @harness("fd." + name, ("C17",))
    def h(ctx):
        v, st = fd_new(ctx); fds = [anyfd(st, f"fd{i}") for i in range(nfd)]
        for i in range(nfd):
            for j in range(i): distinct(st, fds[i], fds[j])
        ps = [mkfd(v, st, f"obj{i}", f) for i, f in enumerate(fds)]
        av = args(v, st, ps) if args else list(ps)
        for d in v.run(st, v.fn("^" + fn + "$"), av):
            if d.kind != "ret": v.fail(d.st, f"{name} returns normally"); continue
            v.cover(d.st, "returned")
            for nm, f in post(v, d.st, fds, ps, d.val): v.oblige(d.st, f, f"file_descriptor {name}: {nm}")
        need_covers(ctx, v, ["returned"])
    return h
def raw(v, st): r = new_region(st, "new", v.off["fd_size"], align=4); return Ptr(r.rid, 0)
def keep(st): return ("closes nothing", closed(st) == 0)
simple("default", "vp_fd_default", 0, lambda v, st, ps: ps.append(raw(v, st)) or ps, lambda v, st, f, p, r: [("owns nothing", eq(fdval(v, st, p[0]), mask(-1, 32), 32)), keep(st)])
def a_int(v, st, ps): ps.append(raw(v, st)); x = anyfd(st, "given"); st.g["given"] = x; return [ps[0], x]
simple("from descriptor", "vp_fd_int", 0, a_int, lambda v, st, f, p, r: [("owns the given descriptor", eq(fdval(v, st, p[0]), st.g["given"], 32)), keep(st)])
simple("move construction", "vp_fd_move", 1, lambda v, st, ps: [ps.append(raw(v, st)) or ps[1], ps[0]], lambda v, st, f, p, r: [
   ("takes the source's descriptor", eq(fdval(v, st, p[1]), f[0], 32)), ("leaves the source empty", eq(fdval(v, st, p[0]), mask(-1, 32), 32)), keep(st)])
simple("move assignment", "vp_fd_assign", 2, None, lambda v, st, f, p, r: [
   ("takes the source's descriptor", eq(fdval(v, st, p[0]), f[1], 32)),
   ("every descriptor stays owned once or is closed once", closed(st) + isk(st, fdval(v, st, p[0])) + isk(st, fdval(v, st, p[1])) == isk(st, f[0]) + isk(st, f[1]))])
simple("self move assignment", "vp_fd_assign", 1, lambda v, st, ps: [ps[0], ps[0]], lambda v, st, f, p, r: [
   ("the descriptor stays owned once or is closed once", closed(st) + isk(st, fdval(v, st, p[0])) == isk(st, f[0]))])
simple("destruction", "vp_fd_dtor", 1, None, lambda v, st, f, p, r: [("closes the owned descriptor once and nothing else", closed(st) == isk(st, f[0]))])
def a_reset(v, st, ps): x = anyfd(st, "given"); distinct(st, x, fdval(v, st, ps[0])); st.g["given"] = x; return [ps[0], x]
simple("reset", "vp_fd_reset", 1, a_reset, lambda v, st, f, p, r: [("closes the old descriptor once and nothing else", closed(st) == isk(st, f[0])), ("owns the new descriptor", eq(fdval(v, st, p[0]), st.g["given"], 32))])
simple("reset to nothing", "vp_fd_reset0", 1, None, lambda v, st, f, p, r: [("closes the old descriptor once and nothing else", closed(st) == isk(st, f[0])), ("owns nothing", eq(fdval(v, st, p[0]), mask(-1, 32), 32))])
simple("get", "vp_fd_get", 1, None, lambda v, st, f, p, r: [("returns the descriptor", eq(r, f[0], 32)), ("keeps it", eq(fdval(v, st, p[0]), f[0], 32)), keep(st)])
for nm, fn in (("is_open", "vp_fd_open_q"), ("bool", "vp_fd_bool")):
    simple(nm, fn, 1, None, lambda v, st, f, p, r: [("true exactly if a descriptor is owned", zb(r) == (f[0] != NEG1)), ("keeps it", eq(fdval(v, st, p[0]), f[0], 32)), keep(st)])
simple("release", "vp_fd_release", 1, None, lambda v, st, f, p, r: [("returns the descriptor", eq(r, f[0], 32)), ("owns nothing afterwards", eq(fdval(v, st, p[0]), mask(-1, 32), 32)), keep(st)])
simple("swap", "vp_fd_swap", 2, None, lambda v, st, f, p, r: [("exchanges the descriptors", AND(eq(fdval(v, st, p[0]), f[1], 32), eq(fdval(v, st, p[1]), f[0], 32))), keep(st)])

def open_ghosts(st):
    st.g["open.settled"] = z3.BoolVal(False); st.g["open.fd"] = NEG1; st.g["open.ok"] = z3.BoolVal(False); st.g["open.errno"] = z3.BitVecVal(0, 32)
@harness("fd.open", ("C17",))
def fd_open(ctx):
    v, st = fd_new(ctx); open_ghosts(st)
    path = cstring(st, "path"); fl = fresh("flags", 32); mode = fresh("mode", 32); m = raw(v, st)
    def chk(ex, st, a):
        ex.oblige(st, AND(z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == path.rid), eq(a[0].off if isinstance(a[0], Ptr) else 1, 0), eq(a[1], fl, 32), eq(a[2] if len(a) > 2 else 0, mode, 32)), "opens the given path with the given flags and mode")
    st.g["open.check"] = chk
    for d in v.run(st, v.fn("^vp_fd_open$"), [m, path, fl, mode]):
        s = d.st
        if d.kind == "ret":
            v.cover(s, "opened"); v.oblige(s, AND(s.g["open.ok"], eq(fdval(v, s, m), s.g["open.fd"], 32)), "opening: owns the descriptor that open returned")
        elif d.kind == "throw":
            v.cover(s, "failed"); sys_err(v, s, d.val, s.g["open.errno"], "opening"); v.oblige(s, AND(s.g["open.settled"], NOT(s.g["open.ok"])), "opening: fails only if open failed for another reason than interruption")
        v.oblige(s, closed(s) == 0, "opening: closes nothing")
    need_covers(ctx, v, ["opened", "failed"])
def sys_err(v, s, e, errno, what):
    v.oblige(s, z3.BoolVal(e.kind == "system_error"), what + ": the error is a system error")
    if e.kind == "system_error": v.oblige(s, eq(e.errnum, errno, 32), what + ": the error carries the error number")

# ---------------------------------------------------------------- throwing helpers themselves
def h_vsnprintf(ex, st, a, ins):
    """writes at most n bytes, terminated"""
    n = a[1]; ex.bounds(st, a[0], n, "vsnprintf", True); mem_havoc(st, a[0].rid, a[0].off, n); return fresh("len", 32)
def h_syserr_ctor(ex, st, a, ins):
    code = a[1]; cat = a[2]
    st.g["$excinfo"] = dict(errnum=code, cat=cat); return 0
class _W: pass
def throw_helper(name, fn, kind, args, ck=None):
    @harness("throw." + name, ("C09", "C17") if "system" in name else ("C17",))
    def h(ctx):
        C = [(r"^vsnprintf$", h_vsnprintf), (r"^std::_V2::system_category\(\)$|^std::system_category\(\)", lambda ex, st, a, i: syscat(ex, st)),
             (r"^std::system_error::system_error\(std::error_code, char const\*\)", h_syserr_ctor), (r"^std::(runtime_error|invalid_argument)::\1\(char const\*\)", lambda ex, st, a, i: 0),
             (r"^std::bad_alloc::bad_alloc\(\)", lambda ex, st, a, i: 0)]
        from irv import stdlib
        v = ctx.verifier("io", C); v.contracts = [c for c in v.contracts if not (isinstance(c[0], str) and c[0].startswith("^xtr::detail::throw_"))]
        st = State(); av = args(st)
        for d in v.run(st, v.fn(fn), av):
            if d.kind != "throw": v.fail(d.st, f"{name} always throws"); continue
            v.cover(d.st, "thrown")
            v.oblige(d.st, z3.BoolVal(d.val.kind == kind), f"{name}: throws {kind}")
            if ck and d.val.kind == kind: v.oblige(d.st, eq(getattr(d.val, "errnum", 0), av[0], 32), f"{name}: carries the given error number")
            if ck and d.val.kind == kind: v.oblige(d.st, z3.BoolVal(isinstance(getattr(d.val, "cat", None), Ptr) and d.val.cat.rid == d.st.g.get("$syscat")), f"{name}: in the system category")
        need_covers(ctx, v, ["thrown"])
def syscat(ex, st):
    if "$syscat" not in st.g: st.g["$syscat"] = new_region(st, "system_category", 8, kind="env").rid
    return Ptr(st.g["$syscat"], 0)
throw_helper("system_error", r"^xtr::detail::throw_system_error\(", "system_error", lambda st: [fresh("errnum", 32), cstring(st, "what")], True)
throw_helper("system_error_fmt", r"^xtr::detail::throw_system_error_fmt\(", "system_error", lambda st: [fresh("errnum", 32), cstring(st, "fmt")], True)
throw_helper("invalid_argument", r"^xtr::detail::throw_invalid_argument\(", "invalid_argument", lambda st: [cstring(st, "what")])

# ---------------------------------------------------------------- posix storage
def mk_ps(v, st, fd=None):
    r = new_region(st, "storage", v.off["ps_size"], align=8)
    fd = anyfd(st, "storagefd") if fd is None else fd; st.assume(bv(fd, 32) >= 0)
    mem_write(st, r.rid, v.off["ps_fd"], 4, fd)
    rid, n = new_string(st, Ptr(r.rid, v.off["ps_path"]), "reopen_path")
    mem_write(st, r.rid, 0, 8, Ptr(v.global_region(st, "_ZTVN3xtr16posix_fd_storageE"), 16))
    cap = fresh("bufcap"); st.assume(z3.ULE(cap, bv(1 << 40)))
    b = new_region(st, "storagebuf", cap, align=16, kind="heap"); mem_write(st, r.rid, v.off["ps_buf"], 8, Ptr(b.rid, 0)); mem_write(st, r.rid, v.off["ps_cap"], 8, cap)
    return Ptr(r.rid, 0), fd, (rid, n), (b.rid, cap)

@harness("posix.submit_buffer", ("C09",), cost=5)
def submit(ctx):
    env = {}
    def h_write(ex, st, a, ins):
        fd, p, n = a; pos = st.g["pos"]
        ex.oblige(st, eq(fd, st.g["wfd"], 32), "write: goes to the storage's descriptor")
        ok = isinstance(p, Ptr) and p.rid == env["buf"]
        ex.oblige(st, z3.BoolVal(ok), "write: takes its bytes from the submitted buffer")
        if not ok: return Stop(st, "bad write")
        ex.oblige(st, eq(p.off, pos), "write: continues exactly after the bytes already written")
        ex.oblige(st, z3.ULE(bv(n), bv(env["size"]) - pos), "write: never passes the end of the submitted bytes")
        ex.oblige(st, NOT(st.g["failed"]), "write: nothing is written after an error")
        s2 = st.fork()
        r = fresh("nwritten"); st.assume(z3.ULE(r, bv(n))); st.g["pos"] = simp(pos + r); ex.cover(st, "short or full write")
        e = some_errno(ex, s2); s2.g["failed"] = e != EINTR; s2.g["werr"] = e
        return [Ret(st, r), Ret(s2, mask(-1, 64))]
    def loops(ex, st, f):
        return LoopSpec(invs=[("pos<=size", lambda ex, s: z3.ULE(s.g["pos"], bv(env["size"]))), ("not failed", lambda ex, s: NOT(s.g["failed"])), ("failed keeps errno", lambda ex, s: z3.Implies(s.g["failed"], eq(get_errno(ex, s), s.g["werr"], 32)))],)
    v = ctx.verifier("io", [(r"^write$", h_write)] + FDENV + STR, loops); st = State(); fd_start(v, st)
    this, fd, _, _ = mk_ps(v, st); size = fresh("size"); st.assume(z3.ULE(size, bv(1 << 40)))
    b = new_region(st, "submitted", size, align=1, kind="heap"); st.wregion(b.rid).ro = True; env["buf"] = b.rid; env["size"] = size
    st.g.update({"pos": z3.BitVecVal(0, 64), "wfd": fd, "failed": z3.BoolVal(False), "werr": z3.BitVecVal(0, 32)}); set_errno(v, st, fresh("errno0", 32))
    for d in v.run(st, v.fn("^vp_ps_submit$"), [this, Ptr(b.rid, 0), size]):
        s = d.st
        if d.kind == "ret":
            v.cover(s, "completed"); v.oblige(s, AND(s.g["pos"] == size, NOT(s.g["failed"])), "submit_buffer: returns only after every byte was written")
        elif d.kind == "throw":
            v.cover(s, "error"); v.oblige(s, s.g["failed"], "submit_buffer: reports an error only if a write failed for another reason than interruption"); sys_err(v, s, d.val, s.g["werr"], "submit_buffer")
        v.oblige(s, AND(closed(s) == 0, eq(mem_read(s, this.rid, v.off["ps_fd"], 4), fd, 32)), "submit_buffer: keeps its descriptor")
    need_covers(ctx, v, ["completed", "error", "short or full write"])

@harness("posix.allocate_flush_sync", ("C09", "C17"))
def ps_misc(ctx):
    v = ctx.verifier("io", FDENV + STR); st = State(); fd_start(v, st)
    this, fd, _, (b, cap) = mk_ps(v, st); out = new_region(st, "out", 16, align=8)
    for d in v.run(st, v.fn("^vp_ps_alloc$"), [this, Ptr(out.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "allocate_buffer returns"); continue
        p = mem_read(d.st, out.rid, 0, 8); n = mem_read(d.st, out.rid, 8, 8)
        if isz(p): p = resolve(d.st, p)
        v.cover(d.st, "allocated")
        v.oblige(d.st, AND(z3.BoolVal(isinstance(p, Ptr) and p.rid == b), eq(p.off if isinstance(p, Ptr) else 1, 0), eq(n, cap)), "allocate_buffer: hands out the whole internal buffer")
        s = d.st; s.g["sync.fd"] = fd; s.g["sync.done"] = z3.BoolVal(False)
        for d2 in v.run(s, v.fn("^vp_ps_sync$"), [this]):
            if d2.kind != "ret": v.fail(d2.st, "sync returns"); continue
            v.oblige(d2.st, AND(d2.st.g["sync.done"], closed(d2.st) == 0), "sync: syncs the working descriptor"); v.cover(d2.st, "synced")
            for d3 in v.run(d2.st, v.fn("^vp_ps_flush$"), [this]):
                if d3.kind != "ret": v.fail(d3.st, "flush returns"); continue
                v.oblige(d3.st, AND(closed(d3.st) == 0, eq(mem_read(d3.st, this.rid, v.off["ps_fd"], 4), fd, 32)), "flush: keeps the descriptor")
    need_covers(ctx, v, ["allocated", "synced"])

@harness("posix.lifetime", ("C17",))
def ps_life(ctx):
    v = ctx.verifier("io", FDENV + STR); st = State(); fd_start(v, st)
    m = new_region(st, "storage", v.off["ps_size"], align=8); given = anyfd(st, "given"); st.g["dup.arg"] = given
    sp = new_region(st, "path", 32, align=8); new_string(st, Ptr(sp.rid, 0), "path"); cap = fresh("cap"); st.assume(z3.ULE(cap, bv(1 << 40)))
    for d in v.run(st, v.fn("^vp_ps_ctor$"), [Ptr(m.rid, 0), given, Ptr(sp.rid, 0), cap]):
        s = d.st
        if d.kind == "throw":
            v.cover(s, "dup failed"); sys_err(v, s, d.val, get_errno(v, s), "constructor"); v.oblige(s, AND(closed(s) == 0, opened(s) == 0), "constructor: a failed construction owns nothing and closes nothing"); continue
        if d.kind != "ret": v.fail(s, "constructor returns or throws"); continue
        v.cover(s, "constructed"); fd = mem_read(s, m.rid, v.off["ps_fd"], 4)
        v.oblige(s, AND(closed(s) == 0, opened(s) == isk(s, fd)), "constructor: owns exactly the duplicate it made")
        v.oblige(s, eq(mem_read(s, m.rid, v.off["ps_cap"], 8), cap), "constructor: keeps the capacity")
        for d2 in v.run(s, v.fn("^vp_ps_dtor$"), [Ptr(m.rid, 0)]):
            if d2.kind != "ret": v.fail(d2.st, "destructor returns"); continue
            v.cover(d2.st, "destroyed"); v.oblige(d2.st, closed(d2.st) == opened(d2.st), "destructor: closes exactly the storage's own duplicate, once")
            v.oblige(d2.st, z3.Implies(eq(d2.st.g["fd.k"], given, 32), closed(d2.st) == 0), "destructor: never closes the caller's descriptor")
    need_covers(ctx, v, ["dup failed", "constructed", "destroyed"])

def path_empty(v, st, this):
    d, n = str_get(v, st, Ptr(this.rid, v.off["ps_path"])); return eq(n, 0)
@harness("posix.reopen", ("C11", "C17"))
def ps_reopen(ctx):
    v = ctx.verifier("io", FDENV + STR, lambda ex, st, f: LoopSpec(invs=[("unsettled", lambda ex, s: NOT(s.g["open.settled"]) if "open.settled" in s.g else None)])); st = State(); fd_start(v, st); open_ghosts(st)
    this, fd, (prid, pn), _ = mk_ps(v, st); empty = pn == 0
    def chk(ex, st, a):
        ok = isinstance(a[0], Ptr) and a[0].rid == prid
        ex.oblige(st, AND(z3.BoolVal(ok), eq(a[0].off if ok else 1, 0), NOT(empty)), "reopen: opens the configured path")
        fl = bv(a[1], 32)
        ex.oblige(st, AND((fl & (O_APPEND | O_CREAT)) == (O_APPEND | O_CREAT), (fl & (O_TRUNC | O_EXCL)) == 0, z3.Or((fl & 3) == O_WRONLY, (fl & 3) == O_RDWR)), "reopen: opens for appending, creating the file if needed")
        ex.oblige(st, closed(st) == 0, "reopen: the working descriptor is not closed before the new file is open")
    st.g["open.check"] = chk
    for d in v.run(st, v.fn("^vp_ps_reopen$"), [this]):
        s = d.st
        if d.kind != "ret": v.fail(s, "reopen returns an error number instead of throwing"); continue
        nfd = mem_read(s, this.rid, v.off["ps_fd"], 4); ok = s.g["open.ok"]
        v.oblige(s, z3.Implies(empty, AND(eq(d.val, ENOENT, 32), eq(nfd, fd, 32), closed(s) == 0, opened(s) == 0)), "reopen: without a path reports ENOENT and keeps the descriptor")
        v.oblige(s, z3.Implies(NOT(empty), s.g["open.settled"]), "reopen: open is retried while interrupted")
        v.oblige(s, z3.Implies(AND(NOT(empty), NOT(ok)), AND(eq(d.val, s.g["open.errno"], 32), eq(nfd, fd, 32), closed(s) == 0)), "reopen: on failure reports the error number and keeps the descriptor")
        v.oblige(s, z3.Implies(ok, AND(eq(d.val, 0, 32), eq(nfd, s.g["open.fd"], 32), closed(s) == isk(s, fd))), "reopen: on success uses the new descriptor and closes the old one exactly once")
        v.cover(s, "returned")
        if v.solver.check(s, ok) == z3.sat: v.covers["success"] = True
        if v.solver.check(s, AND(NOT(ok), NOT(empty))) == z3.sat: v.covers["failure"] = True
        if v.solver.check(s, empty) == z3.sat: v.covers["no path"] = True
    need_covers(ctx, v, ["success", "failure", "no path"])

# ---------------------------------------------------------------- make_fd_storage: which back-end, which descriptor, which path
def path_is(ex, st, sp, orig):
    """the string object at sp holds the text orig = (rid, off, n): same length, same byte at an arbitrary index"""
    d, n = str_get(ex, st, sp); j = st.g["path.j"]
    b = read_byte(st, d.rid, add(d.off, j)) if isinstance(d, Ptr) else 0
    return AND(eq(n, orig[2]), z3.Implies(z3.ULT(bv(j), bv(orig[2])), bv(b, 8) == bv(orig[3], 8)))
def make_env(env):
    def h_uring(ex, st, a, ins):
        this, fd, path = a[0], a[1], a[2]
        ex.oblige(st, eq(fd, st.g["make.fd"], 32), "make_fd_storage: the back-end is given the caller's descriptor")
        ex.oblige(st, path_is(ex, st, path, env["orig"]), "make_fd_storage: the back-end is given the reopen path")
        s2 = st.fork(); s3 = st.fork(); some_errno(ex, s3)
        new_fd(ex, st, "dupfd"); mem_write(st, this.rid, this.off, 8, Ptr(env["vt"], 16)); st.g["made"] = z3.BitVecVal(1, 32); ex.cover(st, "io_uring")
        e = fresh("e", 32)
        from irv.stdlib import EXC_TYPES
        return [Ret(st, 0), Throw(s2, Exc(EXC_TYPES["system_error"], kind="system_error", errnum=e))]
    return [(r"^xtr::io_uring_fd_storage::io_uring_fd_storage\(", h_uring), (r"^syscall$", lambda ex, st, a, i: (some_errno(ex, st), fresh("sys"))[1]),
            (r"^fileno$", lambda ex, st, a, i: st.g["make.fd"]), (r"^std::basic_ostream<.*operator<<", lambda ex, st, a, i: a[0])] + FDENV + STR
def made(ctx, v, d, m, env, given, what):
    """postcondition shared by the overloads; given: z3 descriptor the storage duplicates"""
    s = d.st; p = mem_read(s, m.rid, 0, 8); p = resolve(s, p) if isz(p) else p
    if not isinstance(p, Ptr): v.fail(s, what + ": returns a storage object"); return
    vt = mem_read(s, p.rid, 0, 8); vt = resolve(s, vt) if isz(vt) else vt
    if isinstance(vt, Ptr) and vt.rid == env["vt"]: v.cover(s, "made io_uring"); return
    v.oblige(s, z3.BoolVal(isinstance(vt, Ptr) and vt.rid == v.global_region(s, "_ZTVN3xtr16posix_fd_storageE")), what + ": the storage is one of the two file back-ends")
    v.cover(s, "made posix"); v.oblige(s, path_is(v, s, Ptr(p.rid, v.off["ps_path"]), env["orig"]), what + ": the POSIX back-end keeps the reopen path, also after falling back")
    v.oblige(s, eq(opened_after(s), 1, 32) == (eq(mem_read(s, p.rid, v.off["ps_fd"], 4), s.g["fd.k"], 32)), what + ": the storage owns its own duplicate")
def opened_after(s): return simp(opened(s) - s.g["opened.path"])
def make_h(name, fn, props):
    @harness(name, props, cost=4)
    def h(ctx):
        env = {}; v = ctx.verifier("io", make_env(env), lambda ex, st, f: LoopSpec(invs=[("unsettled", lambda ex, s: NOT(s.g["open.settled"]) if "open.settled" in s.g else None)])); st = State(); fd_start(v, st)
        vt = new_region(st, "uring_vtable", 80, kind="global"); env["vt"] = vt.rid; st.g["made"] = z3.BitVecVal(0, 32)
        m = new_region(st, "result", 8, align=8); j = fresh("j"); st.g["path.j"] = j; st.g["opened.path"] = z3.BitVecVal(0, 32)
        given = anyfd(st, "given"); st.assume(given >= 0); st.g["make.fd"] = given; st.g["dup.arg"] = given
        if fn == "vp_make_path":
            open_ghosts(st); p = cstring(st, "path"); n = st.mem[p.rid].tag[1]; env["orig"] = (p.rid, 0, n, read_byte(st, p.rid, j)); given = None
            def chk(ex, st, a):
                ok = isinstance(a[0], Ptr) and a[0].rid == p.rid; fl = bv(a[1], 32)
                ex.oblige(st, AND(z3.BoolVal(ok), eq(a[0].off if ok else 1, 0)), "make_fd_storage: opens the given path")
                ex.oblige(st, AND((fl & (O_APPEND | O_CREAT)) == (O_APPEND | O_CREAT), (fl & (O_TRUNC | O_EXCL)) == 0, z3.Or((fl & 3) == O_WRONLY, (fl & 3) == O_RDWR)), "make_fd_storage: opens for appending, creating the file if needed")
            st.g["open.check"] = chk; args = [Ptr(m.rid, 0), p]
            # the descriptor handed to the back-end is the one open returned
            st.g["make.fd"] = fresh("openfd", 32); st.g["dup.arg"] = st.g["make.fd"]
        else:
            sp = new_region(st, "pathobj", 32, align=8); rid, n = new_string(st, Ptr(sp.rid, 0), "path"); env["orig"] = (rid, 0, n, read_byte(st, rid, j))
            fp = new_region(st, "FILE", 216, kind="env"); args = [Ptr(m.rid, 0), given if fn == "vp_make_fd" else Ptr(fp.rid, 0), Ptr(sp.rid, 0)]
        if fn == "vp_make_path":
            def h_open2(ex, st, a, ins):
                r = h_open(ex, st, a, ins)
                r[0].st.assume(r[0].val == r[0].st.g["make.fd"]); r[0].st.g["opened.path"] = isk(r[0].st, r[0].val); return r
            v.contracts = [(r"^open(64)?$", h_open2)] + v.contracts
        for d in v.run(st, v.fn(f"^{fn}$"), args):
            s = d.st
            if d.kind == "throw":
                v.cover(s, "failed"); v.oblige(s, z3.BoolVal(d.val.kind == "system_error"), "make_fd_storage: fails with a system error")
                v.oblige(s, closed(s) == s.g["opened.path"], "make_fd_storage: on failure every descriptor it opened is closed and no other"); continue
            if d.kind != "ret": v.fail(s, "make_fd_storage returns"); continue
            v.oblige(s, closed(s) == s.g["opened.path"], "make_fd_storage: closes exactly the descriptor it opened itself, once; never the caller's")
            made(ctx, v, d, m, env, given, "make_fd_storage")
        need_covers(ctx, v, ["failed", "made io_uring", "made posix"])
make_h("make.path", "vp_make_path", ("C11", "C17"))
make_h("make.fd", "vp_make_fd", ("C11", "C17"))
make_h("make.FILE", "vp_make_fp", ("C11", "C17"))
