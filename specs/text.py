"""C04: escaping of string arguments.  C15: bounded copies.
Monitor for the emitted text: (i, phase) = next source character, position inside its representation."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, new_string, get as str_get
from irv import strmodel
from irv.stdlib import set_errno, get_errno
UNITS = ["text"]
HEX = b"0123456789ABCDEF"
def printable(c): return AND(z3.UGE(c, z3.BitVecVal(0x20, 8)), z3.ULE(c, z3.BitVecVal(0x7e, 8)), c != 0x5c)
def hexd(n):
    n = z3.ZeroExt(4, n); return z3.If(z3.ULT(n, 10), n + 48, n + 55)
def rep(c, ph):
    """byte `ph` of the representation of c"""
    return z3.If(printable(c), c, z3.If(ph == 0, z3.BitVecVal(0x5c, 8), z3.If(ph == 1, z3.BitVecVal(0x78, 8), z3.If(ph == 2, hexd(z3.Extract(7, 4, c)), hexd(z3.Extract(3, 0, c))))))
def rlen(c): return z3.If(printable(c), z3.BitVecVal(1, 64), z3.BitVecVal(4, 64))
class Out:
    def __init__(s, st, src, n):
        s.src = src; s.n = n; st.g.update({"o.i": z3.BitVecVal(0, 64), "o.ph": z3.BitVecVal(0, 64)})
    def h(s, ex, st, a, ins):
        b = bv(a[0], 8); i, ph = st.g["o.i"], st.g["o.ph"]
        ex.oblige(st, z3.ULT(i, bv(s.n)), "output: nothing is written after the last character")
        c = bv(s.src(st, i), 8)
        ex.oblige(st, b == rep(c, ph), "output: each byte is the next byte of the escaped text")
        ex.oblige(st, AND(z3.UGE(b, z3.BitVecVal(0x20, 8)), z3.ULE(b, z3.BitVecVal(0x7e, 8)), z3.Implies(b == 0x5c, ph == 0)), "output: printable ASCII, backslash only at the start of an escape")
        ex.cover(st, "emitted")
        last = simp(ph + 1 == rlen(c)); l = zb(last)
        st.g["o.i"] = simp(z3.If(l, i + 1, i)); st.g["o.ph"] = simp(z3.If(l, z3.BitVecVal(0, 64), ph + 1))
        return 0
    def done(s, st): return AND(st.g["o.i"] == bv(s.n), st.g["o.ph"] == 0)
def loops(o):
    def f(ex, st, fr):
        inv = [("no partial escape", lambda ex, x: x.g["o.ph"] == 0), ("progress within the text", lambda ex, x: z3.ULE(x.g["o.i"], bv(o["o"].n)))]
        # the character shown next is the one the loop stands at
        d = len(st.frames) - 1; rid = o.get("rid")
        def slot(get):
            def c(ex, x):
                y = get(x); y = resolve(x, y) if isz(y) and z3.is_bv(y) and y.size() == 64 else y
                if isinstance(y, Ptr): return bv(y.off) == x.g["o.i"] + bv(o.get("off", 0)) if y.rid == rid else None
                if isinstance(y, int): return bv(y) == x.g["o.i"]
                return y == x.g["o.i"] if isz(y) and z3.is_bv(y) and y.size() == 64 else None
            return c
        for p in fr.bb.phis: inv.append((f"position phi{p.id}", slot(lambda x, i=p.id: x.frames[d].regs[i])))
        for fm in st.frames:
            for r in fm.allocas:
                for off, (n, v) in list(st.mem[r].cells.items()):
                    if n == 8: inv.append((f"position {st.mem[r].name}+{off}", slot(lambda x, r=r, off=off: mem_read(x, r, off, 8))))
        return LoopSpec(invs=inv)
    return f
def emit(name, fn, mk):
    @harness("sanitize." + name, ("C04",))
    def h(ctx):
        o = {}; v = ctx.verifier("text", [(r"^vp_put$", lambda ex, st, a, i: o["o"].h(ex, st, a, i))] + STR, loops(o)); st = State()
        args = mk(v, st, o)
        for d in v.run(st, v.fn(f"^{fn}$"), args):
            if d.kind != "ret": v.fail(d.st, "formatting returns"); continue
            v.cover(d.st, "returned"); v.oblige(d.st, o["o"].done(d.st), "output: every character is written")
            if "post" in o: o["post"](v, d.st)
        need_covers(ctx, v, ["returned", "emitted"])
def m_char(v, st, o):
    c = fresh("c", 8); o["o"] = Out(st, lambda st, i: c, 1); return [c]
def m_cstr(v, st, o):
    p = cstring(st, "text", maxlen=1 << 40); n = st.mem[p.rid].tag[1]; snap = snapshot(st, p.rid); o["rid"] = p.rid; o["o"] = Out(st, snap, n); return [p]
def bytes_(st, o, kind="heap"):
    n = fresh("n"); st.assume(z3.ULE(n, bv(1 << 40))); r = new_region(st, "text", n, align=1, kind=kind, arr=fresh_arr("text")); o["rid"] = r.rid; o["o"] = Out(st, snapshot(st, r.rid), n); return r.rid, n
def m_sv(v, st, o): r, n = bytes_(st, o); return [n, Ptr(r, 0)]
def m_svref(v, st, o):
    r, n = bytes_(st, o); x = new_region(st, "sv", 16, align=8); mem_write(st, x.rid, 0, 8, n); mem_write(st, x.rid, 8, 8, Ptr(r, 0)); return [Ptr(x.rid, 0)]
def m_str(v, st, o, full=True):
    x = new_region(st, "str", 32, align=8); rid, n = new_string(st, Ptr(x.rid, 0), "text")
    if not full:   # nocopy(std::string) shows the text up to its first NUL: take a string without embedded NULs
        r = st.wregion(rid); r.log = (); r.cells = {}; r.arr = fresh_arr("text")
        def on_read(i, b):
            i = bv(i)
            return [z3.Implies(i == bv(n), b == 0), z3.Implies(z3.ULT(i, bv(n)), b != 0)] if isz(b) and b.size() == 8 else []
        r.on_read = on_read
    o["rid"] = rid; o["o"] = Out(st, snapshot(st, rid), n); return [Ptr(x.rid, 0)]
emit("char", "vp_sanitize", m_char)
emit("c string", "vp_fmt_cstr", m_cstr); emit("string view", "vp_fmt_sv", m_sv)
emit("nocopy c string", "vp_nocopy_cstr", m_cstr); emit("nocopy string view", "vp_nocopy_sv", m_svref)
emit("nocopy string", "vp_nocopy_str", lambda v, st, o: m_str(v, st, o, False))
emit("moved string", "vp_moved_str", lambda v, st, o: [Ptr(new_region(st, "rec", 8, align=8).rid, 0)] + m_str(v, st, o))
def m_entry(v, st, o):
    """a copied string: entry of n bytes at the cursor"""
    n = fresh("n", 32); st.assume(n != z3.BitVecVal(0xffffffff, 32)); N = z3.ZeroExt(32, n)
    t = fresh("tail"); st.assume(z3.ULE(t, bv(1 << 20))); r = new_region(st, "table", simp(N + t), align=1, kind="heap", arr=fresh_arr("text"))
    x = new_region(st, "cursor", 8, align=8); mem_write(st, x.rid, 0, 8, Ptr(r.rid, 0)); o["rid"] = r.rid
    o["o"] = Out(st, snapshot(st, r.rid), N)
    def post(v, s):
        p = mem_read(s, x.rid, 0, 8); p = resolve(s, p) if isz(p) else p
        v.oblige(s, AND(z3.BoolVal(isinstance(p, Ptr) and p.rid == r.rid), eq(p.off if isinstance(p, Ptr) else 0, N)), "string entry: the cursor moves past exactly this string")
    o["post"] = post
    return [Ptr(x.rid, 0), n]
emit("copied string", "vp_entry_fmt", m_entry)
@harness("sanitize.truncated marker", ("C03", "C04"))
def trunc(ctx):
    v = ctx.verifier("text", STR); st = State(); r = new_region(st, "table", 64, align=1); x = new_region(st, "cursor", 8, align=8); mem_write(st, x.rid, 0, 8, Ptr(r.rid, 0)); out = new_region(st, "out", 16, align=8)
    for d in v.run(st, v.fn("^vp_entry$"), [Ptr(x.rid, 0), 0xffffffff, Ptr(out.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "returns"); continue
        s = d.st; n = mem_read(s, out.rid, 0, 8); p = mem_read(s, out.rid, 8, 8); p = resolve(s, p) if isz(p) else p; want = b"<truncated>"
        v.oblige(s, eq(n, len(want)), "truncated entry: the marker has its length")
        v.oblige(s, AND(*[eq(read_byte(s, p.rid, add(p.off, k)), want[k], 8) for k in range(len(want))]) if isinstance(p, Ptr) else z3.BoolVal(False), "truncated entry: shown as <truncated>")
        q = mem_read(s, x.rid, 0, 8); v.oblige(s, z3.BoolVal(isinstance(q, Ptr) and q.rid == r.rid and q.off == 0), "truncated entry: consumes nothing of the string table"); v.cover(s, "returned")
    need_covers(ctx, v, ["returned"])
@harness("sanitize.entry", ("C03",))
def entry(ctx):
    v = ctx.verifier("text", STR); st = State(); n = fresh("n", 32); st.assume(n != z3.BitVecVal(0xffffffff, 32)); N = z3.ZeroExt(32, n); k = fresh("at"); t = fresh("tail"); st.assume(z3.ULE(k, bv(1 << 33))); st.assume(z3.ULE(t, bv(1 << 33)))
    r = new_region(st, "table", simp(k + N + t), align=1); x = new_region(st, "cursor", 8, align=8); mem_write(st, x.rid, 0, 8, Ptr(r.rid, k)); out = new_region(st, "out", 16, align=8)
    for d in v.run(st, v.fn("^vp_entry$"), [Ptr(x.rid, 0), n, Ptr(out.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "returns"); continue
        s = d.st; m = mem_read(s, out.rid, 0, 8); p = mem_read(s, out.rid, 8, 8); p = resolve(s, p) if isz(p) else p
        v.oblige(s, AND(z3.BoolVal(isinstance(p, Ptr) and p.rid == r.rid), eq(p.off if isinstance(p, Ptr) else 0, k), eq(m, N)), "string entry: the view is exactly the copied bytes at the cursor")
        q = mem_read(s, x.rid, 0, 8); q = resolve(s, q) if isz(q) else q
        v.oblige(s, AND(z3.BoolVal(isinstance(q, Ptr) and q.rid == r.rid), eq(q.off if isinstance(q, Ptr) else 0, k + N)), "string entry: the cursor moves past exactly this string"); v.cover(s, "returned")
    need_covers(ctx, v, ["returned"])
@harness("sanitize.lemma", ("C04",))
def lemma(ctx):
    """the representation is a prefix code, so concatenations decode uniquely: distinct strings give distinct text"""
    c, d = z3.BitVec("c", 8), z3.BitVec("d", 8); Z = [z3.BitVecVal(k, 64) for k in range(4)]
    e = lambda n: AND(*[rep(c, Z[k]) == rep(d, Z[k]) for k in range(n)])
    ctx.lemma("different characters differ within their common representation length", z3.Implies(c != d, z3.Or(rep(c, Z[0]) != rep(d, Z[0]), AND(rlen(c) == 4, rlen(d) == 4, NOT(e(4))))))
    ctx.lemma("every byte of a representation is printable ASCII", AND(*[AND(z3.UGE(rep(c, Z[k]), z3.BitVecVal(0x20, 8)), z3.ULE(rep(c, Z[k]), z3.BitVecVal(0x7e, 8))) for k in range(4)]))
    ctx.lemma("a backslash occurs only as the first byte of a four byte representation", AND(*[z3.Implies(rep(c, Z[k]) == 0x5c, AND(rlen(c) == 4, z3.BoolVal(k == 0))) for k in range(4)]), [NOT(printable(c))])

# ---------------------------------------------------------------- C15
def zcpy(name, fn, objsize, off, size, kind):
    @harness("strzcpy." + name, ("C15",))
    def h(ctx):
        v = ctx.verifier("text", STR); st = State(); g = lambda k: v.off[k] if isinstance(k, str) else k
        O, D, S = g(objsize), g(off), g(size)
        pre = new_region(st, "dst", O, align=8, arr=fresh_arr("dst0")); before = snapshot(st, pre.rid)
        n = fresh("n"); st.assume(z3.ULE(n, bv(1 << 40)))
        if kind == "sv":
            src = new_region(st, "src", n, align=1, kind="heap", arr=fresh_arr("src")); x = new_region(st, "sv", 16, align=8); mem_write(st, x.rid, 0, 8, n); mem_write(st, x.rid, 8, 8, Ptr(src.rid, 0)); srid = src.rid
        else: x = new_region(st, "str", 32, align=8); srid, n = new_string(st, Ptr(x.rid, 0), "src", n)
        snap = snapshot(st, srid); i = fresh("i"); st.assume(z3.ULT(i, bv(O)))
        for d in v.run(st, v.fn(f"^{fn}$"), [Ptr(pre.rid, 0), Ptr(x.rid, 0)]):
            if d.kind != "ret": v.fail(d.st, "copy returns"); continue
            s = d.st; k = simp(z3.If(z3.ULT(n, bv(S - 1)), n, bv(S - 1))); b = bv(read_byte(s, pre.rid, i), 8)
            v.cover(s, "copied"); j = i - D
            v.oblige(s, z3.Implies(AND(z3.UGE(i, bv(D)), z3.ULT(j, k)), b == bv(snap(s, simp(j)), 8)), "the longest prefix that leaves room for the terminator is stored")
            v.oblige(s, z3.Implies(j == k, b == 0), "the text is terminated right after the prefix")
            v.oblige(s, z3.Implies(OR(z3.ULT(i, bv(D)), z3.UGE(j, bv(S))), b == bv(before(s, i), 8)), "nothing outside the field changes")
        need_covers(ctx, v, ["copied"])
zcpy("error reason", "vp_zcpy_reason_sv", "error_size", "reason_off", "reason", "sv")
zcpy("sink name", "vp_zcpy_name_str", "info_size", "name_off", "name", "str")
zcpy("socket path", "vp_zcpy_path_sv", "sa_size", "sa_path_off", "sa_path", "sv")
zcpy("one byte field", "vp_zcpy_1_sv", 1, 0, 1, "sv")
zcpy("two byte field", "vp_zcpy_2_sv", 2, 0, 2, "sv")
AF_UNIX = 1
def sock_env(path_rid, n, what):
    """socket/bind/connect contracts: the address passed is exactly the path"""
    def h_socket(ex, st, a, ins):
        s2 = st.fork(); fd = fresh("sock", 32); st.assume(fd >= 0); st.g["sock.fd"] = fd; e = fresh("e", 32); s2.assume(e > 0); set_errno(ex, s2, e)
        return [Ret(st, fd), Ret(s2, mask(-1, 32))]
    def h_addr(ex, st, a, ins):
        O, P, N = ex.off["sa_path_off"], ex.off["sa_path"], ex.off["sa_size"]; p = a[1]
        ex.oblige(st, eq(a[0], st.g["sock.fd"], 32), f"{what}: uses its own socket")
        ex.oblige(st, z3.ULT(bv(n), bv(P)), f"{what}: a path too long for the address is rejected")
        p = ex.bounds(st, p, a[2], "address", False)
        ex.oblige(st, eq(mem_read(st, p.rid, p.off, 2), AF_UNIX, 16), f"{what}: a local socket address")
        i = fresh("i"); st2 = st; b = bv(read_byte(st, p.rid, simp(bv(p.off) + O + i)), 8); src = bv(st.g["$pathsnap"](st, i), 8); first = bv(st.g["$pathsnap"](st, z3.BitVecVal(0, 64)), 8)
        ex.oblige(st, z3.Implies(z3.ULT(i, bv(n)), b == src), f"{what}: the path is used exactly")
        ex.oblige(st, z3.Implies(i == bv(n), b == 0), f"{what}: the path is terminated")
        ex.oblige(st, z3.Implies(AND(bv(n) != 0, first == 0, z3.UGE(i, bv(n)), z3.ULT(i, bv(P))), b == 0), f"{what}: an abstract name is padded with zeros")
        # (an empty path also yields an all zero address on the serving side; not stated)
        ex.oblige(st, AND(z3.UGE(bv(z3.ZeroExt(32, bv(a[2], 32))), bv(O + 1) + bv(n)), z3.ULE(bv(z3.ZeroExt(32, bv(a[2], 32))), bv(N))), f"{what}: the address length covers the path")
        st.g["addr.used"] = z3.BoolVal(True); ex.cover(st, "address used"); s2 = st.fork(); e = fresh("e", 32); s2.assume(e > 0); set_errno(ex, s2, e); st.g["addr.ok"] = z3.BoolVal(True)
        return [Ret(st, 0), Ret(s2, mask(-1, 32))]
    return h_socket, h_addr
@harness("connect", ("C15", "C17"))
def connect(ctx):
    st = State(); n = fresh("n"); st.assume(z3.ULE(n, bv(1 << 40)))
    src = new_region(st, "path", n, align=1, kind="heap", arr=fresh_arr("path")); st.g["$pathsnap"] = snapshot(st, src.rid); hs, ha = sock_env(src.rid, n, "connect")
    def h_close(ex, st, a, ins): ex.oblige(st, AND(eq(a[0], st.g["sock.fd"], 32), NOT(st.g["closed"])), "connect: closes only its own socket, once"); st.g["closed"] = z3.BoolVal(True); return 0
    v = ctx.verifier("text", [(r"^socket$", hs), (r"^connect$", ha), (r"^close$", h_close)] + STR); set_errno(v, st, fresh("e0", 32))
    st.g.update({"addr.used": z3.BoolVal(False), "addr.ok": z3.BoolVal(False), "closed": z3.BoolVal(False), "sock.fd": z3.BitVecVal(-1, 32)}); out = new_region(st, "fd", v.off["fd_size"], align=4)
    for d in v.run(st, v.fn("^vp_connect$"), [n, Ptr(src.rid, 0), Ptr(out.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "connect returns"); continue
        s = d.st; fd = mem_read(s, out.rid, v.off["fd_off"], 4); g = s.g
        v.oblige(s, z3.If(g["addr.ok"], AND(eq(fd, g["sock.fd"], 32), NOT(g["closed"])), AND(eq(fd, mask(-1, 32), 32), g["closed"] == (g["sock.fd"] != -1))), "connect: returns the connected socket, or closes it and returns none")
        v.oblige(s, z3.Implies(AND(z3.UGE(n, bv(v.off["sa_path"])), g["sock.fd"] != -1), AND(NOT(g["addr.used"]), eq(get_errno(v, s), 36, 32))), "connect: a path that is too long is reported as such"); v.cover(s, "returned")
    need_covers(ctx, v, ["returned", "address used"])
