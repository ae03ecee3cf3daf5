"""Contracts of detail::buffer and detail::print (C08).
The storage back-end is an environment: allocate_buffer returns any span of at least one byte, the others may throw.
Stream model: the text handed to the buffer so far, minus the text already submitted before the call, is the byte
sequence E[0..).  `subm` bytes of it were submitted during the call.  For an arbitrary stream index t the expected
byte is E(t); every submission containing t must carry it at its place."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, new_string, get as str_get
from irv import strmodel
from irv.stdlib import EXC_TYPES, set_errno
UNITS = ["buf"]
EXC = lambda: Exc(EXC_TYPES["exception"], kind="std")

class Buf:
    """one buffer object with a probe storage"""
    def __init__(s, v, st, throwing=False, fresh_state=True, name="buf"):
        s.v = v; o = v.off; s.throwing = throwing
        s.r = new_region(st, name, o["bf_size"], align=8).rid; s.p = Ptr(s.r, 0)
        s.sto = new_region(st, "storage", 8, align=8).rid
        mem_write(st, s.sto, 0, 8, Ptr(v.global_region(st, "_ZTV8vp_probe"), 16)); mem_write(st, s.r, o["bf_storage"], 8, Ptr(s.sto, 0))
        # every buffer handed out lies in one arena: buffers may be reused, only the outstanding one may be touched
        a = new_region(st, "arena", 1 << 45, align=1, kind="heap", arr=fresh_arr("arena")); s.ar = a.rid; a.check = s.chk
        st.g.update({"b.out": z3.BoolVal(False), "b.base": z3.BitVecVal(0, 64), "b.cap": z3.BitVecVal(0, 64), "b.subm": z3.BitVecVal(0, 64), "b.flushed": z3.BoolVal(False), "b.err": z3.BoolVal(False),
                     "b.nsub": z3.BitVecVal(0, 64), "b.synced": z3.BoolVal(False)})
        s.lsty = Pseudo("vp::level_style", s.h_style); mem_write(st, s.r, o["bf_lstyle"], 8, FnP(s.lsty)); s.P0 = z3.BitVecVal(0, 64)
    def h_style(s, ex, st, a, ins):
        if "style.level" in st.g: ex.oblige(st, eq(a[0], st.g["style.level"], 32), "the level style is applied to the statement's level") if not zb_is(st.g.get("print.failed")) else None
        st.g["$styled"] = True
        return st.g["$styleptr"] if "$styleptr" in st.g else 0
    def chk(s, ex, st, p, n, write):
        b = st.g["b.base"]
        ex.oblige(st, AND(st.g["b.out"], z3.UGE(bv(p.off), b), z3.ULE(bv(p.off) - b, st.g["b.cap"]), z3.ULE(bv(n), st.g["b.cap"] - (bv(p.off) - b))), "only the buffer handed out and not yet submitted is accessed")
    def any_state(s, ex, st):
        """an arbitrary state allowed by the invariant; forks: returns [(state, outstanding?)]"""
        o = ex.off; s2 = st.fork()
        for k in ("pos", "begin", "end"): mem_write(st, s.r, o["bf_" + k], 8, 0)
        base = fresh("base"); cap = fresh("cap"); n = fresh("used")
        s2.assume(z3.ULE(base, bv(1 << 44))); s2.assume(z3.ULE(cap, bv(1 << 40))); s2.assume(cap != 0); s2.assume(z3.ULE(n, cap)); s2.assume(n != 0)
        mem_write(s2, s.r, o["bf_begin"], 8, Ptr(s.ar, base)); mem_write(s2, s.r, o["bf_end"], 8, Ptr(s.ar, simp(base + cap))); mem_write(s2, s.r, o["bf_pos"], 8, Ptr(s.ar, simp(base + n)))
        s2.g.update({"b.out": z3.BoolVal(True), "b.base": base, "b.cap": cap}); s2.g["b.P0"] = n; st.g["b.P0"] = z3.BitVecVal(0, 64)
        return [st, s2]
    def expect(s, st, text):
        """text: f(i) -> byte of the text appended by the call; fixes the arbitrary stream index t"""
        t = fresh("t"); P0 = st.g["b.P0"]; st.g["b.t"] = t
        old = bv(read_byte(st, s.ar, simp(st.g["b.base"] + t)), 8) if not z3.is_bv_value(P0) else z3.BitVecVal(0, 8)
        st.g["b.E"] = simp(z3.If(z3.ULT(t, P0), old, bv(text(simp(t - P0)), 8) if text else z3.BitVecVal(0, 8)))
    # --- the storage contract
    def h_alloc(s, ex, st, a, ins):
        ex.oblige(st, AND(z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == s.sto)), "allocate: asks the buffer's own storage")
        ex.oblige(st, NOT(st.g["b.out"]), "no buffer is allocated while another is outstanding")
        s2 = st.fork() if s.throwing else None
        base = fresh("nbase"); cap = fresh("ncap"); st.assume(z3.ULE(base, bv(1 << 44))); st.assume(z3.ULE(cap, bv(1 << 40))); st.assume(cap != 0)
        st.g.update({"b.out": z3.BoolVal(True), "b.base": base, "b.cap": cap}); mem_havoc(st, s.ar, base, cap)
        r = [Ret(st, [Ptr(s.ar, base), cap])]
        if s2: s2.g["b.err"] = z3.BoolVal(True); r.append(Throw(s2, EXC()))
        return r
    def h_submit(s, ex, st, a, ins):
        g = st.g; p = a[1]; n = bv(a[2]); err = g["b.err"]
        ok = isinstance(p, Ptr) and p.rid == s.ar
        ex.oblige(st, AND(z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == s.sto)), "submit: goes to the buffer's own storage")
        ex.oblige(st, OR(err, AND(z3.BoolVal(ok), g["b.out"], eq(p.off if ok else 1, g["b.base"]))), "submit: the outstanding buffer is submitted with the pointer it was allocated with")
        ex.oblige(st, OR(err, AND(n != 0, z3.ULE(n, g["b.cap"]))), "submit: the size is between one and the capacity")
        if "b.t" in g and ok:
            t = g["b.t"]; i = simp(t - g["b.subm"]); b = read_byte(st, s.ar, simp(g["b.base"] + i))
            ex.oblige(st, OR(err, z3.Implies(z3.ULT(i, n), bv(b, 8) == g["b.E"])), "submit: every byte is the next byte of the output, in order")
        ex.cover(st, "submit"); s2 = st.fork() if s.throwing else None
        g["b.subm"] = simp(g["b.subm"] + n); g["b.out"] = z3.BoolVal(False); g["b.nsub"] = simp(g["b.nsub"] + 1)
        r = [Ret(st, 0)]
        if s2: s2.g["b.err"] = z3.BoolVal(True); r.append(Throw(s2, EXC()))
        return r
    def h_flush(s, ex, st, a, ins):
        ex.oblige(st, OR(st.g["b.err"], NOT(st.g["b.out"])), "the back-end is asked to flush only after everything outstanding was submitted")
        s2 = st.fork() if s.throwing else None
        st.g["b.flushed"] = z3.BoolVal(True); r = [Ret(st, 0)]
        if s2: s2.g["b.err"] = z3.BoolVal(True); s2.g["b.flushed"] = z3.BoolVal(True); r.append(Throw(s2, EXC()))
        return r
    def contracts(s): return [(r"^vp_st_alloc$", s.h_alloc), (r"^vp_st_submit$", s.h_submit), (r"^vp_st_flush$", s.h_flush), (r"^vp_st_sync$", lambda ex, st, a, i: (st.g.__setitem__("b.synced", z3.BoolVal(True)), 0)[1])]
    # --- state of the object
    def used(s, ex, st):
        """(well formed, bytes in the outstanding buffer)"""
        o = ex.off; f = [mem_read(st, s.r, o["bf_" + k], 8) for k in ("begin", "pos", "end")]
        f = [resolve(st, x) if isz(x) else x for x in f]
        if all(isinstance(x, Ptr) and x.rid == s.ar for x in f):
            b, p, e = (bv(x.off) for x in f); base, cap = st.g["b.base"], st.g["b.cap"]
            return AND(st.g["b.out"], b == base, e == base + cap, z3.ULE(p - b, cap), p != b), simp(p - b)
        if all(isinstance(x, int) and x == 0 for x in f): return NOT(st.g["b.out"]), z3.BitVecVal(0, 64)
        # emptied: any equal pointers that are not used
        if isinstance(f[0], Ptr) and isinstance(f[1], Ptr) and f[0].rid == f[1].rid == s.ar:
            return AND(NOT(st.g["b.out"]), z3.BoolVal(False)), z3.BitVecVal(0, 64)
        return z3.BoolVal(False), z3.BitVecVal(0, 64)
    def loops(s, ex, st, f):
        """candidate invariants of any loop that copies text into buffers"""
        P0 = st.g["b.P0"]
        def placed(ex, x): return x.g["b.subm"] + s.in_buf(ex, x)
        def cur(ex, x):
            t = x.g["b.t"]; i = t - x.g["b.subm"]
            return z3.Implies(AND(z3.UGE(t, x.g["b.subm"]), z3.ULT(i, s.in_buf(ex, x))), bv(read_byte(x, s.ar, simp(x.g["b.base"] + i)), 8) == x.g["b.E"])
        inv = [("the outstanding buffer holds the next bytes of the output", cur), ("the object describes the outstanding buffer", lambda ex, x: s.rep(ex, x)),
               ("an outstanding buffer is not empty", lambda ex, x: OR(NOT(x.g["b.out"]), s.in_buf(ex, x) != 0)), ("nothing lost yet", lambda ex, x: z3.ULE(x.g["b.subm"], P0 + bv(1 << 42))), ("in buffer bound", lambda ex, x: z3.ULE(s.in_buf(ex, x), bv(1 << 40)))]
        # progress of the source: every loop-carried pointer into the text, index or remaining length
        txt = getattr(s, "text_rid", None); n = bv(s.text_n) if txt is not None else None; d = len(st.frames) - 1
        slots = [(f"phi{p.id}", lambda x, i=p.id: x.frames[d].regs[i]) for p in f.bb.phis]
        for fr in st.frames:
            for rid in fr.allocas:
                r = st.mem[rid]
                if isinstance(r.size, int) and r.size <= 64:
                    slots += [(f"{r.name}+{o}", lambda x, rid=rid, o=o: mem_read(x, rid, o, 8)) for o, (sz, val) in list(r.cells.items()) if sz == 8]
        progs = []; nested = any(isinstance(c, tuple) for fr in st.frames for c in fr.cuts.values())
        for nm, get in slots:
            def val(x, get=get):
                y = get(x); y = resolve(x, y) if isz(y) and z3.is_bv(y) else y
                if isinstance(y, Ptr): return bv(y.off) if y.rid == txt else None
                if isinstance(y, int): return bv(y)
                return y if isz(y) and z3.is_bv(y) and y.size() == 64 else None
            def w(fm, val=val):
                def c(ex, x):
                    y = val(x); return None if y is None else fm(ex, x, y)
                return c
            if n is not None:
                inv += [(f"copied == {nm}", w(lambda ex, x, y: placed(ex, x) - P0 == y)), (f"copied == length - {nm}", w(lambda ex, x, y: placed(ex, x) - P0 == n - y)), (f"{nm} within the text", w(lambda ex, x, y: z3.ULE(y, n)))]
            # a loop that copies into the outstanding buffer and advances its position only afterwards
            def prog(x, get=get):
                y = get(x); y = resolve(x, y) if isz(y) and z3.is_bv(y) else y
                if isinstance(y, Ptr): return bv(y.off) - (placed(ex, x) - P0) if y.rid == txt else bv(y.off) - x.g["b.base"] - s.in_buf(ex, x) if y.rid == s.ar else None
                return bv(y) if isinstance(y, int) else y if isz(y) and z3.is_bv(y) and y.size() == 64 else None
            def wp(fm, prog=prog):
                def c(ex, x):
                    y = prog(x); return None if y is None else fm(ex, x, y)
                return c
            if n is not None and nested:
                def ahead(ex, x, y):
                    t = x.g["b.t"]; i = t - x.g["b.subm"]
                    return z3.Implies(AND(z3.UGE(t, x.g["b.subm"]), z3.ULT(i, s.in_buf(ex, x) + y)), bv(read_byte(x, s.ar, simp(x.g["b.base"] + i)), 8) == x.g["b.E"])
                inv += [(f"the bytes ahead up to {nm} are the next bytes of the output", wp(ahead)), (f"ahead {nm} within the text", wp(lambda ex, x, y: AND(z3.ULE(y, n), z3.ULE(placed(ex, x) - P0, n - y)))),
                        (f"ahead {nm} within the buffer", wp(lambda ex, x, y: AND(x.g["b.out"], z3.ULE(y, x.g["b.cap"]), z3.ULE(s.in_buf(ex, x), x.g["b.cap"] - y))))]
                for nm2, prog2 in progs:
                    def both(ex, x, prog=prog, prog2=prog2):
                        a, b = prog(x), prog2(x); return None if a is None or b is None else a == b
                    inv.append((f"{nm} and {nm2} advance together", both))
                progs.append((nm, prog))
        return LoopSpec(invs=inv, auto=False)
    def in_buf(s, ex, st):
        f = [mem_read(st, s.r, ex.off["bf_" + k], 8) for k in ("begin", "pos")]
        f = [resolve(st, x) if isz(x) else x for x in f]
        if isinstance(f[0], Ptr) and isinstance(f[1], Ptr): return bv(sub(f[1].off, f[0].off))
        a = [addr(st, x) for x in f]; return bv(sub(a[1], a[0]))
    def rep(s, ex, st):
        o = ex.off; f = [mem_read(st, s.r, o["bf_" + k], 8) for k in ("begin", "pos", "end")]
        f = [bv(addr(st, x)) for x in f]; A = st.mem[s.ar].base; base, cap = st.g["b.base"], st.g["b.cap"]
        return z3.Or(AND(st.g["b.out"], cap != 0, z3.ULE(base, bv(1 << 44)), z3.ULE(cap, bv(1 << 40)), f[0] == A + base, f[2] == A + base + cap, z3.ULE(f[1] - f[0], cap)), AND(NOT(st.g["b.out"]), f[0] == 0, f[1] == 0, f[2] == 0))
def zb_is(x): return x is not None and isz(x) and z3.is_true(z3.simplify(x))

def fmt_print(ex, st, a, ins): return 0      # diagnostics on stderr
ENV = [(r"^void fmt::v\d+::print<|^fmt::v\d+::vprint\(", fmt_print), (r"^(.* )?xtr::detail::get_time<", lambda ex, st, a, i: NotImplemented if False else [fresh("sec"), fresh("nsec")])]

def setup(ctx, throwing=False, extra=()):
    holder = {}
    v = ctx.verifier("buf", [(r"^vp_st_", lambda ex, st, a, i: NotImplemented)][:0] + list(extra) + ENV + STR, lambda ex, st, f: holder["b"].loops(ex, st, f) if "b.t" in st.g else None)
    st = State(); b = Buf(v, st, throwing); holder["b"] = b; v.contracts = b.contracts() + v.contracts
    set_errno(v, st, fresh("errno0", 32))
    return v, st, b

@harness("buffer.append_line", ("C08",), cost=30)
def append_line(ctx):
    v, st0, b = setup(ctx); cov = []
    rid, n = new_string(st0, Ptr(b.r, v.off["bf_line"]), "line"); st0.assume(z3.ULE(n, bv(1 << 40))); b.text_rid = rid; b.text_n = n
    snap = snapshot(st0, rid)
    for st in b.any_state(v, st0):
        b.expect(st, lambda i: snap(st, i)); P0 = st.g["b.P0"]
        for d in v.run(st, v.fn("^vp_bf_append_line$"), [b.p]):
            s = d.st
            if d.kind != "ret": v.fail(s, "append_line returns"); continue
            v.cover(s, "returned"); wf, used = b.used(v, s)
            v.oblige(s, OR(wf, AND(n == 0)), "append_line: the buffer describes the outstanding storage buffer")
            v.oblige(s, s.g["b.subm"] + used == P0 + n, "append_line: every byte of the line was placed exactly once")
            t = s.g["b.t"]; i = simp(t - s.g["b.subm"]); x = read_byte(s, b.ar, simp(s.g["b.base"] + i))
            v.oblige(s, z3.Implies(AND(z3.UGE(t, s.g["b.subm"]), z3.ULT(i, used)), bv(x, 8) == s.g["b.E"]), "append_line: the outstanding buffer holds the next bytes of the output in order")
            _, ln = str_get(v, s, Ptr(b.r, v.off["bf_line"])); v.oblige(s, eq(ln, 0), "append_line: the line is empty afterwards")
            v.oblige(s, NOT(s.g["b.flushed"]), "append_line: does not flush")
    need_covers(ctx, v, ["returned", "submit"])

def flush_like(name, fn, dtor=False):
    for throwing in (False, True):
        @harness(name + (".throwing" if throwing else ""), ("C08",), cost=3)
        def h(ctx, throwing=throwing):
            v, st0, b = setup(ctx, throwing); new_string(st0, Ptr(b.r, v.off["bf_line"]), "line")
            if dtor: v.contracts = [(r"^vp_st_dtor$", lambda ex, st, a, i: (ex.oblige(st, OR(st.g["b.flushed"], st.g["b.err"]), "the storage is destroyed after the flush"), 0)[1])] + v.contracts
            for st in b.any_state(v, st0):
                b.expect(st, None); P0 = st.g["b.P0"]
                for d in v.run(st, v.fn(f"^{fn}$"), [b.p]):
                    s = d.st
                    if d.kind != "ret": v.fail(s, f"{name}: no exception escapes"); continue
                    err = s.g["b.err"]; v.oblige(s, OR(err, AND(s.g["b.subm"] == P0, s.g["b.flushed"])), f"{name}: submits exactly the outstanding bytes and then flushes the back-end")
                    if not dtor: wf, used = b.used(v, s); v.oblige(s, OR(err, AND(wf, used == 0, NOT(s.g["b.out"]))), f"{name}: nothing is outstanding afterwards")
                    v.cover(s, "returned")
            need_covers(ctx, v, ["returned", "submit"])
flush_like("buffer.flush", "vp_bf_flush")
flush_like("buffer.destructor", "vp_bf_dtor", True)

@harness("buffer.construct", ("C08",))
def ctor(ctx):
    v, st, b = setup(ctx); m = new_region(st, "new", v.off["bf_size"], align=8); up = new_region(st, "up", 8, align=8); mem_write(st, up.rid, 0, 8, Ptr(b.sto, 0))
    for d in v.run(st, v.fn("^vp_bf_ctor$"), [Ptr(m.rid, 0), Ptr(up.rid, 0), FnP(b.lsty)]):
        s = d.st
        if d.kind != "ret": v.fail(s, "constructor returns"); continue
        b.r = m.rid; b.p = Ptr(m.rid, 0); wf, used = b.used(v, s); _, n = str_get(v, s, Ptr(m.rid, v.off["bf_line"])); sp = mem_read(s, m.rid, v.off["bf_storage"], 8)
        v.oblige(s, AND(wf, used == 0, eq(n, 0), z3.BoolVal(isinstance(sp, Ptr) and sp.rid == b.sto)), "constructor: empty, owns the given storage"); v.cover(s, "constructed")
    need_covers(ctx, v, ["constructed"])

def format_to(b, chk=None):
    """fmt::format_to into the line: appends arbitrary text or throws after appending arbitrary text"""
    def h(ex, st, a, ins):
        c = a[0]; c = resolve(st, c) if isz(c) else c
        ex.oblige(st, z3.BoolVal(isinstance(c, Ptr) and c.rid == b.r and c.off == ex.off["bf_line"]), "the text is formatted into the line")
        if chk: chk(ex, st, a)
        L = Ptr(b.r, ex.off["bf_line"]); s2 = st.fork()
        for x in (st, s2):
            _, n0 = str_get(ex, x, L); n = fresh("fmtlen"); x.assume(z3.ULE(n, bv(1 << 40)))
            src = new_region(x, "formatted", n, align=1, arr=fresh_arr("formatted"))
            strmodel.append_bytes(ex, x, L, Ptr(src.rid, 0), n)
            x.g["line.n0"] = n0; x.g["line.n"] = n; x.g["$line.src"] = src.rid
        s2.g["print.failed"] = z3.BoolVal(True); ex.cover(s2, "formatting failed"); ex.cover(st, "formatted")
        return [Ret(st, a[0]), Throw(s2, EXC())]
    return h
def print_h(name, fn):
    @harness(name, ("C08",), cost=10)
    def h(ctx):
        def chk(ex, st, a): pass
        calls = {}
        def h_append(ex, st, a, ins):       # contract of append_line, proved above
            _, n = str_get(ex, st, Ptr(b.r, ex.off["bf_line"]))
            ex.oblige(st, AND(z3.BoolVal(a[0].rid == b.r), NOT(st.g["appended"])), f"{name}: the line is appended once")
            ex.oblige(st, AND(eq(st.g["line.n0"], 0), eq(n, st.g["line.n"])), f"{name}: exactly the formatted text is appended")
            st.g["appended"] = z3.BoolVal(True); strmodel.h_clear(ex, st, [Ptr(b.r, ex.off["bf_line"])], None); return 0
        v, st, b = setup(ctx); v.contracts = [(r"^xtr::detail::buffer::append_line\(\)", h_append), (r"^_ZN3fmt2v\d+(9|10)v?format_toI|^[^(]*fmt::v\d+::v?format_to<", format_to(b, lambda ex, st, a: fmt_ok(ex, st, a)))] + v.contracts
        L = Ptr(b.r, v.off["bf_line"]); strmodel.empty(st, L); st.g.update({"appended": z3.BoolVal(False), "print.failed": z3.BoolVal(False), "line.n0": 0, "line.n": 0})
        lev = fresh("level", 32); st.g["style.level"] = lev; st.g["$styleptr"] = cstring(st, "style")
        f = cstring(st, "fmt"); flen = fresh("fmtlen"); st.assume(z3.ULE(flen, bv(st.mem[f.rid].tag[1]))); ts = cstring(st, "ts"); nm = new_region(st, "name", 32, align=8); new_string(st, Ptr(nm.rid, 0), "name")
        a1 = new_region(st, "a1", 4, align=4); a2 = new_region(st, "a2", 8, align=8)
        def fmt_ok(ex, st, a):
            p = [x for x in a[1:]]
            ex.oblige(st, AND(z3.BoolVal(isinstance(p[0], Ptr) and p[0].rid == f.rid and isinstance(p[0].off, int) and p[0].off == 0), eq(p[1], flen)), f"{name}: the statement's own format is used")
            rids = [x.rid for x in p[2:] if isinstance(x, Ptr)]
            if nm.rid in rids:
                want = [nm.rid, a1.rid, a2.rid]; got = [r for r in rids if r in want]
                ex.oblige(st, z3.BoolVal(got == want), f"{name}: the name and the arguments are formatted in order")
                tp = next((x for x in p[2:] if isinstance(x, Ptr) and x.rid not in want and st.mem[x.rid].kind == "stack" and isinstance(mem_read(st, x.rid, x.off, 8), Ptr) and mem_read(st, x.rid, x.off, 8).rid == ts.rid), None)
                ex.oblige(st, z3.BoolVal(tp is not None and [x.rid for x in p[2:]].index(tp.rid) == 1), f"{name}: the timestamp comes second")
        args = [b.p, flen, f, lev, ts, Ptr(nm.rid, 0)] if fn == "vp_print" else [b.p, flen, f, lev, Ptr(nm.rid, 0), ts]   # libstdc++: length first
        pre = [mem_read(st, b.r, v.off["bf_" + k], 8) for k in ("pos", "begin", "end")]
        for d in v.run(st, v.fn(f"^{fn}$"), args + [Ptr(a1.rid, 0), Ptr(a2.rid, 0)]):
            s = d.st
            if d.kind != "ret": v.fail(s, f"{name}: no exception escapes"); continue
            _, n = str_get(v, s, L); v.oblige(s, eq(n, 0), f"{name}: the line is empty afterwards, also after a failure")
            v.oblige(s, s.g["appended"] == NOT(s.g["print.failed"]), f"{name}: a line is appended exactly if formatting succeeded")
            v.oblige(s, AND(s.g["b.nsub"] == 0, NOT(s.g["b.out"]), *[eq(addr(s, mem_read(s, b.r, v.off["bf_" + k], 8)), addr(s, x)) for k, x in zip(("pos", "begin", "end"), pre)]), f"{name}: the output changes only by appending the line")
            v.cover(s, "returned")
        need_covers(ctx, v, ["returned", "formatted", "formatting failed"])
print_h("print", "vp_print"); print_h("print_ts", "vp_print_ts")
