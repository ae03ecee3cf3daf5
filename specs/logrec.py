"""C02, C03: one log statement = one record, written and then decoded by its own trampoline.
Callee contracts: the queue operations (proved in specs/ring.py), buffer::append_line (specs/buf.py), fmt::vformat_to (assumed: formats what it is given or throws)."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv import fmtmodel, strmodel
from irv.strmodel import STR, S
UNITS = ["logrec"]
EXC = lambda: Exc({"_ZTISt9exception", "_ZTISt13runtime_error", "_ZTIN3fmt2v912format_errorE"}, kind="format_error")
def U(a, b): return z3.ULE(bv(a), bv(b))

class Rec:
    """one log statement on one sink.  Ghosts: pos (offset of the record in the mapping), avail (space acquired at pos),
    pub (bytes published), drops; Z an arbitrary byte position of the mapping"""
    def __init__(s, ctx, entry, bst=False):
        s.bst = bst
        s.entry = entry; s.nb = entry.startswith("vp_n") if not bst else "_n" in entry[-3:]; s.ts = entry[4] == "t"; s.srcs = []; s.objs = 0
        s.v = v = ctx.verifier("logrec", s.contracts(), s.loops); v.rec = s
        s.cap = v.off["capacity"]; st = State(); s.st = st
        s.map = new_region(st, "queue", 2 * s.cap, align=4096, arr=fresh_arr("queue")).rid
        s.sink = new_region(st, "sink", v.off["sink_size"], align=64).rid
        st.wregion(s.sink).cells[v.off["level"]] = (4, v.off["warning"])
        pos = fresh("pos"); av = fresh("avail"); s.pos = pos; s.Z = fresh("Z")
        st.assume(AND(z3.ULT(pos, bv(s.cap)), pos & 7 == 0, U(av, s.cap), av & 7 == 0))
        ALIGNED[str(pos)] = 8
        st.g.update({"avail": av, "pub": z3.BitVecVal(0, 64), "npub": z3.BitVecVal(0, 64), "drops": z3.BitVecVal(0, 64), "maxreq": z3.BitVecVal(0, 64), "$objs": (), "$phase": "log", "fmt": 0, "lasttag": z3.BoolVal(False)})
        def check(ex, st2, p, n, write):
            if st2.g["$phase"] == "log":
                if write: ex.oblige(st2, AND(U(pos, p.off), U(n, st2.g["avail"]), U(sub(p.off, pos), sub(st2.g["avail"], n))), "written inside the space the queue offered")
            else:
                ex.oblige(st2, AND(U(pos, p.off), U(n, st2.g["pub"]), U(sub(p.off, pos), sub(st2.g["pub"], n))), "decoding stays inside the record")
        st.wregion(s.map).check = check
        def sh(ex, st2, p, n):
            if p.off == v.off["level"]: return None
            return lambda ex, st, k, o, n, x: (ex.fail(st, "a log statement touches its sink only through the queue's operations"), fresh("x", 8 * n))[1]
        st.wregion(s.sink).shared = sh
    # ---- the queue's operations
    def h_span(s, ex, st, a, ins):
        sret = a[0] if len(a) == 3 else None
        name = ex_callee(ins); nb = "non_blocking_tag" in name; spec = "write_span_spec" in name or "speculative" in name; m = a[-1]
        ex.oblige(st, z3.BoolVal(isinstance(a[-2], Ptr) and a[-2].rid == s.sink and a[-2].off == ex.off["buf"]), "the sink's own queue is used")
        ex.oblige(st, U(m, s.cap), "space requested fits the queue"); ex.oblige(st, eq(st.g["npub"], 0), "no space is requested after publishing")
        if not s.nb: ex.oblige(st, z3.BoolVal(not nb), "a blocking statement requests space with a blocking request")
        q = st.g["maxreq"]; q = q if not isz(q) else simp(q)
        st.g["maxreq"] = m if isinstance(q, int) and q == 0 else q if isinstance(m, int) and m == 0 else max(m, q) if isinstance(m, int) and isinstance(q, int) else m if isz(m) and ex.solver.must(st, U(q, m)) else q if ex.solver.must(st, U(m, q)) else simp(z3.If(z3.UGT(bv(m), bv(q)), bv(m), bv(q)))
        av = fresh("avail"); st.assume(AND(U(st.g["avail"], av), U(av, s.cap), av & 7 == 0)); st.g["avail"] = av
        res = []
        if nb and not (isinstance(m, int) and m == 0):
            s2 = st.fork(); s2.assume(z3.ULT(av, bv(m))); s2.g["drops"] = add(s2.g["drops"], 1); res.append(Ret(s2, s.span(s2, sret, 0, 0)))
        n = av
        if spec: n = fresh("span"); st.assume(AND(U(n, av), n & 7 == 0))
        st.assume(U(m, n)); return [Ret(st, s.span(st, sret, Ptr(s.map, s.pos), n))] + res
    def span(s, st, r, b, n):
        if r is None: return [b, n]
        mem_write(st, r.rid, r.off, 8, b); mem_write(st, r.rid, add(r.off, 8), 8, n)
    def h_publish(s, ex, st, a, ins):
        n = a[1]; ex.oblige(st, bv(n) & 7 == 0, "the record published keeps the next record aligned"); ex.oblige(st, AND(U(n, st.g["avail"]), bv(n) != 0), "the record published lies in the space offered")
        ex.oblige(st, AND(eq(st.g["npub"], 0), eq(st.g["drops"], 0)), "published once"); ex.oblige(st, U(st.g["maxreq"], n), "no more space is demanded than the record takes")
        st.g["npub"] = add(st.g["npub"], 1); st.g["pub"] = n; return 0
    def h_bst(s, ex, st, a, ins):
        """contract of build_string_table (proved below): the string is appended whole at pos, or nothing is and it is reported truncated"""
        if len(a) != 4 or ins.ty.kind != "int" or ins.ty.width != 32: return NotImplemented      # the overloads that only forward
        nb = "non_blocking_tag" in ex_callee(ins).split("synchronized_ring_buffer")[0]
        ex.oblige(st, z3.BoolVal(nb == s.nb), "the statement's own blocking mode is used for its strings")
        pp = ex.bounds(st, a[0], 8, "string position", True); pe = ex.bounds(st, a[1], 8, "end of space", True); P = mem_read(st, pp.rid, pp.off, 8); E = mem_read(st, pe.rid, pe.off, 8)
        ex.oblige(st, z3.BoolVal(isinstance(a[2], Ptr) and a[2].rid == s.sink and a[2].off == ex.off["buf"]), "the sink's own queue is used")
        P, E = (resolve(st, x) if isz(x) else x for x in (P, E)); ex.oblige(st, z3.BoolVal(isinstance(P, Ptr) and P.rid == s.map and isinstance(E, Ptr) and E.rid == s.map), "strings are placed in the queue")
        if not (isinstance(P, Ptr) and isinstance(E, Ptr)): return Stop(st, "bad")
        ex.oblige(st, AND(U(s.pos, P.off), U(sub(P.off, s.pos), sub(E.off, s.pos)), U(sub(E.off, s.pos), st.g["avail"])), "the space given to a string lies inside the space the queue offered")
        ex.oblige(st, (bv(sub(E.off, s.pos)) & 7) == 0, "the end of the space is aligned")
        src = a[3]
        if st.mem[src.rid].tag and st.mem[src.rid].tag[0] == "cstr": D, L = src, sub(st.mem[src.rid].tag[1], src.off)
        else:
            x, y = mem_read(st, src.rid, src.off, 8), mem_read(st, src.rid, add(src.off, 8), 8); nm = ex_callee(ins)
            D, L = (y, x) if re.search(r"basic_string_view<char[^()]*const&\)", nm) else (x, y)
        av = fresh("avail"); st.assume(AND(U(st.g["avail"], av), U(av, s.cap), av & 7 == 0)); st.g["avail"] = av; start = sub(P.off, s.pos); need = bv(start) + bv(L)
        s2 = st.fork(); st.assume(U(need, av)); mem_copy(st, s.map, P.off, D.rid, D.off, L); mem_write(st, pp.rid, pp.off, 8, Ptr(s.map, add(P.off, L)))
        s2.assume(z3.UGT(need, av)); 
        if not nb: s2.assume(av == s.cap)
        mem_havoc(s2, s.map, P.off, sub(av, start)); k = st.g.get("trunc", 0); s2.g["trunc"] = k + 1
        for q in (st, s2): e = fresh("end"); q.assume(AND(U(sub(E.off, s.pos), e), U(e, av), e & 7 == 0)); mem_write(q, pe.rid, pe.off, 8, Ptr(s.map, add(s.pos, e)))
        st.assume(U(need, sub(mem_read(st, pe.rid, pe.off, 8).off, s.pos)))
        for q in (st, s2):
            q.g["$strs"] = q.g.get("$strs", ()) + ((D, L, q is st),)
        return [Ret(st, simp(z3.Extract(31, 0, bv(L)))), Ret(s2, 0xffffffff)]
    # ---- observable argument objects
    def find(s, ex, st, p, what):
        for k, (r, o, i, live) in enumerate(st.g["$objs"]):
            if isinstance(p, Ptr) and p.rid == r:
                d = sub(p.off, o)
                if (isinstance(d, int) and d == 0) or (isz(d) and ex.solver.must(st, d == 0)): return k
        ex.fail(st, f"{what}: a constructed object"); return None
    def setobj(s, st, k, **kw):
        o = list(st.g["$objs"]); r, f, i, l = o[k]; o[k] = (r, f, kw.get("id", i), kw.get("live", l)); st.g["$objs"] = tuple(o)
    def h_copy(s, ex, st, a, ins):
        k = s.find(ex, st, a[1], "copied from"); d = ex.bounds(st, a[0], 16, "argument object", True)
        if k is None or d is None: return 0
        st.g["$objs"] = st.g["$objs"] + ((d.rid, d.off, st.g["$objs"][k][2], True),)
        ex.oblige(st, (bv(add(st.mem[d.rid].base, d.off)) & 7) == 0, "argument stored at an aligned address"); return 0
    def h_destroy(s, ex, st, a, ins):
        live = [k for k, o in enumerate(st.g["$objs"]) if o[3]]
        for k in reversed(live):
            r, o, i, l = st.g["$objs"][k]
            if isinstance(a[0], Ptr) and a[0].rid == r and ex.solver.must(st, eq(a[0].off, o)): s.setobj(st, k, live=False); return 0
        ex.fail(st, "each stored argument is destroyed exactly once"); return 0
    # ---- decoding
    def h_style(s, ex, st, a, ins):
        st.g["$lev"] = a[0]; return st.g["$style"]
    def h_vformat(s, ex, st, a, ins):
        out, tp, tn, desc, vals = fmtmodel.sv_args(a); t = fmtmodel.text(ex, st, tp, tn); args = fmtmodel.decode(ex, st, desc, vals); v = s.v
        ex.oblige(st, z3.BoolVal(t == s.text), "the statement's format, file and line are used")
        ex.oblige(st, eq(st.g.get("$lev", 99), v.off["warning"], 32), "the statement's level is used")
        ex.oblige(st, z3.BoolVal(len(args) == 3 + len(s.expect)), "every argument is formatted"); ex.oblige(st, eq(st.g["fmt"], 0), "formatted once")
        if len(args) != 3 + len(s.expect): return out
        (t0, x0), (t1, x1), (t2, x2) = args[:3]
        same = lambda p, q: isinstance(p, Ptr) and p.rid == q.rid and isinstance(sub(p.off, q.off), int) and sub(p.off, q.off) == 0
        ex.oblige(st, z3.BoolVal(t0 == "cstring" and same(x0, st.g["$style"])), "the level's text comes first")
        if s.ts: ex.oblige(st, AND(z3.BoolVal(t1 == "long"), eq(x1, s.tsv) if t1 == "long" else z3.BoolVal(False)), "the timestamp passed comes second")
        else: ex.oblige(st, z3.BoolVal(t1 == "cstring" and same(x1, s.tstr)), "the timestamp comes second")
        ok = t2 == "string" and same(x2[0], Ptr(s.namer, 0)); ex.oblige(st, AND(z3.BoolVal(ok), eq(x2[1], s.namen) if ok else z3.BoolVal(False)), "the sink's name comes third")
        for k, ((ty, x), e) in enumerate(zip(args[3:], s.expect)): e(ex, st, f"argument {k + 1}", ty, x)
        L = Ptr(s.buf, v.off["bf_line"]); c = resolve(st, out) if isz(out) else out
        ex.oblige(st, z3.BoolVal(same(c, L)), "formatted into the line"); st.g["fmt"] = 1; ex.cover(st, "decoded")
        s2 = st.fork(); ex.cover(s2, "formatting failed"); s2.g["failed"] = 1; return [Ret(st, out), Throw(s2, EXC())]
    def h_append(s, ex, st, a, ins): st.g["appended"] = add(st.g.get("appended", 0), 1); return 0
    def contracts(s):
        def no_alloc(ex, st, a, ins):
            if st.g["$phase"] == "log": ex.fail(st, "no memory is allocated by a log statement")
            return NotImplemented
        def h_scopy(ex, st, a, ins):
            if st.g["$phase"] == "log": ex.fail(st, "no memory is allocated by a log statement")
            return strmodel.h_copy(ex, st, a, ins)
        return ([(r"xtr::detail::build_string_table<", s.h_bst)] if not s.bst else []) + [(r"synchronized_ring_buffer<\d+ul>::write_span(_spec)?<", s.h_span), (r"synchronized_ring_buffer<\d+ul>::reduce_writable\(", s.h_publish),
                (r"^vp_obj_copy$|^vp_obj_move$", s.h_copy), (r"^vp_obj_destroy$", s.h_destroy), (fmtmodel.VFORMAT, s.h_vformat), (r"^xtr::detail::buffer::append_line\(\)", s.h_append),
                (r"^(void )?fmt::v\d+::v?print(<|\()", lambda ex, st, a, i: 0), (r"^xtr::detail::pause\(\)|_mm_pause", lambda ex, st, a, i: 0),
                (rf"^{S}::basic_string\({S} const&\)$", h_scopy), (r"^operator new", lambda ex, st, a, i: no_alloc(ex, st, a, i))] + STR
    # ---- loops
    def loops(s, ex, st, f):
        d = len(st.frames) - 1; gs = []
        for p in f.bb.phis: gs.append((lambda q, i=p.id: q.frames[d].regs[i], f"phi{p.id}"))
        for rid, r in st.mem.items():
            if r.kind == "stack" and r.live:
                for o, (n, x) in r.cells.items():
                    if n == 8: gs.append((lambda q, rid=rid, o=o: mem_read(q, rid, o, 8), f"{r.name}+{o}"))
        invs = []; Z = s.Z
        rb = lambda q, i: bv(read_byte(q, s.map, i), 8)
        bases = {}
        for g, nm in gs:
            e = g(st)
            if isinstance(e, Ptr) and e.rid == s.map: bases[str(e.off)] = e.off
        for fr in st.frames:
            for x in fr.regs.values():
                if isinstance(x, Ptr) and x.rid == s.map: bases[str(x.off)] = x.off
        z0 = rb(st, Z)
        for g, nm in gs:
            e = g(st)
            if isinstance(e, Ptr) and e.rid == s.map:
                b = e.off; G = lambda q, g=g: g(q).off
                invs.append((f"{nm} within the space offered", lambda ex, q, G=G: U(sub(G(q), s.pos), q.g["avail"])))
                invs.append((f"{nm} 8-aligned", lambda ex, q, G=G: (bv(sub(G(q), s.pos)) & 7) == 0))
                invs.append((f"{nm} is the end of the space offered", lambda ex, q, G=G: eq(sub(G(q), s.pos), q.g["avail"])))
                invs.append((f"{nm} advances", lambda ex, q, G=G, b=b: U(sub(b, s.pos), sub(G(q), s.pos))))
                invs.append((f"only bytes before {nm} change", lambda ex, q, G=G, b=b: OR(z3.ULT(bv(sub(Z, b)), bv(sub(G(q), b))), rb(q, Z) == z0)))
                for k, (srid, L) in enumerate(s.srcs):
                    invs.append((f"{nm} has copied string {k}", lambda ex, q, G=G, b=b, srid=srid: IMP(z3.ULT(bv(sub(Z, b)), bv(sub(G(q), b))), rb(q, Z) == bv(read_byte(q, srid, sub(Z, b)), 8))))
                    invs.append((f"{nm} at most string {k}", lambda ex, q, G=G, b=b, L=L: U(sub(G(q), b), L)))
            elif isinstance(e, Ptr) and any(e.rid == r for r, L in s.srcs):
                L = next(L for r, L in s.srcs if r == e.rid); invs.append((f"{nm} inside its string", lambda ex, q, g=g, L=L: U(g(q).off, L)))
            elif (isinstance(e, int) or isz(e) and z3.is_bv(e) and e.size() == 64):
                for b in bases.values():
                    for k, (srid, L) in enumerate(s.srcs):
                        invs.append((f"{nm} counts string {k}", lambda ex, q, g=g, b=b, srid=srid, e=e: IMP(z3.ULT(bv(sub(Z, b)), bv(sub(g(q), e))), rb(q, Z) == bv(read_byte(q, srid, sub(Z, b)), 8)) if not isinstance(g(q), Ptr) else z3.BoolVal(False)))
                        invs.append((f"{nm} at most length {k}", lambda ex, q, g=g, L=L: U(g(q), L) if not isinstance(g(q), Ptr) else z3.BoolVal(False)))
        for k in range(8): invs.append((f"function pointer byte {k} kept", lambda ex, q, k=k, x=rb(st, add(s.pos, k)): rb(q, add(s.pos, k)) == x))
        invs.append(("space offered stays sane", lambda ex, q: AND(U(q.g["avail"], s.cap), bv(q.g["avail"]) & 7 == 0, U(st.g["avail"], q.g["avail"]))))
        invs.append(("requests", lambda ex, q: eq(q.g["maxreq"], st.g["maxreq"])))
        return LoopSpec(invs=invs)
    # ---- arguments; each returns the value passed and registers what must come out
    def ref(s, n, val=None, align=8):
        r = new_region(s.st, "arg", n, align=align, arr=None)
        if val is not None: mem_write(s.st, r.rid, 0, n, val)
        return r
    def scalar(s, ty, w):
        x = fresh("x", 8 * w); r = s.ref(w, x)
        s.expect.append(lambda ex, st, nm, t, y: ex.oblige(st, AND(z3.BoolVal(t == ty), bv(y, 8 * w) == x if t == ty else z3.BoolVal(False)), f"{nm}: the value passed"))
        return Ptr(r.rid, 0)
    def pod(s, cls, n, align):
        r = new_region(s.st, "arg", n, align=align, arr=fresh_arr("arg")); src = [mem_read(s.st, r.rid, k, 1) for k in range(n)]
        def e(ex, st, nm, t, y):
            ok = t == "custom" and isinstance(y[0], Ptr) and isinstance(y[1], FnP) and cls in y[1].fn.dname
            ex.oblige(st, z3.BoolVal(ok), f"{nm}: formatted as its own type")
            if ok:
                p = ex.bounds(st, y[0], n, nm, False)
                ex.oblige(st, AND(*[bv(read_byte(st, p.rid, add(p.off, k)), 8) == bv(src[k], 8) for k in (range(min(n, 16)) if cls != "vp_big" else [*range(8), *range(128, 132), *range(n - 8, n)])]), f"{nm}: the bytes passed")
                ex.oblige(st, (bv(add(st.mem[p.rid].base, p.off)) & (align - 1)) == 0, f"{nm}: stored at an aligned address")
        s.expect.append(e); return Ptr(r.rid, 0)
    def obj(s, cls="vp_obj", n=16, align=8):
        r = s.ref(n, align=align); s.objs += 1; i = s.objs; s.st.g["$objs"] = s.st.g["$objs"] + ((r.rid, 0, i, True),)
        def e(ex, st, nm, t, y):
            ok = t == "custom" and isinstance(y[1], FnP) and cls in y[1].fn.dname; ex.oblige(st, z3.BoolVal(ok), f"{nm}: formatted as its own type")
            if ok:
                k = s.find(ex, st, y[0], nm)
                ex.oblige(st, (bv(add(st.mem[y[0].rid].base, y[0].off)) & (align - 1)) == 0, f"{nm}: stored at an aligned address")
                if k is not None: ex.oblige(st, z3.BoolVal(st.g["$objs"][k][2] == i and st.g["$objs"][k][3]), f"{nm}: the object passed, still alive")
        s.expect.append(e); return Ptr(r.rid, 0)
    def chars(s, srid, L, copied):
        def e(ex, st, nm, t, y):
            ok = t == "custom" and isinstance(y[0], Ptr) and isinstance(y[1], FnP) and "string_ref<std::basic_string_view" in y[1].fn.dname
            ex.oblige(st, z3.BoolVal(ok), f"{nm}: formatted through the sanitising formatter")
            if not ok: return
            p = ex.bounds(st, y[0], 16, nm, False); n = mem_read(st, p.rid, p.off, 8); q = mem_read(st, p.rid, add(p.off, 8), 8); q = resolve(st, q) if isz(q) else q
            if isinstance(q, Ptr) and q.rid == s.map:
                ex.cover(st, "whole"); ex.oblige(st, z3.BoolVal(copied), f"{nm}: stored where expected"); ex.oblige(st, eq(n, L), f"{nm}: the whole string, nothing else")
                ex.oblige(st, IMP(z3.ULT(bv(sub(s.Z, q.off)), bv(L)), bv(read_byte(st, s.map, s.Z), 8) == bv(read_byte(st, srid, sub(s.Z, q.off)), 8)), f"{nm}: byte for byte")
                ex.oblige(st, OR(eq(n, 0), AND(U(s.pos, q.off), U(n, st.g["pub"]), U(sub(q.off, s.pos), sub(st.g["pub"], n)))), f"{nm}: the string lies inside the record")
            elif isinstance(q, Ptr) and q.rid == srid:
                ex.cover(st, "whole"); ex.oblige(st, z3.BoolVal(not copied), f"{nm}: copied during the log call"); ex.oblige(st, AND(eq(n, L), eq(q.off, 0)), f"{nm}: the whole string")
                ex.oblige(st, z3.BoolVal(st.mem[srid].live), f"{nm}: the string is alive")
            else:
                ex.cover(st, "truncated"); ex.oblige(st, z3.BoolVal(copied), f"{nm}: not truncated")
                ex.oblige(st, z3.BoolVal(isinstance(n, int) and fmtmodel.text(ex, st, q, n) == b"<truncated>"), f"{nm}: <truncated> in place of a string that does not fit")
                ok = [w for D, n, w in st.g.get("$strs", ()) if D.rid == srid]; ex.oblige(st, z3.BoolVal(ok == [False]), f"{nm}: truncated only if it does not fit")
        return e
    def cstr(s):
        p = cstring(s.st, f"str{len(s.srcs)}"); L = s.st.mem[p.rid].tag[1]; s.srcs.append((p.rid, L)); s.expect.append(s.chars(p.rid, L, True)); return p
    def data(s):
        L = fresh("len"); s.st.assume(U(L, 1 << 40)); r = new_region(s.st, f"str{len(s.srcs)}", L, align=1, arr=fresh_arr("str")); return r.rid, L
    def view(s, copied=True):
        rid, L = s.data(); s.srcs.append((rid, L)); r = s.ref(16); mem_write(s.st, r.rid, 0, 8, L); mem_write(s.st, r.rid, 8, 8, Ptr(rid, 0)); s.expect.append(s.chars(rid, L, copied)); return Ptr(r.rid, 0)
    def str(s, moved=False):
        r = s.ref(32); rid, L = strmodel.new_string(s.st, Ptr(r.rid, 0), f"str{len(s.srcs)}"); s.srcs.append((rid, L)); s.expect.append(s.chars(rid, L, not moved))
        (s.moved if moved else s.kept).append((r.rid, rid, L)); return Ptr(r.rid, 0)
    def ncstr(s):
        p = cstring(s.st, "str")
        def e(ex, st, nm, t, y):
            ok = t == "custom" and isinstance(y[0], Ptr) and isinstance(y[1], FnP) and "string_ref<char const*>" in y[1].fn.dname; ex.oblige(st, z3.BoolVal(ok), f"{nm}: formatted through the sanitising formatter")
            if ok: q = mem_read(st, y[0].rid, y[0].off, 8); q = resolve(st, q) if isz(q) else q; ex.oblige(st, z3.BoolVal(isinstance(q, Ptr) and q.rid == p.rid and isinstance(q.off, int) and q.off == 0), f"{nm}: the string passed")
        s.expect.append(e); return p
    KINDS = {"int": lambda s: s.scalar("int", 4), "ulong": lambda s: s.scalar("ulong", 8), "char": lambda s: s.scalar("char", 1), "odd": lambda s: s.pod("vp_odd", 13, 1), "wide": lambda s: s.pod("vp_wide", 64, 64),
             "obj": lambda s: s.obj(), "wobj": lambda s: s.obj("vp_wobj", 64, 64), "big": lambda s: s.pod("vp_big", 264, 8), "cstr": lambda s: s.cstr(), "view": lambda s: s.view(), "str": lambda s: s.str(), "mstr": lambda s: s.str(True), "nview": lambda s: s.view(False), "ncstr": lambda s: s.ncstr()}
    def go(s, ctx, kinds, extra=()):
        s.expect = []; s.moved = []; s.kept = []; v = s.v; st = s.st
        s.text = b"{}{} {} vp.cpp:77: F" + b" {}" * len(kinds) + b"\n"
        args = [Ptr(s.sink, 0)]
        if s.ts: s.tsv = fresh("ts"); args.append(Ptr(s.ref(8, s.tsv).rid, 0))
        args += [s.KINDS[k](s) for k in kinds] + list(extra)
        # the consumer's side
        s.buf = new_region(st, "buffer", v.off["bf_size"], align=8).rid; strmodel.empty(st, Ptr(s.buf, v.off["bf_line"])); st.wregion(s.buf).cells[v.off["bf_lstyle"]] = (8, FnP(Pseudo("vp::style", s.h_style)))
        st.g["$style"] = cstring(st, "style"); s.tstr = cstring(st, "ts"); nm = new_region(st, "name", 32, align=8).rid; s.namer, s.namen = strmodel.new_string(st, Ptr(nm, 0), "name"); cons = new_region(st, "consumer", 8, align=8).rid
        srcobjs = len(st.g["$objs"]); done = 0
        snap = [(rid, L) for _, rid, L in s.kept]
        for d in v.run(st, v.fn(f"^{s.entry}$"), args):
            t = d.st
            if d.kind != "ret": v.fail(t, "a log statement returns normally"); continue
            for rr, rid, L in s.kept: q, n = strmodel.get(v, t, Ptr(rr, 0)); v.oblige(t, AND(z3.BoolVal(isinstance(q, Ptr) and q.rid == rid and t.mem[rid].live), eq(n, L)), "a string passed by reference is left alone")
            if v.solver.must(t, eq(t.g["npub"], 0)):
                v.cover(t, "dropped"); v.oblige(t, AND(z3.BoolVal(s.nb), eq(t.g["drops"], 1)), "a statement that publishes nothing is a non-blocking one counted as dropped")
                s.leftovers(v, t, srcobjs, False); continue
            v.oblige(t, AND(eq(t.g["npub"], 1), eq(t.g["drops"], 0)), "exactly one record is published"); v.cover(t, "published")
            fn = mem_read(t, s.map, s.pos, 8); fn = resolve(t, fn) if isz(fn) else fn
            cand = [f for f in v.mods[0].fns.values() if re.search(rf"trampoline\w*<&{s.entry}::xtr_fmt", f.dname) and not f.decl]
            if not isinstance(fn, FnP):
                if len(cand) != 1: raise Unsupported("the record's function")
                v.oblige(t, eq(addr(t, fn), addr(t, FnP(cand[0]))), "the record begins with its decoding function"); fn = FnP(cand[0])
            v.oblige(t, z3.BoolVal(any(fn.fn.name == c.name for c in cand) or fn.fn in cand), "the record begins with the decoding function of this statement")
            t.g["$phase"] = "decode"; done += 1
            for d2 in v.run(t, fn.fn, [Ptr(s.buf, 0), Ptr(s.map, s.pos), Ptr(cons, 0), s.tstr, Ptr(nm, 0)]):
                u = d2.st
                if d2.kind != "ret": v.fail(u, "decoding returns normally"); continue
                r = d2.val; r = resolve(u, r) if isz(r) else r
                v.oblige(u, AND(z3.BoolVal(isinstance(r, Ptr) and r.rid == s.map), eq(sub(r.off, s.pos), u.g["pub"]) if isinstance(r, Ptr) else z3.BoolVal(False)), "decoding continues at exactly the next record")
                v.oblige(u, AND(eq(u.g["fmt"], 1), eq(u.g.get("appended", 0), 0 if u.g.get("failed") else 1)), "the statement is formatted and its line appended, once")
                s.leftovers(v, u, srcobjs, True)
        need_covers(ctx, v, ["published", "decoded"] + (["dropped"] if s.nb else []) + (["whole", "truncated"] if any(k in ("cstr", "view", "str") for k in kinds) else []))
    def leftovers(s, v, t, n, decoded):
        o = t.g["$objs"]
        v.oblige(t, z3.BoolVal(all(x[3] for x in o[:n]) and not any(x[3] for x in o[n:])), "every stored argument is destroyed exactly once and the caller's are left alone")
        for rr, rid, L in s.moved:
            q, k = strmodel.get(v, t, Ptr(rr, 0))
            if decoded: v.oblige(t, z3.BoolVal(not t.mem[rid].live or (isinstance(q, Ptr) and q.rid == rid)), "a moved string is released once")
def ex_callee(ins):
    c = ins.x["callee"]; return c.v.dname if c.kind == "fn" else ""
def bst(kind, tag):
    """build_string_table: the contract used at its call sites"""
    def h(ctx):
        s = Rec(ctx, f"vp_bst_{kind}_{tag}", True); v = s.v; st = s.st; s.expect = []; s.kept = []; s.moved = []
        a = {"cstr": s.cstr, "view": s.view, "str": s.str}[kind](); srid, L = s.srcs[0]; cells = new_region(st, "refs", 16, align=8, kind="stack")
        p0, e0 = fresh("p0"), fresh("e0"); st.assume(AND(U(p0, e0), U(e0, st.g["avail"]), e0 & 7 == 0)); P = add(s.pos, p0)
        mem_write(st, cells.rid, 0, 8, Ptr(s.map, P)); mem_write(st, cells.rid, 8, 8, Ptr(s.map, add(s.pos, e0))); z0 = bv(read_byte(st, s.map, s.Z), 8); av0 = st.g["avail"]
        for d in v.run(st, v.fn(f"^{s.entry}$"), [Ptr(cells.rid, 0), Ptr(cells.rid, 8), Ptr(s.sink, v.off["buf"]), a]):
            t = d.st
            if d.kind != "ret": v.fail(t, "returns"); continue
            p, e = mem_read(t, cells.rid, 0, 8), mem_read(t, cells.rid, 8, 8); av = t.g["avail"]
            v.oblige(t, z3.BoolVal(isinstance(p, Ptr) and p.rid == s.map and isinstance(e, Ptr) and e.rid == s.map), "positions stay in the queue"); rel = lambda x: bv(sub(x.off, s.pos))
            v.oblige(t, AND(U(e0, rel(e)), U(rel(e), av), rel(e) & 7 == 0), "the end of space stays inside the space offered")
            v.oblige(t, IMP(z3.ULT(bv(sub(s.Z, s.pos)), p0), bv(read_byte(t, s.map, s.Z), 8) == z0), "earlier parts of the record are left alone")
            v.oblige(t, AND(eq(t.g["npub"], 0), eq(t.g["drops"], 0)), "publishes and drops nothing")
            tr = bv(d.val, 32) == 0xffffffff; need = p0 + bv(L)
            for c, nm in ((z3.Not(tr), "whole"), (tr, "truncated")):
                if not v.solver.feasible(t, c): continue
                u = t.fork(); u.assume(c); v.cover(u, nm)
                if nm == "truncated":
                    v.oblige(u, AND(rel(p) == p0, z3.UGT(need, av), OR(s.nb, av == s.cap)), "a string is truncated only if it does not fit, and then takes no space")
                else:
                    v.oblige(u, AND(z3.ZeroExt(32, bv(d.val, 32)) == bv(L), rel(p) == need, U(need, rel(e))), "the whole length is recorded and fits the space")
                    v.oblige(u, IMP(z3.ULT(bv(sub(s.Z, P)), bv(L)), bv(read_byte(u, s.map, s.Z), 8) == bv(read_byte(u, srid, sub(s.Z, P)), 8)), "every byte is copied")
        need_covers(ctx, v, ["whole", "truncated"])
    return h
for k in ("cstr", "view", "str"):
    for t in ("b", "n", "bt", "nt"): harness(f"string_table.{k}.{t}", ("C03", "C02"), cost=30)(bst(k, t))
CASES = {"none": [], "int": ["int"], "scalars": ["int", "ulong", "char"], "odd": ["odd", "char"], "wide": ["int", "wide"], "obj": ["obj", "obj"], "cstr": ["cstr"], "view": ["view"], "str": ["str"], "mstr": ["mstr"],
         "nstr": ["ncstr"], "nview": ["nview"], "two": ["cstr", "int", "str"], "views": ["view", "view"], "mix": ["obj", "view", "wide", "mstr"],
         "wobj": ["char", "wobj"], "wmix": ["wobj", "view"], "big": ["big", "char"], "mcstr": ["cstr", "big"]}
STRS = ("cstr", "view", "str", "mstr", "two", "views", "mix", "wmix", "mcstr")
for nm, kinds in CASES.items():
    for pre, lab in (("b", ""), ("n", ".nb"), ("bt", ".ts"), ("nt", ".nb.ts")):
        props = ("C02",) + (("C03", "C04") if nm in STRS else ("C04",) if nm in ("nstr", "nview") else ()) + (("C05",) if "n" in pre or nm in ("none", "int") else ())
        def h(ctx, nm=nm, kinds=kinds, pre=pre): Rec(ctx, f"vp_{pre}_{nm}").go(ctx, kinds, [0] if nm == "none" else [])
        harness(f"log.{nm}{lab}", props)(h)
