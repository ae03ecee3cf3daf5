"""C22: containers, pairs and tuples.
Monitor for the text produced through fmt::format_to: k parts written so far and the position inside the literal that follows part k.
Assumed: fmt::vformat_to appends the literal text and, for each {}, the formatting of the argument it is given."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv import fmtmodel
UNITS = ["formatters"]
def tokens(t):
    """format text -> literal bytes (ints) and argument indices (str)"""
    out = []; i = 0; nxt = 0; t = t.decode("latin1")
    while i < len(t):
        if t[i:i + 2] in ("{{", "}}"): out.append(ord(t[i])); i += 2
        elif t[i] == "{":
            m = re.match(r"\{(\d*)\}", t[i:])
            if not m: raise Unsupported("format specification")
            out.append(str(int(m[1]) if m[1] else nxt)); nxt += 1; i += len(m[0])
        elif t[i] == "}": raise Unsupported("format text")
        else: out.append(ord(t[i])); i += 1
    return out
def lit0(ex, st, p):
    for n in range(64):
        if fmtmodel.text(ex, st, Ptr(p.rid, add(p.off, n)), 1) == b"\0": return fmtmodel.text(ex, st, p, n)
    raise Unsupported("literal text")
class Mon:
    """parts: for each part of an entry, (kind, offset, width or class).  n entries of `stride` bytes at region rid"""
    def __init__(s, v, st, open_, close, parts, n, rid, stride):
        s.v = v; s.o, s.c = open_, close; s.parts = parts; s.n = n; s.rid = rid; s.stride = stride; s.m = len(parts)
        st.g.update({"o.k": z3.BitVecVal(0, 64), "o.p": z3.BitVecVal(0, 64), "o.ph": z3.BitVecVal(0, 64)})
        s.ctx = new_region(st, "context", v.off["ctx"], align=8).rid; s.out = new_region(st, "output", 64, align=8).rid; mem_write(st, s.ctx, 0, 8, Ptr(s.out, 0))
    def lit(s, k, p, ph):
        """the literal character expected next; 0 if none"""
        I = lambda c, a, b: z3.If(c, a, b); C = lambda x: z3.BitVecVal(ord(x) if isinstance(x, str) else x, 8); n = bv(s.n)
        at = lambda t: I(ph == 0, C(t[0]), I(ph == 1, C(t[1]), C(0)) if len(t) > 1 else C(0))
        return I(p != 0, at(": "), I(k == 0, I(ph == 0, C(s.o), I(AND(ph == 1, n == 0), C(s.c), C(0))), I(k == n, at(s.c), at(", "))))
    def parts_at(s, st): return s.parts
    def ready(s, k, p, ph): return AND(z3.ULT(k, bv(s.n)), ph == z3.If(p != 0, z3.BitVecVal(2, 64), z3.If(k == 0, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64))))
    def h(s, ex, st, a, ins):
        out, tp, tn, desc, vals = fmtmodel.sv_args(a); args = fmtmodel.decode(ex, st, desc, vals); out = resolve(st, out) if isz(out) else out
        ex.oblige(st, z3.BoolVal(isinstance(out, Ptr) and out.rid == s.out), "written to the context's output")
        todo = tokens(fmtmodel.text(ex, st, tp, tn))
        while todo:
            t = todo.pop(0)
            if isinstance(t, str) and int(t) < len(args) and args[int(t)][0] in ("cstring", "string") and all(w[0] not in ("cstring", "string") for w in s.parts):
                ty, x = args[int(t)]; q, n = (x, None) if ty == "cstring" else x; q = resolve(st, q) if isz(q) else q; todo[:0] = list(fmtmodel.text(ex, st, q, n) if n is not None else lit0(ex, st, q)); continue      # literal text passed as an argument
            k, p, ph = (bv(st.g[x]) for x in ("o.k", "o.p", "o.ph"))
            if isinstance(t, int):
                ex.oblige(st, s.lit(k, p, ph) == t, "output: each literal character is the documented delimiter at its place"); st.g["o.ph"] = bv(simp(ph + 1)); continue
            ex.oblige(st, s.ready(k, p, ph), "output: an element follows its delimiter")
            if int(t) >= len(args): ex.fail(st, "a format argument for every field"); continue
            ty, x = args[int(t)]
            for q, (kind, off, w) in enumerate(s.parts_at(st)):
                c = p == q
                if not ex.solver.feasible(st, c): continue
                o = (s.rid, simp(k * s.stride + off))
                if kind == "custom":
                    ok = ty == "custom" and isinstance(x[0], Ptr) and isinstance(x[1], FnP) and w in x[1].fn.dname and x[0].rid == o[0]
                    ex.oblige(st, IMP(c, AND(z3.BoolVal(ok), eq(x[0].off, o[1]) if ok else z3.BoolVal(False))), "output: each element in order, formatted as its own type")
                else:
                    ok = ty == kind; ex.oblige(st, IMP(c, AND(z3.BoolVal(ok), eq(x, mem_read(st, o[0], o[1], w), 8 * w) if ok else z3.BoolVal(False))), "output: each element in order, formatted as its own type")
            last = p + 1 == s.m; st.g["o.k"] = bv(simp(z3.If(last, k + 1, k))); st.g["o.p"] = bv(simp(z3.If(last, z3.BitVecVal(0, 64), p + 1))); st.g["o.ph"] = z3.BitVecVal(0, 64); ex.cover(st, "element")
        return out
    def done(s, st): return AND(st.g["o.k"] == bv(s.n), st.g["o.p"] == 0, st.g["o.ph"] == z3.If(bv(s.n) == 0, z3.BitVecVal(2, 64), z3.BitVecVal(1, 64)))
def loops(b):
    def f(ex, st, fr):
        m = b["m"]; inv = [("between entries", lambda ex, x: x.g["o.p"] == 0), ("after an element", lambda ex, x: x.g["o.ph"] == 0), ("ready for the next delimiter", lambda ex, x: x.g["o.ph"] == z3.If(x.g["o.k"] == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))),
               ("progress within the container", lambda ex, x: z3.ULE(x.g["o.k"], bv(m.n))), ("something was written", lambda ex, x: x.g["o.k"] != 0), ("ready for an element", lambda ex, x: x.g["o.ph"] == z3.If(x.g["o.k"] == 0, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64)))]
        d = len(st.frames) - 1
        def slot(get, lag):
            def c(ex, x):
                y = get(x); y = resolve(x, y) if isz(y) and z3.is_bv(y) and y.size() == 64 else y
                if isinstance(y, Ptr): return bv(y.off) == (x.g["o.k"] - lag) * m.stride if y.rid == m.rid else None
                if isinstance(y, int): return bv(y) == x.g["o.k"] - lag
                return y == x.g["o.k"] - lag if isz(y) and z3.is_bv(y) and y.size() == 64 else None
            return c
        for lag in (0, 1):
            for p in fr.bb.phis: inv.append((f"position phi{p.id} lag {lag}", slot(lambda x, i=p.id: x.frames[d].regs[i], lag)))
            for fm in st.frames:
                for r in fm.allocas:
                    for off, (n, v) in list(st.mem[r].cells.items()):
                        if n == 8: inv.append((f"position {st.mem[r].name}+{off} lag {lag}", slot(lambda x, r=r, off=off: mem_read(x, r, off, 8), lag)))
        return LoopSpec(invs=inv)
    return f
def run(ctx, name, build):
    b = {}; v = ctx.verifier("formatters", [(fmtmodel.VFORMAT, lambda ex, st, a, i: b["m"].h(ex, st, a, i))], loops(b)); st = State()
    arg = build(v, st, b); m = b["m"]
    for d in v.run(st, v.fn(f"^vp_f_{name}$"), [arg, Ptr(m.ctx, 0)]):
        if d.kind != "ret": v.fail(d.st, "formatting returns"); continue
        v.cover(d.st, "formatted"); v.oblige(d.st, m.done(d.st), "output: everything is written")
        r = resolve(d.st, d.val) if isz(d.val) else d.val; v.oblige(d.st, z3.BoolVal(isinstance(r, Ptr) and r.rid == m.out), "the output position is returned")
    need_covers(ctx, v, ["formatted", "element"])
def seq(name, oc, parts, stride, n=None):
    @harness("container." + name, ("C22",))
    def h(ctx):
        def build(v, st, b):
            N = n
            if N is None: N = fresh("n"); st.assume(z3.ULE(N, z3.BitVecVal(1 << 32, 64)))
            sz = simp(bv(N) * stride); data = new_region(st, "elements", sz, align=16, arr=fresh_arr("elements")).rid
            if n is None:
                vec = new_region(st, "vector", 24, align=8).rid
                for k, o in enumerate((0, sz, sz)): mem_write(st, vec, 8 * k, 8, Ptr(data, o))
            else: vec = data
            b["m"] = Mon(v, st, oc[0], oc[1], parts, N, data, stride); return Ptr(vec, 0)
        run(ctx, name, build)
def tup(name, kinds):
    @harness("tuple." + name, ("C22",))
    def h(ctx):
        def build(v, st, b):
            r = new_region(st, "tuple", v.off[name], align=16, arr=fresh_arr("tuple")).rid; offs = []
            for i in range(len(kinds)):
                ds = list(v.run(st.fork(), v.fn(f"^vp_get_{name}_{i}$"), [Ptr(r, 0)])); assert len(ds) == 1 and isinstance(ds[0].val, Ptr); offs.append(ds[0].val.off)
            class T(Mon):       # one entry per part; the parts differ in type
                def parts_at(s, q):
                    k = simp(q.g["o.k"])
                    if not isinstance(k, int): raise Unsupported("loop over a tuple")
                    k = min(k, len(kinds) - 1); return [(kinds[k][0], offs[k], kinds[k][1])]
            b["m"] = T(v, st, "(", ")", [kinds[0]], len(kinds), r, 0); return Ptr(r, 0)
        run(ctx, name, build)
seq("vec_int", "[]", [("int", 0, 4)], 4)
seq("vec_elem", "[]", [("custom", 0, "vp_elem")], 16)
seq("vec_pair", "[]", [("custom", 0, "std::pair<int, long>")], 16)
seq("arr3", "[]", [("int", 0, 4)], 4, 3)
seq("arr1", "[]", [("custom", 0, "vp_elem")], 16, 1)
seq("map_int", "{}", [("int", 0, 4), ("long", 8, 8)], 16)
seq("map_elem", "{}", [("custom", 0, "vp_elem"), ("custom", 16, "vp_elem")], 32)
I, L, E = ("int", 4), ("long", 8), ("custom", "vp_elem")
tup("pair", [I, L]); tup("pair_elem", [E, I]); tup("tuple1", [L]); tup("tuple3", [I, E, L]); tup("tuple5", [I] * 5)
