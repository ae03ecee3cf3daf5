"""Contracts of the background thread, detail::consumer (C05, C06, C11, C14, C19, C21).
The list of sinks is a vector of unbounded, changing length S known by the contracts of its methods; element i lies at vbase+48*i of one arena, and
growing the vector moves vbase to memory never used before, so a reference kept across a growth is detected.
Each sink's queue is known by the contracts proved in specs/ring.py. A record is a contract: it consumes any multiple of 8 bytes not beyond the
published ones, may add sinks, may exchange the command socket, and may close its own sink if it is the last one published."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR
UNITS = ["consumer"]
from irv import fmtmodel
T = z3.BoolVal(True); F = z3.BoolVal(False); Z = z3.BitVecVal(0, 64)
def U(a, b): return z3.ULE(bv(a), bv(b))
def LT(a, b): return z3.ULT(bv(a), bv(b))
def B(x): return z3.simplify(zb(x))
def num(st, x): return bv(addr(st, x) if isinstance(x, (Ptr, FnP)) else fresh("undef") if x is UNDEF else x)
ITE = lambda c, a, b: simp(z3.If(zb(c), a if z3.is_expr(a) and z3.is_bool(a) else bv(a), b if z3.is_expr(b) and z3.is_bool(b) else bv(b)))
REM = z3.Function("umod", BV64, BV64, BV64)
def rem_hook(ex, st, a, b):
    """a mod b as an uninterpreted function with the facts needed (lemma consumer.mod)"""
    if isinstance(a, int): a = bv(a)
    if not (isz(a) and z3.is_bv(a) and a.size() == 64 and b.size() == 64): return None
    r = REM(a, b); p = REM(a - 1, b); st.assume(IMP(b != 0, AND(LT(r, b), U(r, a), LT(p, b)))); st.assume(IMP(AND(a != 0, b != 0), r == z3.If(p + 1 == b, bv(0), p + 1))); st.assume(IMP(LT(a, b), r == a)); return r
@harness("consumer.mod", ("C21",))
def mod_lemma(ctx):
    x, s, q, r, q2, r2 = z3.Ints("x s q r q2 r2"); A = [s >= 1, x >= 1, x - 1 == q * s + r, 0 <= r, r < s, x == q2 * s + r2, 0 <= r2, r2 < s, q >= 0, q2 >= 0]
    # (q2-q)*s == r+1-r2, so q2-q is 0 or 1: three linear cases
    ctx.lemma("step of mod, quotient grows by more", z3.Not(q2 - q >= 2), A + [(q2 - q) * s == r + 1 - r2, IMP(q2 - q >= 2, (q2 - q) * s >= 2 * s)])
    ctx.lemma("step of mod, quotient shrinks", z3.Not(q2 - q <= -1), A + [(q2 - q) * s == r + 1 - r2, IMP(q2 - q <= -1, (q2 - q) * s <= -s)])
    for d in (0, 1): ctx.lemma(f"step of mod, quotient grows by {d}", r2 == z3.If(r + 1 == s, 0, r + 1), [s >= 1, 0 <= r, r < s, 0 <= r2, r2 < s, d * s == r + 1 - r2])

class Env:
    """the consumer object, its list of sinks and its output buffer"""
    def __init__(s, ctx, contracts=(), loops=None, props=None):
        s.ctx = ctx; s.props = props
        V = r"^std::vector<xtr::detail::consumer::sink_handle, std::allocator<xtr::detail::consumer::sink_handle> ?>::"
        SH = r"xtr::detail::consumer::sink_handle"
        C = [(V + r"size\(\)", s.v_size), (V + r"empty\(\)", s.v_empty), (V + r"(operator\[\]|at)\(", s.v_at), (V + r"back\(\)", s.v_back), (V + r"front\(\)", s.v_front),
             (V + r"c?begin\(\)", s.v_begin), (V + r"c?end\(\)", s.v_end), (V + r"data\(\)", s.v_begin), (V + r"pop_back\(\)", s.v_pop), (V, s.v_other),
             (r"std::swap<" + SH + r">\(", s.v_swap), (r"^void std::iter_swap<__gnu_cxx::__normal_iterator<" + SH, s.v_iswap), ("^" + SH + r"::operator=\(" + SH + r"&&\)", s.v_move), ("^" + SH + r"::(operator=|sink_handle)\(", s.v_copy),
             (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::capacity\(\)", s.q_cap), (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::read_span\(\)", s.q_read), (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::end\(\)", s.q_end), (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::begin\(\)", s.q_begin),
             (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::reduce_readable\(", s.q_reduce), (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::dropped_count\(\)", s.q_dropped), (r"^xtr::detail::synchronized_ring_buffer<\d+ul>::", s.q_other),
             (r"^xtr::detail::buffer::flush\(\)", s.b_flush)]
        s.v = v = ctx.verifier("consumer", list(contracts) + C + STR, loops); s.off = o = v.off; v.rem_hook = rem_hook
        s.st = st = State(); s.E = o["sh_size"]
        c = new_region(st, "consumer", o["co_size"], align=8); s.co = c.rid; s.this = Ptr(c.rid, 0)
        def ck(ex, st, p, n, write):
            if isinstance(p.off, int) and o["co_sinks"] <= p.off < o["co_sinks"] + 24: raise Unsupported("the list of sinks is accessed other than through vector's functions")
        st.wregion(c.rid).check = ck
        mem_write(st, c.rid, o["co_destroy"], 1, fresh("destroy0", 8)); mem_write(st, c.rid, o["co_cmds"], 8, fresh("cmds"))
        S = fresh("S"); st.assume(U(S, 1 << 32)); s.S0 = S; st.g["S"] = S; vb = fresh("vbase"); st.assume(U(vb, 1 << 40)); st.g["vbase"] = vb
        r = new_region(st, "sinks", 1 << 46, align=8, kind="heap"); s.R = r.rid; r.elem = s.E; r.shared = s.elem
        s.ob = lambda ex, st, prop, f, name: ex.oblige(st, f, name) if s.props is None or prop in s.props else st.assume(zb(f))
        st.g["vdestroy"] = F; st.g["rm"] = Z; st.g["dcv"] = Z; st.g["dc0"] = Z; st.g["vn"] = Z; st.g["dirty"] = F; st.g["flushes"] = Z
    # ------------------------------------------------------------ the vector
    def index(s, ex, st, p, whole=False):
        """(index, field) of a pointer into the elements; the element must exist"""
        if isz(p): p = resolve(st, p)
        if not isinstance(p, Ptr) or p.rid != s.R: raise Unsupported("not an element of the list of sinks")
        d = stride(sub(p.off, st.g["vbase"]), s.E)
        if d is None:
            ex.oblige(st, z3.And(U(st.g["vbase"], p.off), LT(sub(p.off, st.g["vbase"]), bv(st.g["S"]) * s.E)), "a reference to a sink's entry is not used after the list may have grown"); raise Unsupported("element offset")
        ex.oblige(st, LT(d[0], st.g["S"]), "only existing entries of the list of sinks are used"); return d
    def ptr(s, st, i, f=0): return Ptr(s.R, simp(bv(st.g["vbase"]) + bv(i) * s.E + f))
    def vec(s, ex, st, p): ex.oblige(st, num(st, p) == num(st, Ptr(s.co, s.off["co_sinks"])), "the consumer's own list of sinks is used")
    def v_size(s, ex, st, a, ins): s.vec(ex, st, a[0]); return st.g["S"]
    def v_empty(s, ex, st, a, ins): s.vec(ex, st, a[0]); return simp(bv(st.g["S"]) == 0)
    def v_at(s, ex, st, a, ins): s.vec(ex, st, a[0]); ex.oblige(st, LT(a[1], st.g["S"]), "the list of sinks is indexed within its length"); return s.ptr(st, a[1])
    def v_back(s, ex, st, a, ins): s.vec(ex, st, a[0]); ex.oblige(st, bv(st.g["S"]) != 0, "back() of a non-empty list"); return s.ptr(st, sub(st.g["S"], 1))
    def v_front(s, ex, st, a, ins): s.vec(ex, st, a[0]); ex.oblige(st, bv(st.g["S"]) != 0, "front() of a non-empty list"); return s.ptr(st, 0)
    def v_begin(s, ex, st, a, ins): s.vec(ex, st, a[0]); return s.ptr(st, 0)
    def v_end(s, ex, st, a, ins): s.vec(ex, st, a[0]); return s.ptr(st, st.g["S"])
    def v_other(s, ex, st, a, ins): raise Unsupported("vector function without contract: " + str(ins.x["callee"].v.dname if hasattr(ins.x["callee"], "v") else "")[-60:])
    def swap2(s, ex, st, i, j):
        rm = bv(st.g["rm"]); st.g["rm"] = ITE(rm == bv(i), j, ITE(rm == bv(j), i, rm)); return 0
    def v_swap(s, ex, st, a, ins):
        i, f = s.index(ex, st, a[0]); j, g = s.index(ex, st, a[1]); return s.swap2(ex, st, i, j)
    def v_iswap(s, ex, st, a, ins): return s.v_swap(ex, st, a, ins)
    def v_move(s, ex, st, a, ins):
        i, f = s.index(ex, st, a[0]); j, g = s.index(ex, st, a[1]); same = bv(i) == bv(j)
        s.ob(ex, st, "C06", OR(same, AND(st.g["vdestroy"], bv(st.g["rm"]) == bv(i))), "only the closed sink's entry is overwritten"); st.g["rm"] = ITE(same, st.g["rm"], j); return a[0]
    def v_copy(s, ex, st, a, ins):
        if isinstance(a[0], Ptr) and a[0].rid == s.R: raise Unsupported("copy of a sink's entry")
        return NotImplemented
    def v_pop(s, ex, st, a, ins):
        s.vec(ex, st, a[0]); ex.oblige(st, bv(st.g["S"]) != 0, "pop_back() of a non-empty list")
        s.ob(ex, st, "C06", AND(st.g["vdestroy"], bv(st.g["rm"]) == bv(st.g["S"]) - 1), "only the sink that was closed is removed from the list"); ex.cover(st, "removed")
        st.g["S"] = simp(bv(st.g["S"]) - 1); st.g["vdestroy"] = F; st.g["schg"] = T; st.g["K"] = st.g["S"]; st.g["idle"] = Z; st.g["closedv"] = F; return 0
    # ------------------------------------------------------------ the entries
    def sinkrid(s, ex, st, i):
        for e, rid in st.g.get("$sinks", ()):
            if simp(bv(e) == bv(i)) == 1 or ex.solver.must(st, bv(e) == bv(i)): return rid
        r = new_region(st, "sink", s.off["sk_size"], align=s.off["sk_align"]); r.tag = ("sink", i); r.shared = s.sink_access; st.g["$sinks"] = tuple(st.g.get("$sinks", ())) + ((i, r.rid),); return r.rid
    def namerid(s, ex, st, i):
        for e, rid, n in st.g.get("$names", ()):
            if simp(bv(e) == bv(i)) == 1 or ex.solver.must(st, bv(e) == bv(i)): return rid, n
        n = fresh("namelen"); st.assume(U(n, 1 << 20)); r = new_region(st, "name", simp(n + 1), align=1, arr=fresh_arr("name")); r.tag = ("name", i, n)
        mem_write(st, r.rid, n, 1, 0); st.g["$names"] = tuple(st.g.get("$names", ())) + ((i, r.rid, n),); return r.rid, n
    def elem(s, ex, st, p, n):
        i, f = s.index(ex, st, p); o = s.off
        def h(ex, st, kind, order, n, v):
            if f == o["sh_p"] and n == 8 and kind == "load": return Ptr(s.sinkrid(ex, st, i), 0)
            if f == o["sh_dropped"] and n == 8:
                if kind == "load": return ITE(bv(i) == bv(st.g["vn"]), st.g["dcv"], fresh("dropped_of_another"))
                if kind == "store": s.ob(ex, st, "C05", bv(i) == bv(st.g["vn"]), "the drop total updated is that of the sink whose drops were collected"); st.g["dcv"] = v; return
            if f == o["sh_name"] and kind == "load" and n == 8: return Ptr(s.namerid(ex, st, i)[0], 0)
            if f == o["sh_name"] + 8 and kind == "load" and n == 8: return s.namerid(ex, st, i)[1]
            raise Unsupported(f"{kind} of byte {f} of a sink's entry")
        return h
    def sink_access(s, ex, st, p, n): raise Unsupported("direct access to a sink")
    def sink_of(s, ex, st, p, what):
        """index of the sink whose queue is p"""
        if isz(p): p = resolve(st, p)
        t = st.mem[p.rid].tag if isinstance(p, Ptr) else None
        if not (t and t[0] == "sink"): raise Unsupported(f"{what}: not a sink of the list")
        i = t[1]; s.ob(ex, st, "C06", IMP(st.g["vdestroy"], bv(i) != bv(st.g["vn"])), "a sink is not touched after it was closed"); return i
    def q_cap(s, ex, st, a, ins): s.sink_of(ex, st, a[0], "capacity"); return s.off["cap"]
    def q_other(s, ex, st, a, ins): raise Unsupported("queue function without contract")
    q_read = q_end = q_begin = q_reduce = q_dropped = q_other
    def b_flush(s, ex, st, a, ins):
        ex.oblige(st, num(st, a[0]) == num(st, Ptr(s.co, s.off["co_buf"])), "flush: the consumer's own output buffer"); st.g["dirty"] = F; st.g["flushes"] = simp(bv(st.g.get("flushes", 0)) + 1); return 0

# ---------------------------------------------------------------- run
class Run(Env):
    def __init__(s, ctx, props):
        C = [(r"^xtr::detail::command_dispatcher::process_commands\(int\)", s.commands), (r"^std::function<timespec \(\)>::operator\(\)\(\) const", s.clock), (fmtmodel.VFORMAT, s.vformat),
             (r"void xtr::detail::print<.*>\(xtr::detail::buffer&, std::basic_string_view", s.prt)]
        super().__init__(ctx, C, s.loops, props); st = s.st; o = s.off; cap = o["cap"]
        q = new_region(st, "queue", 2 * cap, align=4096, kind="heap"); s.Q = q.rid; q.shared = s.qload; s.rec = Pseudo("a log record's function", s.record)
        for k, x in (("vb", Z), ("vN", Z), ("cur", Z), ("rel", Z), ("owed", Z), ("vS", Z), ("idle", Z), ("K", Z), ("turns", Z)): st.g[k] = x
        for k, x in (("justrel", F), ("mustask", F), ("printed", T), ("tsfresh", F), ("schg", T), ("served", F), ("closedv", F)): st.g[k] = x
        st.g["tsp"] = Z; st.g["vn"] = fresh("vn0")
        ctx.extra_assume += ["the closing record is the last record its sink published (proved of sink::close in specs/sinks.py: the closing thread waits for the acknowledgement)",
            "a log record's function returns the address following the record, a multiple of 8 bytes not beyond the published bytes (proved per record kind in specs/logrec.py)", "fewer than 2^62 visits (the visit counter does not wrap)",
            "a formatted timestamp has 26 characters (years 0 to 9999)", "the clock function does not throw"]
    def closed(s, ex, st, what):
        """everything a finished visit owes"""
        s.ob(ex, st, "C06", NOT(st.g["vdestroy"]), f"{what}: a closed sink was removed from the list"); s.ob(ex, st, "C06", OR(bv(st.g["cur"]) == bv(st.g["rel"])), f"{what}: exactly the bytes decoded were released")
        s.ob(ex, st, "C05", AND(st.g["printed"], bv(st.g["dcv"]) == bv(st.g["dc0"]) + bv(st.g["owed"])), f"{what}: the drops collected were reported and added to the sink's total")
        s.ob(ex, st, "C05", NOT(st.g["mustask"]), f"{what}: the drop count was collected from a drained queue")
        s.ob(ex, st, "C21", OR(NOT(st.g["dirty"]), LT(st.g["idle"], st.g["K"]), bv(st.g["S"]) == 0), f"{what}: output is flushed before every sink was found idle once")
    def q_read(s, ex, st, a, ins):
        i = s.sink_of(ex, st, a[1], "read_span"); g = st.g; vn = bv(g["vn"])
        again = AND(g["justrel"], bv(i) == vn)
        s.ob(ex, st, "C06", bv(g["cur"]) == bv(g["rel"]), "the bytes decoded are released before the queue is read again")
        if ex.mode == "real" or True:
            st2 = st.fork(); st2.assume(again); res = []
            if ex.solver.feasible(st2, T): s.fill(ex, st2, a, i, True); res.append(Ret(st2, 0))
            st.assume(NOT(again))
            if ex.solver.feasible(st, T):
                s.closed(ex, st, "next sink")
                first = bv(g["turns"]) == 0
                s.ob(ex, st, "C21", OR(first, g["schg"], bv(i) == vn + 1, AND(bv(i) == 0, z3.UGE(vn + 1, bv(g["S"])))), "sinks are visited in turn")
                newpass = OR(bv(i) == 0, first); g["tsfresh"] = B(AND(g["tsfresh"], NOT(newpass)))
                g["served"] = B(AND(g["served"], bv(i) == vn, bv(g["S"]) != 1, NOT(g["schg"]))); st.assume(LT(g["turns"], 1 << 62)); g["turns"] = simp(bv(g["turns"]) + 1); g["schg"] = F; g["vS"] = g["S"]; g["vn"] = bv(i); x = fresh("dropped_total"); g["dc0"] = x; g["dcv"] = x; g["owed"] = Z; g["printed"] = T
                s.fill(ex, st, a, i, False); res.append(Ret(st, 0))
            return res
    def fill(s, ex, st, a, i, again):
        cap = s.off["cap"]; b, n = fresh("begin"), fresh("nread"); st.assume(AND(LT(b, cap), (b & 7) == 0, U(n, cap), (n & 7) == 0))
        g = st.g; g["vb"] = b; g["vN"] = n; g["cur"] = b; g["rel"] = b; g["justrel"] = F
        g["mustask"] = B(AND(g["mustask"], n == 0)) if again else F
        if not again: g["idle"] = ITE(n == 0, bv(g["idle"]) + 1, g["idle"])
        p = ex.bounds(st, a[0], 16, "span", True); mem_write(st, p.rid, p.off, 8, Ptr(s.Q, b)); mem_write(st, p.rid, add(p.off, 8), 8, n); ex.cover(st, "read again" if again else "visited")
    def same(s, ex, st, a, what): i = s.sink_of(ex, st, a[0], what); s.ob(ex, st, "C06", bv(i) == bv(st.g["vn"]), f"{what}: the queue of the sink being visited")
    def q_end(s, ex, st, a, ins): s.same(ex, st, a, "end"); return Ptr(s.Q, s.off["cap"])
    def q_begin(s, ex, st, a, ins): s.same(ex, st, a, "begin"); return Ptr(s.Q, 0)
    def q_reduce(s, ex, st, a, ins):
        s.same(ex, st, a, "reduce_readable"); g = st.g; s.ob(ex, st, "C06", bv(a[1]) == bv(g["cur"]) - bv(g["rel"]), "exactly the bytes decoded are released"); ex.cover(st, "released")
        g["mustask"] = B(bv(g["cur"]) == bv(g["vb"]) + bv(g["vN"])); g["rel"] = g["cur"]; g["justrel"] = T; g["K"] = g["S"]; g["idle"] = Z; return 0
    def q_dropped(s, ex, st, a, ins):
        s.same(ex, st, a, "dropped_count"); g = st.g; n = fresh("n_dropped"); s.ob(ex, st, "C05", AND(g["printed"], bv(g["dcv"]) == bv(g["dc0"]) + bv(g["owed"])), "the drops collected earlier were reported"); ex.cover(st, "drops collected")
        x = g["dcv"]; g["dc0"] = x; g["mustask"] = F; g["owed"] = n; g["printed"] = B(n == 0); return n
    def qload(s, ex, st, p, n):
        def h(ex, st, kind, order, n, v):
            if kind != "load" or n != 8: raise Unsupported(f"{kind} of {n} bytes of a queue by the consumer")
            g = st.g; s.ob(ex, st, "C06", bv(p.off) == bv(g["cur"]), "records are decoded one after another from the oldest"); s.ob(ex, st, "C06", LT(p.off, bv(g["vb"]) + bv(g["vN"])), "only published records are decoded")
            s.ob(ex, st, "C06", LT(p.off, s.off["cap"]), "a record is decoded at the address it was written to"); return FnP(s.rec)
        return h
    def record(s, ex, st, a, ins):
        g = st.g; o = s.off
        s.ob(ex, st, "C06", num(st, a[0]) == num(st, Ptr(s.co, o["co_buf"])), "a record prints to the consumer's buffer"); s.ob(ex, st, "C06", num(st, a[2]) == num(st, s.this), "a record is given the consumer")
        s.ob(ex, st, "C06", num(st, a[1]) == num(st, Ptr(s.Q, g["cur"])), "a record is given its own address"); s.ob(ex, st, "C06", NOT(g["vdestroy"]), "no record is processed after its sink was closed")
        i, f = s.index(ex, st, a[4]); s.ob(ex, st, "C06", AND(bv(i) == bv(g["vn"]), z3.BoolVal(f == o["sh_name"])), "a record is given the name of its own sink")
        s.ob(ex, st, "C21", OR(NOT(g["served"]), bv(g["cur"]) != bv(g["vb"])), "no sink is served twice before the others have their turn")
        tp = a[3] if isinstance(a[3], Ptr) else ex.bounds(st, a[3], 1, "timestamp", False)
        s.ob(ex, st, "C19", g["tsfresh"], "a record's timestamp is the clock reading of the current pass over the sinks"); s.ob(ex, st, "C19", num(st, tp) == bv(g["tsp"]), "a record is given the timestamp text"); s.ob(ex, st, "C19", bv(read_byte(st, tp.rid, add(tp.off, 26)), 8) == 0, "the timestamp is terminated")
        ex.cover(st, "record processed")
        n = fresh("reclen"); end = bv(g["vb"]) + bv(g["vN"]); cur = bv(g["cur"]); st.assume(AND(n != 0, (n & 7) == 0, U(n, end - cur))); g["cur"] = simp(cur + n); g["served"] = T; g["dirty"] = T
        mem_write(st, s.co, o["co_cmds"], 8, fresh("cmds"))
        c = st.fork(); add_ = fresh("added"); S = bv(g["S"]); st.assume(U(add_, 1 << 20)); S2 = simp(S + add_); st.assume(U(S2, 1 << 33)); g["S"] = S2; nb = fresh("vbase"); st.assume(AND(U(nb, 1 << 45), IMP(add_ == 0, nb == bv(g["vbase"])), IMP(add_ != 0, z3.UGE(nb, bv(g["vbase"]) + S * s.E)))); g["vbase"] = nb
        g["schg"] = B(OR(g["schg"], add_ != 0)); out = [Ret(st, Ptr(s.Q, st.g["cur"]))]
        c.assume(bv(c.g["cur"]) == end); mem_write(c, s.co, o["co_destroy"], 1, 1); c.g["vdestroy"] = T; c.g["rm"] = c.g["vn"]; c.g["rel"] = c.g["cur"]; ex.cover(c, "sink closed")
        return out + [Ret(c, Ptr(s.Q, c.g["cur"]))]
    def commands(s, ex, st, a, ins):
        s.ob(ex, st, "C06", AND(NOT(st.g["vdestroy"]), num(st, a[0]) != 0), "commands are processed while every listed sink exists"); ex.cover(st, "commands processed"); return 0
    def clock(s, ex, st, a, ins):
        x, y = fresh("sec"), fresh("nsec"); st.g["$clk"] = (x, y); return [x, y]
    def vformat(s, ex, st, a, ins):
        out, tp, tl, desc, vals = fmtmodel.sv_args(a)
        if not isinstance(out, Ptr): raise Unsupported("vformat_to destination")
        args = fmtmodel.decode(ex, st, desc, vals); txt = fmtmodel.text(ex, st, tp, tl); clk = st.g.get("$clk")
        ok = len(args) == 1 and args[0][0] == "custom" and txt == b"{}" and clk is not None
        if ok:
            p = args[0][1][0]; ok = AND(num(st, mem_read(st, p.rid, p.off, 8)) == clk[0], num(st, mem_read(st, p.rid, add(p.off, 8), 8)) == clk[1])
        s.ob(ex, st, "C19", ok, "the timestamp text is that of the clock reading"); ex.bounds(st, out, 26, "timestamp text", True)
        for k in range(26): c = fresh("tschar", 8); mem_write(st, out.rid, add(out.off, k), 1, c)
        st.g["tsfresh"] = T; st.g["tsp"] = num(st, out); ex.cover(st, "timestamp formatted"); return Ptr(out.rid, add(out.off, 26))
    def prt(s, ex, st, a, ins):
        g = st.g; o = s.off; ex.cover(st, "drops reported")
        s.ob(ex, st, "C05", num(st, a[0]) == num(st, Ptr(s.co, o["co_buf"])), "drops are reported in the log"); rest = a[1:]; p, n = (rest[0], rest[1]) if isinstance(rest[0], Ptr) or (isz(rest[0]) and isinstance(resolve(st, rest[0]), Ptr)) else (rest[1], rest[0])
        txt = fmtmodel.text(ex, st, p, n); s.ob(ex, st, "C05", z3.BoolVal(txt == b"{}{} {}: {} messages dropped\n"), "the report names the sink and the number"); s.ob(ex, st, "C05", bv(a[3], 32) == o["lv_warning"], "drops are reported as a warning")
        i, f = s.index(ex, st, a[5]); s.ob(ex, st, "C05", AND(bv(i) == bv(g["vn"]), z3.BoolVal(f == o["sh_name"])), "the sink named is the one that dropped")
        q = ex.bounds(st, a[6], 8, "print argument", False); s.ob(ex, st, "C05", AND(num(st, mem_read(st, q.rid, q.off, 8)) == bv(g["owed"]), bv(g["owed"]) != 0, NOT(g["printed"])), "the number reported is the number collected, once")
        tp = a[4]; s.ob(ex, st, "C19", num(st, tp) == bv(g["tsp"]), "the report's timestamp is the current one")
        g["printed"] = T; g["dirty"] = T; g["K"] = g["S"]; g["idle"] = Z; return 0
    def loops(s, ex, st, f):
        g = lambda k: (lambda q: q.g[k]); I = []; d = len(st.frames) - 1
        I += [("S bounded", lambda ex, q: U(q.g["S"], 1 << 33)), ("vbase bounded", lambda ex, q: U(q.g["vbase"], 1 << 45)), ("released", lambda ex, q: bv(q.g["cur"]) == bv(q.g["rel"])), ("not closing", lambda ex, q: NOT(q.g["vdestroy"])),
              ("drops settled", lambda ex, q: AND(q.g["printed"], bv(q.g["dcv"]) == bv(q.g["dc0"]) + bv(q.g["owed"]))), ("flush in time", lambda ex, q: OR(NOT(q.g["dirty"]), LT(q.g["idle"], q.g["K"]), bv(q.g["S"]) == 0)),
              ("visited exists", lambda ex, q: LT(q.g["vn"], q.g["S"])), ("visited exists 2", lambda ex, q: OR(bv(q.g["turns"]) == 0, q.g["schg"], LT(q.g["vn"], q.g["S"]))), ("decoded within published", lambda ex, q: AND(U(q.g["vb"], q.g["cur"]), U(bv(q.g["cur"]) - bv(q.g["vb"]), q.g["vN"]))),
              ("closing record is last", lambda ex, q: IMP(q.g["vdestroy"], bv(q.g["cur"]) == bv(q.g["vb"]) + bv(q.g["vN"]))), ("destroy flag means closed", lambda ex, q: IMP(bv(mem_read(q, s.co, s.off["co_destroy"], 1), 8) != 0, q.g["vdestroy"])), ("closed means destroy flag", lambda ex, q: IMP(q.g["vdestroy"], bv(mem_read(q, s.co, s.off["co_destroy"], 1), 8) == 1)),
              ("closing released", lambda ex, q: IMP(q.g["vdestroy"], AND(q.g["rel"] == q.g["cur"], bv(q.g["rm"]) == bv(q.g["vn"])))), ("rel is begin", lambda ex, q: OR(q.g["vdestroy"], bv(q.g["rel"]) == bv(q.g["vb"]))),
              ("first not done", lambda ex, q: bv(q.g["turns"]) != 0), ("not served", lambda ex, q: OR(NOT(q.g["served"]), bv(q.g["cur"]) != bv(q.g["vb"]))), ("cur aligned", lambda ex, q: (bv(q.g["cur"]) & 7) == 0), ("output pending", lambda ex, q: q.g["dirty"]), ("begin in first copy", lambda ex, q: LT(q.g["vb"], s.off["cap"])), ("length as visited", lambda ex, q: OR(q.g["schg"], bv(q.g["S"]) == bv(q.g["vS"]))), ("nothing served before the first visit", lambda ex, q: OR(bv(q.g["turns"]) != 0, NOT(q.g["served"]))), ("drop count collected", lambda ex, q: NOT(q.g["mustask"])), ("cur before end", lambda ex, q: LT(q.g["cur"], bv(q.g["vb"]) + bv(q.g["vN"]))), ("cur before cap", lambda ex, q: LT(q.g["cur"], s.off["cap"])), ("read count", lambda ex, q: U(q.g["vN"], s.off["cap"]))]
        vs = [(f"phi{p.id}", (lambda q, i=p.id: q.frames[d].regs[i])) for p in f.bb.phis]
        for fm in st.frames:
            for r in fm.allocas:
                for off, (n, x) in list(st.mem[r].cells.items()):
                    if (n == 8 or (n == 1 and len(st.mem[r].cells) == 1)) and not isinstance(x, Ptr) and st.mem[r].size <= 8: vs.append((f"{st.mem[r].name}+{off}", (lambda q, r=r, off=off, n=n: mem_read(q, r, off, n))))
                    if n == 1 and off == 26: I.append(("terminated " + st.mem[r].name, lambda ex, q, r=r: bv(mem_read(q, r, 26, 1), 8) == 0))
                if isinstance(st.mem[r].size, int) and st.mem[r].size >= 27: I.append(("tsp " + str(r), lambda ex, q, r=r: OR(NOT(q.g["tsfresh"]), bv(q.g["tsp"]) == num(q, Ptr(r, 0)))))
        for nm, get in vs:
            x = get(st)
            def w(get, bits, fn):
                def c(ex, q):
                    x = get(q)
                    if isinstance(x, Ptr) or x is UNDEF: return None
                    if isinstance(x, int): x = z3.BitVecVal(x, bits) if bits > 1 else z3.BoolVal(bool(x))
                    if not isz(x): return None
                    if z3.is_bool(x): x = x if bits == 1 else None
                    elif x.size() != bits: x = None
                    return None if x is None else fn(q, x)
                return c
            if isinstance(x, Ptr):
                I.append((f"{nm} is cur", lambda ex, q, get=get: (bv(get(q).off) == bv(q.g["cur"])) if isinstance(get(q), Ptr) and get(q).rid == s.Q else None)); continue
            I += [(f"{nm}==K-idle", w(get, 64, lambda q, x: IMP(zb(q.g["dirty"]), x == bv(q.g["K"]) - bv(q.g["idle"])))), (f"{nm}==idle", w(get, 64, lambda q, x: x == bv(q.g["idle"]))), (f"{nm} if pending", w(get, 64, lambda q, x: IMP(zb(q.g["dirty"]), x != 0))),
                  (f"{nm}: visited", w(get, 64, lambda q, x: OR(bv(q.g["turns"]) == 0, q.g["schg"], AND(bv(q.g["vn"]) == REM(x - 1, bv(q.g["S"])), x != 0)))), (f"{nm}: next", w(get, 64, lambda q, x: OR(bv(q.g["turns"]) == 0, q.g["schg"], x == bv(q.g["vn"]) + 1, AND(x == 0, z3.UGE(bv(q.g["vn"]) + 1, bv(q.g["S"])))))), (f"{nm}==turns", w(get, 64, lambda q, x: x == bv(q.g["turns"]))), (f"{nm}==vn", w(get, 64, lambda q, x: x == bv(q.g["vn"])))]
            I += [(f"{nm} is a flag", w(get, 8, lambda q, x: z3.ULE(x, 1)))]
            for b in (8, 1):
                z = (lambda x: (x & 1) == 0) if b == 8 else (lambda x: z3.Not(x))
                I += [(f"{nm} clear {b}: timestamp", w(get, b, lambda q, x, z=z: IMP(z(x), zb(q.g["tsfresh"])))), (f"{nm} set {b}: timestamp", w(get, b, lambda q, x, z=z: IMP(z3.Not(z(x)), zb(q.g["tsfresh"]))))]
                I += [(f"{nm} clear {b}: timestamp 2", w(get, b, lambda q, x, z=z: IMP(z(x), AND(q.g["tsfresh"], bv(q.g["turns"]) != 0))))]
        return LoopSpec(invs=I, auto=False)
def run_harness_(prop, cost):
    @harness(f"consumer.run.{prop}", (prop,), cost=cost)
    def h(ctx):
        s = Run(ctx, {prop}); v = s.v; st = s.st; fn = new_region(st, "clock", 32, align=8)
        for d in v.run(st, v.fn("^vp_co_run$"), [s.this, Ptr(fn.rid, 0)]):
            if d.kind != "ret": v.fail(d.st, "the background thread ends by returning"); continue
            v.cover(d.st, "ended"); s.ob(v, d.st, "C06", bv(d.st.g["S"]) == 0, "the background thread ends only when no sink remains"); s.closed(v, d.st, "end")
        need_covers(ctx, v, ["ended", "visited", "record processed", "sink closed", "removed", "released", "drops collected", "drops reported", "commands processed", "timestamp formatted", "read again"])
for p, c in (("C05", 90), ("C06", 90), ("C19", 90), ("C21", 90)): run_harness_(p, c)
