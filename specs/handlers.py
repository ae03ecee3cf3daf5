"""Contracts of the command handlers of detail::consumer and of the matchers (C06, C11, C14).
The list of sinks is that of specs/consumer.py. For every sink i: MATCH(i) whether the matcher accepts its name, LEVEL(i), USED(i), DROPPED(i) its state.
An arbitrary sink K stands for all of them."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, new_string, data_region, get as str_get
from irv.stdlib import EXC_TYPES
from .consumer import Env, U, LT, B, num, ITE, T, F, Z
from irv import fmtmodel
UNITS = ["consumer", "matcher"]
MATCH = z3.Function("MATCH", BV64, z3.BoolSort()); LEVEL = z3.Function("LEVEL", BV64, z3.BitVecSort(32)); USED = z3.Function("USED", BV64, BV64); DROPPED = z3.Function("DROPPED", BV64, BV64)

class Handler(Env):
    def __init__(s, ctx):
        C = [(r"^xtr::detail::make_matcher\(", s.make), (r"^vp_mt_valid$", s.m_valid), (r"^vp_mt_call$", s.m_call), (r"^vp_mt_reason$", s.m_reason), (r"^vp_mt_dtor$", s.m_dtor), (r"^operator delete\(", s.m_delete),
             (r"^xtr::detail::command_dispatcher::send\(int, void const\*, unsigned long\)", s.send), (r"^xtr::detail::command_dispatcher::send_error\(", s.send_error)]
        super().__init__(ctx, C, s.loops); st = s.st; v = s.v; o = s.off
        s.fd = fresh("fd", 32); s.K = fresh("K"); s.j = fresh("j"); st.assume(LT(s.K, s.S0)); st.assume(LT(s.j, o["si_namelen"]))
        for k, x in (("setK", F), ("infoK", Z), ("succ", Z), ("errs", Z), ("made", F), ("dead", F), ("nset", F), ("iL", Z), ("read", F), ("filled", F)): st.g[k] = x
        s.cm = new_region(st, "dispatcher", 8, align=8).rid; mem_write(st, s.co, o["co_cmds"], 8, Ptr(s.cm, 0)); s.valid = fresh("valid", 8)
    def request(s, kind):
        o = s.off; st = s.st; n = o["sl_size"] if kind == "level" else o["st_size"]; r = new_region(st, "request", n, align=4, arr=fresh_arr("request")); s.rq = r.rid; s.pt = o["sl_pattern"] if kind == "level" else o["st_pattern"]
        s.level = bv(mem_read(st, r.rid, o["sl_level"], 4), 32) if kind == "level" else None
        s.type = bv(mem_read(st, r.rid, s.pt + o["pt_type"], 4), 32); s.ic = bv(mem_read(st, r.rid, s.pt + o["pt_ic"], 1), 8); return Ptr(r.rid, 0)
    # matcher
    def make(s, ex, st, a, ins):
        o = s.off; tp = Ptr(s.rq, s.pt + o["pt_text"]); ex.cover(st, "matcher made")
        ex.oblige(st, NOT(st.g["made"]), "one matcher per request"); ex.oblige(st, bv(a[1], 32) == s.type, "the matcher is of the requested type"); ex.oblige(st, num(st, a[2]) == num(st, tp), "the matcher is made from the request's pattern")
        ic = a[3]; ic = zb(ic) if (isz(ic) and z3.is_bool(ic)) or isinstance(ic, int) else ic != 0
        ex.oblige(st, ic == (s.ic != 0), "the matcher ignores case if and only if the request says so")
        ex.oblige(st, bv(read_byte(st, s.rq, s.pt + o["pt_text"] + o["pt_textlen"] - 1), 8) == 0, "the pattern is terminated before it is used")
        m = new_region(st, "matcher", 8, align=8, kind="heap"); mem_write(st, m.rid, 0, 8, Ptr(s.v.global_region(st, "_ZTV10vp_matcher"), 16)); st.g["$m"] = m.rid; st.g["made"] = T
        p = ex.bounds(st, a[0], 8, "matcher pointer", True); mem_write(st, p.rid, p.off, 8, Ptr(m.rid, 0)); return 0
    def mt(s, ex, st, p): ex.oblige(st, AND(num(st, p) == num(st, Ptr(st.g["$m"], 0)), NOT(st.g["dead"])), "the matcher used is the one made and is alive")
    def m_valid(s, ex, st, a, ins): s.mt(ex, st, a[0]); return simp(s.valid != 0)
    def m_call(s, ex, st, a, ins):
        s.mt(ex, st, a[0]); ex.oblige(st, s.valid != 0, "an invalid pattern is not matched"); p = a[1] if isinstance(a[1], Ptr) else resolve(st, a[1]); t = st.mem[p.rid].tag if isinstance(p, Ptr) else None
        if not (t and t[0] == "name"): raise Unsupported("a name matched is not that of a listed sink")
        ex.oblige(st, eq(p.off, 0), "the whole name is matched"); return simp(MATCH(bv(t[1])))
    def m_reason(s, ex, st, a, ins):
        s.mt(ex, st, a[0]); ex.oblige(st, s.valid == 0, "the reason is asked of an invalid pattern"); p = ex.bounds(st, a[1], a[2], "error reason", True); ex.oblige(st, bv(a[2]) != 0, "the reason has room for its terminator")
        mem_havoc(st, p.rid, p.off, a[2]); st.g["filled"] = T; st.g["$reason"] = (p.rid, p.off); return 0
    def m_dtor(s, ex, st, a, ins): s.mt(ex, st, a[0]); return 0
    def m_delete(s, ex, st, a, ins):
        if isinstance(a[0], Ptr) and a[0].rid == st.g.get("$m"): s.mt(ex, st, a[0]); st.g["dead"] = T; st.wregion(a[0].rid).live = False; return 0
        return NotImplemented
    # sinks
    def sink_access(s, ex, st, p, n):
        i = st.mem[p.rid].tag[1]; o = s.off
        if not (isinstance(p.off, int) and p.off == o["sk_level"] and n == o["level_size"]): raise Unsupported("access to a part of a sink without contract")
        def h(ex, st, kind, order, n, v):
            if kind == "load": st.g["iL"] = bv(i); st.g["read"] = T; return LEVEL(bv(i))
            if kind != "store": raise Unsupported(kind)
            ex.cover(st, "level set"); ex.oblige(st, AND(MATCH(bv(i)), bv(i) != 0, st.g["made"], s.valid != 0), "only sinks whose name matches are changed"); ex.oblige(st, bv(v, 32) == s.level, "the level set is the one requested")
            st.g["setK"] = B(OR(st.g["setK"], bv(i) == s.K)); st.g["nset"] = T
        return h
    def elem(s, ex, st, p, n):
        i, f = s.index(ex, st, p); b = super().elem(ex, st, p, n)
        def h(ex, st, kind, order, n, v):
            if f == s.off["sh_dropped"] and n == 8 and kind == "load": return DROPPED(bv(i))
            if kind != "load": ex.fail(st, "a command does not change the list of sinks"); return
            return b(ex, st, kind, order, n, v)
        return h
    def q_read(s, ex, st, a, ins):
        i = s.sink_of(ex, st, a[1], "read_span"); p = ex.bounds(st, a[0], 16, "span", True); mem_write(st, p.rid, p.off, 8, fresh("begin")); mem_write(st, p.rid, add(p.off, 8), 8, USED(bv(i))); return 0
    def changes(s, ex, st, a, ins): ex.fail(st, "a command does not change the list of sinks"); return Stop(st, "list changed")
    v_pop = v_swap = v_move = v_iswap = changes
    # replies
    def send(s, ex, st, a, ins):
        o = s.off; ex.oblige(st, AND(num(st, a[0]) == num(st, Ptr(s.cm, 0)), bv(a[1], 32) == s.fd), "the reply goes to the client that sent the request"); p = ex.bounds(st, a[2], a[3], "reply", False)
        fid = mem_read(st, p.rid, p.off, 4)
        if not isinstance(fid, int): raise Unsupported("reply of unknown kind")
        pay = add(p.off, o["fr_payload"] if fid == o["id_info"] else 4)
        if fid == o["id_success"]: ex.oblige(st, NOT(ITE(st.g["made"], s.valid == 0, T)), "success is reported only after a valid request"); st.g["succ"] = simp(bv(st.g["succ"]) + 1); ex.cover(st, "success")
        elif fid == o["id_error"]:
            ex.oblige(st, OR(NOT(st.g["made"]), s.valid == 0), "an error is reported only for an invalid request"); st.g["errs"] = simp(bv(st.g["errs"]) + 1); r = st.g.get("$reason"); ex.oblige(st, z3.BoolVal(bool(r and r[0] == p.rid and simp(eq(r[1], add(p.off, 4 + o["er_reason"]))) == 1)), "the error carries the matcher's reason"); ex.cover(st, "error")
        elif fid == o["id_info"]:
            i = bv(st.g["iL"]); ex.cover(st, "info"); ex.oblige(st, AND(st.g["read"], MATCH(i), i != 0, s.valid != 0), "only sinks whose name matches are reported"); ex.oblige(st, eq(a[3], o["si_size"]), "the whole reply is sent")
            rd = lambda k, n: bv(mem_read(st, p.rid, add(pay, o[k]), n), 8 * n)
            ex.oblige(st, rd("si_level", o["level_size"]) == LEVEL(i), "status reports the sink's level"); ex.oblige(st, rd("si_cap", 8) == o["cap"], "status reports the capacity"); ex.oblige(st, rd("si_n", 8) == USED(i), "status reports the bytes in use")
            ex.oblige(st, rd("si_dropped", 8) == DROPPED(i), "status reports the sink's drop total")
            rid, n = s.namerid(ex, st, st.g["iL"]); m = z3.If(z3.ULE(n, o["si_namelen"] - 1), n, bv(o["si_namelen"] - 1)); c = bv(read_byte(st, p.rid, add(add(pay, o["si_name"]), s.j)), 8)
            ex.oblige(st, AND(IMP(LT(s.j, m), c == bv(read_byte(st, rid, s.j), 8)), IMP(s.j == m, c == 0)), "status reports the sink's name, cut to fit and terminated")
            st.g["infoK"] = simp(bv(st.g["infoK"]) + z3.If(i == s.K, bv(1), bv(0))); st.g["read"] = F
        else: ex.fail(st, "a reply of a known kind is sent")
        return 0
    def send_error(s, ex, st, a, ins):
        ex.oblige(st, AND(num(st, a[0]) == num(st, Ptr(s.cm, 0)), bv(a[1], 32) == s.fd), "the error goes to the client that sent the request"); st.g["errs"] = simp(bv(st.g["errs"]) + 1); st.g["$errtxt"] = (a[2], a[3]); ex.cover(st, "error"); return 0
    def loops(s, ex, st, f):
        I = []; d = len(st.frames) - 1; K = s.K
        want = lambda q: AND(K != 0, MATCH(K)); got = [("set", lambda q: zb(q.g["setK"])), ("info", lambda q: bv(q.g["infoK"]) == 1)]; none = [("set", lambda q: NOT(q.g["setK"])), ("info", lambda q: bv(q.g["infoK"]) == 0)]
        I += [("S fixed", lambda ex, q: bv(q.g["S"]) == s.S0), ("nothing set", lambda ex, q: NOT(q.g["setK"])), ("nothing reported", lambda ex, q: bv(q.g["infoK"]) == 0), ("no error", lambda ex, q: bv(q.g["errs"]) == 0), ("no success", lambda ex, q: bv(q.g["succ"]) == 0), ("alive", lambda ex, q: NOT(q.g["dead"])), ("one or none", lambda ex, q: U(q.g["infoK"], 1))]
        def idx(q, x):
            if isinstance(x, int): return bv(x)
            if isz(x) and z3.is_bv(x) and x.size() == 64: return x
            if isinstance(x, Ptr) and x.rid == s.R:
                e = stride(sub(x.off, q.g["vbase"]), s.E); return bv(e[0]) if e else None
            return None
        slots = [(f"phi{p.id}", lambda q, i=p.id: q.frames[d].regs[i]) for p in f.bb.phis]
        for fr in st.frames:        # iterators and counters kept in memory
            for r in fr.allocas:
                if isinstance(st.mem[r].size, int) and st.mem[r].size <= 8:
                    slots += [(f"{st.mem[r].name}.{r}", lambda q, r=r: mem_read(q, r, 0, 8)) for o, (n, x) in list(st.mem[r].cells.items()) if o == 0 and n == 8 and isinstance(x, Ptr) and x.rid == s.R]
        for nm, raw in slots:
            get = lambda q, raw=raw: idx(q, raw(q))
            if get(st) is None: continue
            def w(fn, get=get):
                def c(ex, q): x = get(q); return None if x is None else fn(q, x)
                return c
            I += [(f"{nm}<=S", w(lambda q, x: U(x, q.g["S"]))), (f"{nm}<S", w(lambda q, x: LT(x, q.g["S"]))), (f"{nm}>=1", w(lambda q, x: x != 0))]
            for (g, gf), (_, nf) in zip(got, none):
                I += [(f"{nm}: before it {g}", w(lambda q, x, gf=gf, nf=nf: IMP(LT(K, x), z3.If(zb(want(q)), zb(gf(q)), zb(nf(q)))))), (f"{nm}: from it on not {g}", w(lambda q, x, nf=nf: IMP(U(x, K), nf(q)))),
                      (f"{nm}: after it {g}", w(lambda q, x, gf=gf, nf=nf: IMP(LT(x, K), z3.If(zb(want(q)), zb(gf(q)), zb(nf(q)))))), (f"{nm}: up to it not {g}", w(lambda q, x, nf=nf: IMP(U(K, x), nf(q))))]
        return LoopSpec(invs=I, auto=False)
    def unchanged_sinks(s, v, q): v.oblige(q, AND(bv(q.g["S"]) == s.S0), "the list of sinks is unchanged")

@harness("handler.level", ("C14",), cost=10)
def level(ctx):
    s = Handler(ctx); v = s.v; st = s.st; o = s.off; rq = s.request("level"); ok = z3.And(s.level >= o["lv_none"], s.level <= o["lv_debug"])
    for d in v.run(st, v.fn("^vp_co_level$"), [s.this, s.fd, rq]):
        if d.kind != "ret": v.fail(d.st, "set_level returns"); continue
        q = d.st; good = AND(ok, s.valid != 0); v.cover(q, "answered")
        v.oblige(q, IMP(good, AND(bv(q.g["succ"]) == 1, bv(q.g["errs"]) == 0)), "a valid request is answered with success"); v.oblige(q, IMP(NOT(good), AND(bv(q.g["succ"]) == 0, bv(q.g["errs"]) == 1)), "an invalid level or pattern is answered with an error")
        v.oblige(q, zb(q.g["setK"]) == AND(good, s.K != 0, MATCH(s.K)), "the level is set in exactly the sinks whose name matches"); s.unchanged_sinks(v, q); v.oblige(q, IMP(NOT(good), NOT(q.g["nset"])), "an invalid request changes nothing")
        v.oblige(q, IMP(q.g["made"], q.g["dead"]), "the matcher is destroyed")
    need_covers(ctx, v, ["answered", "level set", "success", "error", "matcher made"])

@harness("handler.status", ("C14",), cost=10)
def status(ctx):
    s = Handler(ctx); v = s.v; st = s.st; rq = s.request("status")
    for d in v.run(st, v.fn("^vp_co_status$"), [s.this, s.fd, rq]):
        if d.kind != "ret": v.fail(d.st, "status returns"); continue
        q = d.st; good = s.valid != 0; v.cover(q, "answered"); v.oblige(q, bv(q.g["errs"]) == z3.If(good, bv(0), bv(1)), "an invalid pattern, and only that, is answered with an error"); v.oblige(q, bv(q.g["succ"]) == 0, "status sends no other reply")
        v.oblige(q, bv(q.g["infoK"]) == z3.If(AND(good, s.K != 0, MATCH(s.K)), bv(1), bv(0)), "every sink whose name matches is reported exactly once, and no other"); v.oblige(q, AND(NOT(q.g["nset"]), q.g["dead"]), "status changes nothing"); s.unchanged_sinks(v, q)
    need_covers(ctx, v, ["answered", "info", "error", "matcher made"])

@harness("handler.reopen", ("C11",), cost=3)
def reopen(ctx):
    s = Handler(ctx); v = s.v; st = s.st; o = s.off; r = new_region(st, "request", 1, align=1); sto = new_region(st, "storage", 8, align=8); mem_write(st, sto.rid, 0, 8, Ptr(v.global_region(st, "_ZTV8vp_probe"), 16)); mem_write(st, s.co, o["co_buf"] + o["bf_storage"], 8, Ptr(sto.rid, 0))
    res = fresh("reopen", 32); st.g["reopened"] = Z; n = fresh("len"); st.assume(U(n, 1000)); txt = data_region(st, "strerror", n); txt.tag = ("cstr", n)
    def ro(ex, q, a, ins):
        ex.oblige(q, bv(q.g["flushes"]) == 1, "everything logged so far is flushed before the log is reopened"); ex.oblige(q, AND(num(q, a[0]) == num(q, Ptr(sto.rid, 0)), bv(q.g["reopened"]) == 0), "the log's storage is reopened once"); q.g["reopened"] = simp(bv(q.g["reopened"]) + 1); return res
    def se(ex, q, a, ins): ex.oblige(q, bv(a[0], 32) == res, "the error reported is that of the reopening"); q.g["$se"] = True; return Ptr(txt.rid, 0)
    v.contracts[:0] = [(r"^vp_st_reopen$", ro), (r"^strerror$", se)]
    s.valid = z3.BitVecVal(1, 8); st.g["made"] = T
    for d in v.run(st, v.fn("^vp_co_reopen$"), [s.this, s.fd, Ptr(r.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "reopen returns"); continue
        q = d.st; v.cover(q, "answered"); v.oblige(q, bv(q.g["reopened"]) == 1, "the log is reopened"); v.oblige(q, AND(bv(q.g["succ"]) == z3.If(res == 0, bv(1), bv(0)), bv(q.g["errs"]) == z3.If(res == 0, bv(0), bv(1))), "success is reported if and only if reopening succeeded")
        if "$errtxt" in q.g: e = q.g["$errtxt"]; v.oblige(q, z3.BoolVal(any(num(q, x).eq(num(q, Ptr(txt.rid, 0))) for x in e if isinstance(x, Ptr))), "the reply carries the reason")
    need_covers(ctx, v, ["answered", "success", "error"])

@harness("handler.add", ("C06",), cost=3)
def add_sink(ctx):
    s = Handler(ctx); v = s.v; st = s.st; o = s.off; sk = new_region(st, "newsink", o["sk_size"], align=o["sk_align"]); nm = new_region(st, "name", 32, align=8); rid, n = new_string(st, Ptr(nm.rid, 0), "name"); st.g["added"] = Z; j = fresh("j"); st.assume(LT(j, n))
    def push(ex, q, a, ins):
        s.vec(ex, q, a[0]); p = ex.bounds(q, a[1], s.E, "entry", False); ex.oblige(q, num(q, mem_read(q, p.rid, add(p.off, o["sh_p"]), 8)) == num(q, Ptr(sk.rid, 0)), "the new entry is for the new sink"); ex.oblige(q, num(q, mem_read(q, p.rid, add(p.off, o["sh_dropped"]), 8)) == 0, "a new sink has dropped nothing")
        d, m = str_get(ex, q, Ptr(p.rid, add(p.off, o["sh_name"]))); ex.oblige(q, AND(bv(m) == bv(n), bv(read_byte(q, d.rid, add(d.off, j)), 8) == bv(read_byte(q, rid, j), 8)), "the new entry carries the sink's name"); q.g["added"] = simp(bv(q.g["added"]) + 1); ex.cover(q, "pushed")
        return 0
    v.contracts[:0] = [(r"sink_handle> ?>::(push_back|emplace_back)", push)]
    for d in v.run(st, v.fn("^vp_co_add$"), [s.this, Ptr(sk.rid, 0), Ptr(nm.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "add_sink returns"); continue
        v.oblige(d.st, bv(d.st.g["added"]) == 1, "the sink is added to the list once"); v.cover(d.st, "added")
    need_covers(ctx, v, ["pushed", "added"])

# ---------------------------------------------------------------- matchers
@harness("matcher", ("C14",), cost=5)
def matchers(ctx):
    RC = fresh("rc", 32)
    def regcomp(ex, st, a, ins):
        g = st.g; o = ex.off; ex.cover(st, "regcomp"); ex.oblige(st, num(st, a[1]) == num(st, g["$pat"]), "the pattern compiled is the one given"); ex.oblige(st, bv(a[2], 32) == z3.If(zb(g["ic"]), bv(o["reg_icase"], 32), bv(0, 32)) | bv(o["reg_nosub"], 32) | z3.If(zb(g["ext"]), bv(o["reg_ext"], 32), bv(0, 32)), "the expression is of the requested kind, with the requested case rule")
        p = ex.bounds(st, a[0], o["regex_size"], "regex_t", True); mem_havoc(st, p.rid, p.off, o["regex_size"]); g["$re"] = p; g["compiled"] = simp(bv(g["compiled"]) + 1); return RC
    def same(ex, st, p): ex.oblige(st, AND(bv(st.g["compiled"]) == 1, num(st, p) == num(st, st.g["$re"]) if "$re" in st.g else F), "the compiled expression is used")
    def regexec(ex, st, a, ins):
        same(ex, st, a[0]); ex.oblige(st, AND(RC == 0, NOT(st.g["freed"])), "only a valid expression is matched"); ex.oblige(st, AND(num(st, a[1]) == num(st, st.g["$str"]), num(st, a[2]) == 0, eq(a[4], 0, 32)), "the whole name is matched"); st.g["$res"] = r = fresh("regexec", 32); ex.cover(st, "regexec"); return r
    def regfree(ex, st, a, ins): same(ex, st, a[0]); ex.oblige(st, AND(RC == 0, NOT(st.g["freed"])), "a valid expression is freed once"); st.g["freed"] = T; return 0
    def regerror(ex, st, a, ins):
        same(ex, st, a[1]); ex.oblige(st, AND(bv(a[0], 32) == RC, num(st, a[2]) == num(st, Ptr(st.g["$buf"], 0)), bv(a[3]) == 64), "the reason is that of the failed compilation, in the buffer given"); st.g["$said"] = True; return 1
    def fnmatch(ex, st, a, ins):
        ex.cover(st, "fnmatch"); ex.oblige(st, AND(num(st, a[0]) == num(st, st.g["$pat"]), num(st, a[1]) == num(st, st.g["$str"])), "the pattern given is matched against the whole name"); ex.oblige(st, bv(a[2], 32) == z3.If(zb(st.g["ic"]), bv(ex.off["fnm_fold"], 32), bv(0, 32)), "the requested case rule is used"); st.g["$res"] = r = fresh("fnmatch", 32); return r
    v = ctx.verifier("matcher", [(r"^regcomp$", regcomp), (r"^regexec$", regexec), (r"^regfree$", regfree), (r"^regerror$", regerror), (r"^fnmatch$", fnmatch)] + STR); o = v.off
    for kind in ("none", "ext", "basic", "wild", "other"):
        st = State(); ty = fresh("type", 32) if kind == "other" else o["pt_" + kind]
        if kind == "other": st.assume(z3.And(*[ty != o["pt_" + k] for k in ("none", "ext", "basic", "wild")]))
        icb = fresh("ic", 1) if False else z3.Bool("ic"); pat = new_region(st, "pattern", 256, align=1, arr=fresh_arr("pattern")); sr = new_region(st, "name", 64, align=1, arr=fresh_arr("name")); buf = new_region(st, "reason", 64, align=1)
        st.g.update({"$pat": Ptr(pat.rid, 0), "$str": Ptr(sr.rid, 0), "$buf": buf.rid, "ic": icb, "ext": T if kind == "ext" else F, "compiled": Z, "freed": F})
        for d in v.run(st, v.fn("^vp_mm_make$"), [ty, Ptr(pat.rid, 0), icb]):
            if d.kind != "ret": v.cover(d.st, "threw"); continue
            m = d.val; rx = kind in ("ext", "basic"); v.oblige(d.st, num(d.st, m) != 0, f"{kind}: a matcher is made"); v.oblige(d.st, bv(d.st.g["compiled"]) == (1 if rx else 0), f"{kind}: expressions are compiled when the type asks for it")
            for e in v.run(d.st, v.fn("^vp_mm_valid$"), [m]):
                if e.kind != "ret": v.fail(e.st, "valid returns"); continue
                val = zb(e.val) if not (isz(e.val) and z3.is_bv(e.val)) else e.val != 0; v.oblige(e.st, val == (RC == 0 if rx else T), f"{kind}: valid if and only if the pattern is")
                bad = e.st.fork(); bad.assume(NOT(val)); e.st.assume(val); ends = []
                if v.solver.feasible(bad, T):
                    for f in v.run(bad, v.fn("^vp_mm_reason$"), [m, Ptr(buf.rid, 0), 64]):
                        if f.kind != "ret": v.fail(f.st, "error_reason returns"); continue
                        v.oblige(f.st, z3.BoolVal("$said" in f.st.g), f"{kind}: an invalid pattern gives the reason"); v.cover(f.st, "reason"); ends.append(f.st)
                for f in v.run(e.st, v.fn("^vp_mm_call$"), [m, Ptr(sr.rid, 0)]):
                    if f.kind != "ret": v.fail(f.st, "matching returns"); continue
                    r = f.st.g.get("$res"); got = zb(f.val) if not (isz(f.val) and z3.is_bv(f.val)) else f.val != 0
                    if kind in ("none", "other"): v.oblige(f.st, got, "no pattern matches every name")
                    else: v.oblige(f.st, z3.BoolVal(r is not None) if r is None else got == (r == 0), f"{kind}: the name matches if and only if the pattern matches it")
                    ends.append(f.st)
                for q in ends:
                    for f in v.run(q, v.fn("^vp_mm_delete$"), [m]):
                        if f.kind != "ret": v.fail(f.st, "destruction returns"); continue
                        v.oblige(f.st, zb(f.st.g["freed"]) == AND(z3.BoolVal(rx), RC == 0), f"{kind}: a valid expression is freed"); v.cover(f.st, "deleted " + kind)
    need_covers(ctx, v, ["regcomp", "regexec", "fnmatch", "reason", "deleted none", "deleted ext", "deleted basic", "deleted wild", "deleted other"])
