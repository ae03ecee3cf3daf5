"""Contracts of sink (waiting, closing, copying, naming) and of logger's control functions (C06, C07, C18, C20).
A posted request is the record the real sink::post wrote; the background thread runs the record's own function once, at any moment the waiting thread
holds no lock the request needs. Both sides are executed from the real code; memory shared between them is checked for being accessed under the lock."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, new_string, get as str_get
UNITS = ["sinks"]
T = z3.BoolVal(True); F = z3.BoolVal(False); Z = z3.BitVecVal(0, 64)
def U(a, b): return z3.ULE(bv(a), bv(b))
def B(x): return z3.simplify(zb(x))
def num(st, x): return bv(addr(st, x) if isinstance(x, (Ptr, FnP)) else fresh("undef") if x is UNDEF else x)
def same(st, p, q): return num(st, p) == num(st, q)
RB = r"^xtr::detail::synchronized_ring_buffer<\d+ul>::"

class Env:
    def __init__(s, ctx, contracts=()):
        C = [(r"synchronized_ring_buffer<\d+ul>::write_span(_spec)?<", s.h_span), (RB + r"reduce_writable\(", s.h_publish), (RB + r"clear\(\)", s.h_clear), (RB + r"synchronized_ring_buffer\(", s.h_ring), (RB + r"~synchronized_ring_buffer\(", s.h_unring),
             (r"^pthread_mutex_lock$", s.lock), (r"^pthread_mutex_unlock$", s.unlock), (r"^std::condition_variable::(condition_variable|~condition_variable)\(", s.cv), (r"^std::condition_variable::wait\(", s.wait), (r"^std::condition_variable::notify_(one|all)\(", s.notify),
             (r"^xtr::detail::buffer::flush\(\)", s.b_flush), (r"^vp_st_sync$", s.st_sync), (r"^xtr::detail::consumer::add_sink\(", s.add_sink), (r"^xtr::detail::consumer::set_command_path\(", s.set_path)]
        s.v = v = ctx.verifier("sinks", list(contracts) + C + STR, s.loops); s.off = o = v.off; s.st = st = State(); s.cw = set(); s.effect = lambda ex, st: T; s.nested = 0
        s.cap = o["cap"]; s.map = new_region(st, "queue", 2 * s.cap, align=4096, arr=fresh_arr("queue")).rid; s.pos = pos = fresh("pos"); ALIGNED[str(pos)] = 8; av = fresh("avail"); s.Q = None
        st.assume(AND(z3.ULT(pos, bv(s.cap)), pos & 7 == 0, U(av, s.cap), av & 7 == 0))
        for k, x in (("avail", av), ("pub", Z), ("npub", Z), ("drops", Z), ("flushes", Z), ("syncs", Z), ("added", Z), ("clears", Z), ("rings", Z), ("unrings", Z), ("wsync", Z), ("closes", Z), ("paths", Z)): st.g[k] = x
        for k in ("ran", "held", "ctl", "released", "consumer", "badlock"): st.g[k] = F
        def check(ex, st2, p, n, write):
            if zb_true(st2.g["consumer"]): ex.oblige(st2, AND(U(pos, p.off), U(n, st2.g["pub"]), U(sub(p.off, pos), sub(st2.g["pub"], n))), "the request's function stays inside its record")
            elif write: ex.oblige(st2, AND(U(pos, p.off), U(n, st2.g["avail"]), U(sub(p.off, pos), sub(st2.g["avail"], n)), bv(st2.g["npub"]) == 0), "a request is written inside the space the queue offered, before it is published")
        st.wregion(s.map).check = check
        # the background thread's side
        c = new_region(st, "consumer", o["co_size"], align=8); s.co = c.rid; sto = new_region(st, "storage", 8, align=8); s.sto = sto.rid; mem_write(st, sto.rid, 0, 8, Ptr(v.global_region(st, "_ZTV8vp_probe"), 16))
        mem_write(st, s.co, o["co_buf"] + o["bf_storage"], 8, Ptr(sto.rid, 0)); mem_write(st, s.co, o["co_destroy"], 1, 0); s.nm = new_region(st, "consname", 32, align=8).rid; s.nmr, s.nmn = new_string(st, Ptr(s.nm, 0), "own"); s.ts = new_region(st, "ts", 32, align=1).rid
        ctx.extra_assume += ["pthread mutexes and std::condition_variable behave as specified (mutual exclusion, atomic release-and-wait, spurious wake-ups possible)", "the background thread executes each published request once (specs/consumer.py, C06)"]
    def sink(s, name="sink", open_=None):
        o = s.off; st = s.st; r = new_region(st, name, o["sk_size"], align=o["sk_align"])
        if open_ is not None: mem_write(st, r.rid, o["sk_open"], 1, open_)
        lv = fresh("level", 32); mem_write(st, r.rid, o["sk_level"], 4, lv)
        def ck(ex, q, p, n, write):
            if not (isinstance(p.off, int) and (p.off in (o["sk_level"], o["sk_open"]))): raise Unsupported("a sink's queue is accessed other than through its functions")
        st.wregion(r.rid).check = ck; return r.rid, lv
    def logger(s):
        o = s.off; st = s.st; r = new_region(st, "logger", o["lg_size"], align=o["lg_align"]); s.lg = r.rid; s.Q = Ptr(r.rid, o["lg_control"] + o["sk_buf"]); s.ctlm = o["lg_mutex"]
        lv = fresh("deflevel", 32); mem_write(st, r.rid, o["lg_level"], 4, lv)
        def sh(ex, q, p, n):
            if not (isinstance(p.off, int) and p.off < o["lg_level"] + 4 and p.off + n > o["lg_level"]): return None
            def h(ex, q, kind, order, n, v):
                ex.oblige(q, z3.BoolVal(order != "na") if not zb_true(q.g["ctl"]) else T, "the default level, which any thread may set, is accessed atomically or under the lock")
                if kind == "load": return mem_read(q, p.rid, p.off, n)
                if kind == "store": mem_write(q, p.rid, p.off, n, v); return
                raise Unsupported("level access " + kind)
            return h
        st.wregion(r.rid).shared = sh; return lv
    # ------------------------------------------------------------ queue
    def h_span(s, ex, st, a, ins):
        sret = a[0] if len(a) == 3 else None; c = ins.x["callee"]; name = c.v.dname if c.kind == "fn" else ""; nb = "non_blocking_tag" in name; spec = "write_span_spec" in name; m = a[-1]
        ex.oblige(st, same(st, a[-2], s.Q) if s.Q is not None else F, "the request goes to the right sink's queue"); ex.oblige(st, U(m, s.cap), "space requested fits the queue"); s.guard(ex, st)
        av = fresh("avail"); st.assume(AND(U(st.g["avail"], av), U(av, s.cap), av & 7 == 0)); st.g["avail"] = av; res = []
        if nb: s2 = st.fork(); s2.assume(z3.ULT(av, bv(m))); s2.g["drops"] = add(s2.g["drops"], 1); res.append(Ret(s2, s.span(s2, sret, 0, 0)))
        n = av
        if spec: n = fresh("span"); st.assume(AND(U(n, av), n & 7 == 0))
        st.assume(U(m, n)); return [Ret(st, s.span(st, sret, Ptr(s.map, s.pos), n))] + res
    def span(s, st, r, b, n):
        if r is None: return [b, n]
        mem_write(st, r.rid, r.off, 8, b); mem_write(st, r.rid, add(r.off, 8), 8, n)
    def guard(s, ex, st): ex.oblige(st, OR(z3.BoolVal(not hasattr(s, "lg")), st.g["ctl"]), "the control queue is used only with the logger's lock held")
    def h_publish(s, ex, st, a, ins):
        n = a[1]; ex.oblige(st, same(st, a[0], s.Q), "the request is published in the queue it was written to"); ex.oblige(st, AND(bv(n) & 7 == 0, U(n, st.g["avail"]), bv(n) != 0, bv(st.g["npub"]) == 0), "exactly one whole request is published"); s.guard(ex, st)
        st.g["npub"] = simp(bv(st.g["npub"]) + 1); st.g["pub"] = n; ex.cover(st, "posted")
        for fr in st.frames:
            for rid in fr.allocas:
                if rid in st.mem: st.wregion(rid).check = s.shared
        if s.waits: s.consume(ex, st.fork())      # finds which of the waiter's variables the request writes
        return 0
    def h_clear(s, ex, st, a, ins):
        ex.oblige(st, same(st, a[0], s.Q) if s.Q is not None else F, "the sink's own queue is cleared"); ex.oblige(st, OR(bv(st.g["npub"]) == 0, st.g["ran"]), "a queue is cleared only when the background thread has let go of it"); st.g["clears"] = simp(bv(st.g["clears"]) + 1); return 0
    def h_ring(s, ex, st, a, ins): st.g["rings"] = simp(bv(st.g["rings"]) + 1); return 0
    def h_unring(s, ex, st, a, ins):
        ex.oblige(st, OR(bv(st.g["npub"]) == 0, st.g["ran"]), "a sink's queue is destroyed only after the background thread has let go of it"); st.g["unrings"] = simp(bv(st.g["unrings"]) + 1); return 0
    # ------------------------------------------------------------ threads
    waits = False
    def shared(s, ex, st, p, n, write):
        if zb_true(st.g["consumer"]):
            ex.oblige(st, NOT(st.g["released"]), "nothing of the waiting thread is used after the acknowledgement")
            if write: s.cw.add(p.rid); ex.oblige(st, st.g["held"], "the waiting thread's variables are changed only under its lock")
        elif p.rid in s.cw: ex.oblige(st, OR(bv(st.g["npub"]) == 0, st.g["held"]), "variables shared with the background thread are used only under the lock")
    def consume(s, ex, st):
        """the background thread executes the published request; -> [state]"""
        fn = mem_read(st, s.map, s.pos, 8); fn = resolve(st, fn) if isz(fn) else fn
        if not isinstance(fn, FnP): raise Unsupported("the request's function")
        hk = st.g["held"]; ck = st.g["ctl"]; st.g["consumer"] = T; st.g["released"] = F; st.g["$notified"] = False; st.g["held"] = F; st.g["ctl"] = F; d0 = len(st.frames); o = s.off
        ex.call_fn(st, fn.fn, [Ptr(s.co, o["co_buf"]), Ptr(s.map, s.pos), Ptr(s.co, 0), Ptr(s.ts, 0), Ptr(s.nm, 0)]); out = []
        for d in ex.explore([st], d0):
            q = d.st
            if d.kind != "ret": ex.fail(q, "the request's function returns normally"); continue
            r = d.val; r = resolve(q, r) if isz(r) else r
            ex.oblige(q, z3.BoolVal(isinstance(r, Ptr) and r.rid == s.map) if not isinstance(r, Ptr) else eq(sub(r.off, s.pos), q.g["pub"]), "decoding continues at exactly the next record"); ex.oblige(q, NOT(q.g["held"]), "the request's function releases the lock")
            ex.oblige(q, s.effect(ex, q), "the request has its effect"); s.waits and ex.oblige(q, z3.BoolVal(bool(q.g.get("$notified"))), "a waiting thread is woken"); q.g["consumer"] = F; q.g["held"] = hk; q.g["ctl"] = ck; q.g["ran"] = T; ex.cover(q, "consumed"); out.append(q)
        return out
    def environment(s, ex, st):
        """-> states: the background thread has, or has not yet, executed the request"""
        if not s.waits or zb_true(st.g["consumer"]): return [st]
        c = AND(bv(st.g["npub"]) == 1, NOT(st.g["ran"])); out = []
        if ex.solver.feasible(st, c): q = st.fork(); q.assume(c); out += s.consume(ex, q)
        return [st] + out
    def which(s, ex, st, p):
        p = p if isinstance(p, Ptr) else resolve(st, p)
        if not isinstance(p, Ptr): raise Unsupported("mutex")
        if hasattr(s, "lg") and p.rid == s.lg: ex.oblige(st, eq(p.off, s.ctlm), "the logger's lock is used"); return "ctl"
        if st.mem[p.rid].kind != "stack": raise Unsupported("an unknown lock")
        a = st.g.get("$m"); st.g["$m"] = p.rid
        if a is not None: ex.oblige(st, z3.BoolVal(a == p.rid), "both threads use the same lock")
        return "held"
    def lock(s, ex, st, a, ins):
        k = s.which(ex, st, a[0])
        if zb_true(st.g["consumer"]): ex.oblige(st, NOT(st.g["released"]), "nothing of the waiting thread is used after the acknowledgement")
        ex.oblige(st, NOT(st.g[k]), "a lock held already is not locked again"); out = s.environment(ex, st) if k == "held" else [st]
        for q in out: q.g[k] = T
        ex.cover(st, "locked"); return [Ret(q, 0) for q in out]
    def unlock(s, ex, st, a, ins):
        k = s.which(ex, st, a[0]); ex.oblige(st, st.g[k], "only a lock held is released")
        if zb_true(st.g["consumer"]):
            ex.oblige(st, s.effect(ex, st), "the waiting thread is released only after the request had its effect"); st.g["released"] = T; 
        st.g[k] = F; return 0
    def cv(s, ex, st, a, ins):
        c = ins.x["callee"]; 
        if "~" in c.v.dname: ex.oblige(st, OR(bv(st.g["npub"]) == 0, st.g["ran"]), "the waiting thread leaves only after the acknowledgement")
        return 0
    def wait(s, ex, st, a, ins):
        ex.oblige(st, AND(st.g["held"], NOT(st.g["consumer"])), "waiting is done with the lock held"); ex.cover(st, "waited"); st.g["held"] = F; out = s.environment(ex, st)
        for q in out: q.g["held"] = T
        return [Ret(q, 0) for q in out]
    def notify(s, ex, st, a, ins):
        ex.oblige(st, AND(st.g["consumer"], st.g["held"], NOT(st.g["released"])), "the waiting thread is notified while its lock is held"); ex.cover(st, "notified"); st.g["$notified"] = True; return 0
    # ------------------------------------------------------------ the background thread's objects
    def b_flush(s, ex, st, a, ins): ex.oblige(st, AND(st.g["consumer"], same(st, a[0], Ptr(s.co, s.off["co_buf"]))), "the output buffer is flushed by the background thread"); st.g["flushes"] = simp(bv(st.g["flushes"]) + 1); return 0
    def st_sync(s, ex, st, a, ins): ex.oblige(st, AND(st.g["consumer"], same(st, a[0], Ptr(s.sto, 0)), bv(st.g["flushes"]) != 0), "the storage is synced by the background thread, after the output was flushed"); st.g["syncs"] = simp(bv(st.g["syncs"]) + 1); return 0
    def add_sink(s, ex, st, a, ins):
        ex.oblige(st, AND(st.g["consumer"], same(st, a[0], Ptr(s.co, 0))), "a sink is added by the background thread"); ex.oblige(st, same(st, a[1], s.reg[0]) if getattr(s, "reg", None) else F, "the sink added is the one registered")
        d, n = str_get(ex, st, a[2]); rid, ln, j = s.reg[1]; ex.oblige(st, AND(bv(n) == bv(ln), IMP(z3.ULT(j, bv(ln)), bv(read_byte(st, d.rid, add(d.off, j)), 8) == bv(read_byte(st, rid, j), 8))), "the sink is added under the name asked for"); st.g["added"] = simp(bv(st.g["added"]) + 1); ex.cover(st, "added"); return 0
    def set_path(s, ex, st, a, ins):
        ex.oblige(st, AND(st.g["consumer"], same(st, a[0], Ptr(s.co, 0))), "the command path is set by the background thread"); d, n = str_get(ex, st, a[1]); rid, ln, j = s.reg[1]
        ex.oblige(st, AND(bv(n) == bv(ln), IMP(z3.ULT(j, bv(ln)), bv(read_byte(st, d.rid, add(d.off, j)), 8) == bv(read_byte(st, rid, j), 8))), "the command path set is the one given"); st.g["paths"] = simp(bv(st.g["paths"]) + 1); return 0
    def name(s, what="name"):
        r = new_region(s.st, what, 32, align=8); rid, n = new_string(s.st, Ptr(r.rid, 0), what); j = fresh("j"); return Ptr(r.rid, 0), (rid, n, j)
    def loops(s, ex, st, f):
        I = [("lock kept", lambda ex, q: zb(q.g["held"]) == zb(st.g["held"])), ("ctl kept", lambda ex, q: zb(q.g["ctl"]) == zb(st.g["ctl"])), ("no second request", lambda ex, q: bv(q.g["npub"]) == bv(st.g["npub"])), ("effect", lambda ex, q: IMP(q.g["ran"], s.effect(ex, q)))]
        for fr in st.frames:
            for rid in fr.allocas:
                for off, (n, x) in list(st.mem[rid].cells.items()):
                    if n in (1, 4, 8) and not isinstance(x, (Ptr, FnP)):
                        g = lambda q, rid=rid, off=off, n=n: mem_read(q, rid, off, n)
                        def w(fn, g=g, n=n):
                            def c(ex, q):
                                x = g(q)
                                return None if isinstance(x, (Ptr, FnP)) or x is UNDEF or (isz(x) and z3.is_bool(x)) else fn(q, bv(x, 8 * n))
                            return c
                        nm = f"{st.mem[rid].name}+{off}"
                        I += [(f"{nm} set means done", w(lambda q, x: IMP(x & 1 != 0, q.g["ran"]))), (f"{nm} nonzero means done", w(lambda q, x: IMP(x != 0, q.g["ran"]))), (f"{nm} clear means done", w(lambda q, x: IMP(x & 1 == 0, q.g["ran"]))), (f"{nm} flag", w(lambda q, x: z3.ULE(x, 1)))]
        return LoopSpec(invs=I, auto=True)
def zb_true(x): return z3.is_true(z3.simplify(zb(x)))
def rets(v, ds, what):
    for d in ds:
        if d.kind != "ret": v.fail(d.st, f"{what} returns normally")
        else: yield d.st, d.val
def byte(st, r, off): return bv(mem_read(st, r, off, 1), 8)

def waiting(name, entry, props, closing):
    @harness(name, props, cost=5)
    def h(ctx):
        s = Env(ctx); s.waits = True; v = s.v; o = s.off; st = s.st; opn = fresh("open", 8) if closing else 1
        if closing: st.assume(z3.ULE(opn, 1))
        sk, lv = s.sink(open_=opn); s.Q = Ptr(sk, o["sk_buf"])
        s.effect = (lambda ex, q: byte(q, s.co, o["co_destroy"]) == 1) if closing else (lambda ex, q: AND(bv(q.g["flushes"]) == 1, bv(q.g["syncs"]) == 1, byte(q, s.co, o["co_destroy"]) == 0))
        for q, _ in rets(v, v.run(st, v.fn(f"^{entry}$"), [Ptr(sk, 0)]), name):
            was = (bv(opn, 8) & 1) != 0; v.cover(q, "returned"); v.oblige(q, bv(q.g["npub"]) == z3.If(was, bv(1), bv(0)), "an open sink asks once, a closed one not at all"); v.oblige(q, IMP(was, q.g["ran"]), "the call returns only after the background thread has done what was asked"); v.oblige(q, NOT(q.g["held"]), "no lock is kept")
            if closing:
                if entry != "vp_sk_dtor": v.oblige(q, (byte(q, sk, o["sk_open"]) & 1) == 0, "the sink is closed on return"); v.oblige(q, bv(mem_read(q, sk, o["sk_level"], 4), 32) == lv, "closing keeps the level")
                v.oblige(q, bv(q.g["clears"]) == z3.If(was, bv(1), bv(0)) if entry != "vp_sk_dtor" else U(q.g["clears"], 1), "the queue of a sink just closed is emptied")
                if entry == "vp_sk_dtor": v.oblige(q, bv(q.g["unrings"]) == 1, "the queue is destroyed")
        need_covers(ctx, v, ["returned", "posted", "consumed", "waited", "notified", "locked"])
waiting("sink.close", "vp_sk_close", ("C07", "C20", "C06"), True)
waiting("sink.sync", "vp_sk_sync", ("C07",), False)
waiting("sink.destroy", "vp_sk_dtor", ("C07", "C20"), True)

@harness("sink.set_name", ("C20",), cost=2)
def set_name(ctx):
    s = Env(ctx); v = s.v; o = s.off; st = s.st; sk, lv = s.sink(open_=1); s.Q = Ptr(sk, o["sk_buf"]); p, (rid, n, j) = s.name(); done = 0
    for q, _ in rets(v, v.run(st, v.fn("^vp_sk_name$"), [Ptr(sk, 0), p]), "set_name"):
        v.oblige(q, bv(q.g["npub"]) == 1, "the new name is sent to the background thread")
        for u in s.consume(v, q):
            d, m = str_get(v, u, Ptr(s.nm, 0)); v.oblige(u, AND(bv(m) == bv(n), IMP(z3.ULT(j, bv(n)), bv(read_byte(u, d.rid, add(d.off, j)), 8) == bv(read_byte(u, rid, j), 8))), "the sink's name becomes the one given"); v.oblige(u, AND(byte(u, sk, o["sk_open"]) == 1, bv(mem_read(u, sk, o["sk_level"], 4), 32) == lv), "nothing else changes"); v.cover(u, "renamed")
    need_covers(ctx, v, ["posted", "renamed"])

def assign(name, entry):
    @harness(name, ("C20",), cost=3)
    def h(ctx):
        def close(ex, st, a, ins):
            """contract proved in sink.close"""
            ex.oblige(st, AND(same(st, a[0], s.A), bv(st.g["npub"]) == 0), "the target, and only the target, is closed first"); st.g["closes"] = simp(bv(st.g["closes"]) + 1); p = resolve(st, a[0]) if isz(a[0]) else a[0]; mem_write(st, p.rid, add(p.off, s.off["sk_open"]), 1, 0); return 0
        s = Env(ctx, [(r"^xtr::sink::close\(\)", close)]); v = s.v; o = s.off; st = s.st; oo = fresh("open", 8); st.assume(z3.ULE(oo, 1)); to = fresh("topen", 8); st.assume(z3.ULE(to, 1))
        copy = entry == "vp_sk_copy"; tk, tl = s.sink("target", None if copy else to); ok, ol = s.sink("source", oo); s.A = Ptr(tk, 0); s.Q = Ptr(ok, o["sk_buf"]); s.reg = (Ptr(tk, 0), (s.nmr, s.nmn, fresh("j")))
        for q, r in rets(v, v.run(st, v.fn(f"^{entry}$"), [Ptr(tk, 0), Ptr(ok, 0)]), name):
            was = (oo & 1) != 0; op = byte(q, tk, o["sk_open"]); lev = bv(mem_read(q, tk, o["sk_level"], 4), 32); v.cover(q, "copied")
            v.oblige(q, AND(lev == ol, (op & 1 != 0) == was), "the target gets the source's level and is open exactly when the source is"); v.oblige(q, AND(bv(mem_read(q, ok, o["sk_level"], 4), 32) == ol, byte(q, ok, o["sk_open"]) == oo), "the source is unchanged")
            v.oblige(q, bv(q.g["npub"]) == z3.If(was, bv(1), bv(0)), "registration is requested exactly when the source is open")
            if not copy: v.oblige(q, bv(q.g["closes"]) == 1, "the target is closed first")
            else: v.oblige(q, bv(q.g["rings"]) == 1, "the copy has a queue of its own")
            if not v.solver.feasible(q, was): continue
            q.assume(was)
            for u in s.consume(v, q): v.oblige(u, bv(u.g["added"]) == 1, "the target is registered once, under the source's name"); v.oblige(u, byte(u, s.co, o["co_destroy"]) == 0, "registering closes nothing")
        need_covers(ctx, v, ["copied", "posted", "added"])
assign("sink.assign", "vp_sk_assign"); assign("sink.copy", "vp_sk_copy")
@harness("sink.self_assign", ("C20",), cost=1)
def self_assign(ctx):
    def close(ex, st, a, ins): ex.fail(st, "self-assignment closes nothing"); return 0
    s = Env(ctx, [(r"^xtr::sink::close\(\)", close)]); v = s.v; o = s.off; st = s.st; oo = fresh("open", 8); sk, lv = s.sink("sink", oo); s.Q = Ptr(sk, o["sk_buf"])
    for q, r in rets(v, v.run(st, v.fn("^vp_sk_assign$"), [Ptr(sk, 0), Ptr(sk, 0)]), "self-assignment"): v.cover(q, "done"); v.oblige(q, AND(bv(q.g["npub"]) == 0, byte(q, sk, o["sk_open"]) == oo, bv(mem_read(q, sk, o["sk_level"], 4), 32) == lv), "self-assignment changes nothing")
    need_covers(ctx, v, ["done"])

def wsync(s):
    """contract of sink::sync (proved in sink.sync) on the logger's control sink"""
    def h(ex, st, a, ins):
        ex.oblige(st, AND(same(st, a[0], Ptr(s[0].lg, s[0].off["lg_control"])), st.g["ctl"]), "the control queue is used only with the logger's lock held"); st.g["wsync"] = simp(bv(st.g["wsync"]) + 1); st.g["$afterpub"] = bv(st.g["npub"]); ex.cover(st, "synced"); return 0
    return h
def lock_obl(v, q): v.oblige(q, AND(NOT(q.g["ctl"]), NOT(q.g["held"])), "the lock is released on return")

def control(name, entry, props, setup, after, sync):
    @harness(name, props, cost=3)
    def h(ctx):
        c = []; s = Env(ctx, [(r"^xtr::sink::sync\(\)", wsync(c))]); c.append(s); v = s.v; st = s.st; s.deflv = s.logger(); args = setup(s)
        for q, r in rets(v, v.run(st, v.fn(f"^{entry}$"), args), name):
            v.cover(q, "returned"); lock_obl(v, q); v.oblige(q, bv(q.g["npub"]) == 1, "exactly one request is sent"); v.oblige(q, bv(q.g["wsync"]) == (1 if sync else 0), "the call waits for the change to be applied" if sync else "the call does not wait")
            if sync: v.oblige(q, q.g.get("$afterpub", Z) == 1, "waiting follows the request")
            after(s, v, q, None)
            for u in s.consume(v, q): after(s, v, q, u)
        need_covers(ctx, v, ["returned", "posted", "consumed"] + (["synced"] if sync else []))
def su_reg(s):
    o = s.off; sk, lv = s.sink("sink", 0); s.sk = sk; s.lv = lv; p, n = s.name(); s.reg = (Ptr(sk, 0), n); return [Ptr(s.lg, 0), Ptr(sk, 0), p]
def af_reg(s, v, q, u):
    o = s.off
    if u is None: v.oblige(q, AND(byte(q, s.sk, o["sk_open"]) == 1, bv(mem_read(q, s.sk, o["sk_level"], 4), 32) == s.want), "a registered sink is open and has the level asked for") if hasattr(s, "want") else v.oblige(q, AND(byte(q, s.sk, o["sk_open"]) == 1, bv(mem_read(q, s.sk, o["sk_level"], 4), 32) == s.lv), "a registered sink is open and keeps its level")
    else: v.oblige(u, bv(u.g["added"]) == 1, "the sink is added once")
control("logger.register_sink", "vp_lg_register", ("C18", "C20"), su_reg, af_reg, False)
def su_new(s, get):
    sk, lv = s.sink("sink", None); s.sk = sk; p, n = s.name(); s.reg = (Ptr(sk, 0), n)
    if get: s.want = s.deflv; return [Ptr(sk, 0), Ptr(s.lg, 0), p]
    s.want = fresh("lv", 32); return [Ptr(sk, 0), Ptr(s.lg, 0), p, s.want]
control("logger.get_sink", "vp_lg_get", ("C18", "C20"), lambda s: su_new(s, True), af_reg, False)
control("sink.construct", "vp_sk_ctor", ("C18", "C20"), lambda s: su_new(s, False), af_reg, False)
def su_path(s): p, n = s.name("path"); s.reg = (None, n); return [Ptr(s.lg, 0), p]
control("logger.set_command_path", "vp_lg_path", ("C18",), su_path, lambda s, v, q, u: u is None or v.oblige(u, bv(u.g["paths"]) == 1, "the command path is set once"), True)
def su_style(s): s.sty = FnP(Pseudo("vp::style", lambda *a: 0)); return [Ptr(s.lg, 0), s.sty]
control("logger.set_log_level_style", "vp_lg_style", ("C18",), su_style, lambda s, v, q, u: u is None or v.oblige(u, same(u, mem_read(u, s.co, s.off["co_buf"] + s.off["bf_lstyle"], 8), s.sty), "the style set is the one given"), True)
@harness("logger.set_default_log_level", ("C18", "C20"), cost=1)
def deflevel(ctx):
    s = Env(ctx); v = s.v; st = s.st; s.logger(); lv = fresh("lv", 32)
    for q, r in rets(v, v.run(st, v.fn("^vp_lg_default$"), [Ptr(s.lg, 0), lv]), "set_default_log_level"): v.cover(q, "set"); v.oblige(q, AND(bv(mem_read(q, s.lg, s.off["lg_level"], 4), 32) == lv, bv(q.g["npub"]) == 0), "the default level becomes the one given")
    need_covers(ctx, v, ["set"])
@harness("sink.unregistered", ("C20",), cost=1)
def unreg(ctx):
    s = Env(ctx); v = s.v; st = s.st; o = s.off; sk, _ = s.sink("sink", None); lv = fresh("lv", 32)
    for q, r in rets(v, v.run(st, v.fn("^vp_sk_ctor0$"), [Ptr(sk, 0), lv]), "construction"):
        v.oblige(q, AND(bv(mem_read(q, sk, o["sk_level"], 4), 32) == lv, byte(q, sk, o["sk_open"]) == 0, bv(q.g["npub"]) == 0, bv(q.g["rings"]) == 1), "a new sink has the level given and is closed"); v.cover(q, "made")
        for u, r2 in rets(v, v.run(q, v.fn("^vp_sk_open$"), [Ptr(sk, 0)]), "is_open"): v.oblige(u, NOT(r2) if not (isz(r2) and z3.is_bv(r2)) else r2 == 0, "is_open tells whether the sink is open")
    need_covers(ctx, v, ["made"])
