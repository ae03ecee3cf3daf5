"""Contracts of xtr::detail::synchronized_ring_buffer (C01, C05; used at call sites by C02, C03, C06).

Abstract state: counters w (bytes published), r (bytes released), both modulo 2^64, with 0 <= w - r <= cap.
The reader's counter is kept by the code as r + cap.  Rely: between any two accesses of one thread the other thread
may advance its own counter (within the invariant) and may touch the drop counter through its own operations.
Guarantee: every store to a shared counter is an obligation."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers

UNITS = ["ring"]
ACQ = ("acquire", "acq_rel", "seq_cst"); REL = ("release", "acq_rel", "seq_cst")
def pow2(c): return AND(c != 0, (bv(c) & (bv(c) - 1)) == 0)

class Ring:
    """ghost model of one ring buffer object inside region rid at offset base.  Ghosts (prefix q.):
       w  published counter          rpc  reader's counter + cap (consumer side)
       last  newest value of the other side's counter that was loaded; acq  newest value acquired
       X  present drop count, T  drops taken by the environment (producer) / added by the environment (consumer)"""
    def __init__(s, P, rid, base, cap, bufrid, side, q="q.", gran=1):
        s.gran = gran      # every counter value is a multiple of gran (8: the queue of a sink, whose records are multiples of 8)
        s.P = P; s.rid = rid; s.base = base; s.cap = cap; s.buf = bufrid; s.side = side; s.q = q
    def g(s, st, k): return st.g[s.q + k]
    def set(s, st, k, v): st.g[s.q + k] = v
    # --- distances
    def free(s, st, x): return sub(x, s.g(st, "w"))           # producer: x is an r+cap value
    def inv(s, ex, st):
        """representation invariant (between calls)"""
        o = ex.off; P = s.P; c = bv(s.cap)
        rd = lambda f: mem_read(st, s.rid, s.base + o[f"{P}_{f}"], 8)
        if s.side == "producer":
            w = s.g(st, "w"); acq = s.g(st, "acq"); last = s.g(st, "last")
            return [("the writer's position equals the published counter", eq(rd("wrnwritten"), w)),
                    ("the space believed free is at most the space acquired from the reader", z3.ULE(bv(sub(rd("wrnrpc"), w)), bv(sub(acq, w)))),
                    ("acquired space is at most the space released", z3.ULE(bv(sub(acq, w)), bv(sub(last, w)))),
                    ("unreleased bytes never exceed the capacity", z3.ULE(bv(sub(last, w)), c))]
        r = s.g(st, "rpc"); acq = s.g(st, "acq"); last = s.g(st, "last")
        d = lambda x: bv(sub(x, sub(r, s.cap)))
        return [("acquired bytes are at most the bytes published", z3.ULE(d(acq), d(last))), ("unreleased bytes never exceed the capacity", z3.ULE(d(last), c))]
    def cells(s, ex, st):
        o = ex.off; P = s.P; r = st.wregion(s.rid)
        r.cells[s.base + o[f"{P}_wrbase"]] = (8, Ptr(s.buf, 0)); r.cells[s.base + o[f"{P}_mem"]] = (8, Ptr(s.buf, 0)); r.cells[s.base + o[f"{P}_len"]] = (8, s.cap)
        if P == "rd": r.cells[s.base + o["rd_wrcapacity"]] = (8, s.cap)
    def start(s, ex, st):
        """havocs the state subject to the invariant and attaches the rely/guarantee handlers"""
        s.cells(ex, st)
        names = ("w", "acq", "last") if s.side == "producer" else ("rpc", "acq", "last")
        for k in names: s.set(st, k, fresh(s.q + k))
        for k in ("X", "T"): s.set(st, k, fresh(s.q + k))
        s.set(st, "pubs", z3.BitVecVal(0, 64)); s.set(st, "drops", z3.BitVecVal(0, 64)); s.set(st, "fence_rel", z3.BoolVal(False)); s.set(st, "loaded", z3.BoolVal(False))
        o = ex.off
        if s.side == "producer":
            mem_write(st, s.rid, s.base + o[s.P + "_wrnwritten"], 8, s.g(st, "w")); mem_read(st, s.rid, s.base + o[s.P + "_wrnrpc"], 8)
        for _, f in s.inv(ex, st): st.assume(f)
        for k in names: s.mult(st, s.g(st, k))
        if s.side == "producer": s.mult(st, mem_read(st, s.rid, s.base + o[s.P + "_wrnrpc"], 8))
        r = st.wregion(s.rid); prev = r.shared
        def shared(ex, st, p, n):
            h = s.handler(ex, st, p, n)
            return h if h else (prev(ex, st, p, n) if prev else None)
        r.shared = shared
        ex.on_fence = lambda ex, st, order: s.fence(ex, st, order)
    def mult(s, st, x):
        if s.gran > 1: st.assume((bv(x) & (s.gran - 1)) == 0)
    def fence(s, ex, st, order):
        if order in REL: s.set(st, "fence_rel", z3.BoolVal(True))
        if order in ACQ: s.set(st, "acq", s.g(st, "last"))
    def handler(s, ex, st, p, n):
        o = ex.off; P = s.P
        if not isinstance(p.off, int): return None
        d = p.off - s.base
        f = {o[f"{P}_nwritten"]: "w", o[f"{P}_nrpc"]: "rpc", o[f"{P}_dropped"]: "drop"}.get(d)
        if f and n == 8: return lambda *a: getattr(s, "acc_" + f)(*a)
        if s.side == "consumer":
            if d in (o[f"{P}_wrnrpc"], o[f"{P}_wrnwritten"]):
                def h(ex, st, kind, order, n, v):
                    ex.fail(st, "the reading thread does not touch the writing thread's private fields"); return fresh("race")
                return h
        return None
    def na(s, ex, st, order, what):
        if order == "na": ex.fail(st, f"{what}: shared between threads, accessed atomically")
    def release(s, ex, st, order, what):
        if order not in REL: ex.oblige(st, s.g(st, "fence_rel"), f"{what}: published with release ordering")
    # --- the writer's counter
    def acc_w(s, ex, st, kind, order, n, v):
        s.na(ex, st, order, "writer's counter")
        if s.side == "producer":
            w = s.g(st, "w")
            if kind == "load": return w
            if kind == "store": new = v
            elif kind == "rmw:add": new = add(w, v)
            elif kind == "rmw:xchg": new = v
            else: raise Unsupported("writer's counter " + kind)
            s.release(ex, st, order, "writer's counter")
            ex.oblige(st, z3.ULE(bv(sub(new, w)), bv(sub(s.g(st, "acq"), w))), "the writer publishes only space acquired from the reader")
            s.set(st, "w", new); s.set(st, "pubs", add(s.g(st, "pubs"), 1))
            return w
        if kind != "load": ex.fail(st, "the reading thread never changes the writer's counter"); return fresh("x")
        r = sub(s.g(st, "rpc"), s.cap); x = fresh(s.q + "seenw"); s.mult(st, x)
        st.assume(z3.ULE(bv(sub(s.g(st, "last"), r)), bv(sub(x, r)))); st.assume(z3.ULE(bv(sub(x, r)), bv(s.cap)))
        s.set(st, "last", x); s.set(st, "loaded", z3.BoolVal(True))
        if order in ACQ: s.set(st, "acq", x)
        return x
    # --- the reader's counter (+ capacity)
    def acc_rpc(s, ex, st, kind, order, n, v):
        s.na(ex, st, order, "reader's counter")
        if s.side == "consumer":
            rpc = s.g(st, "rpc")
            if kind == "load": return rpc
            if kind == "rmw:add": new = add(rpc, v)
            elif kind == "rmw:sub": new = sub(rpc, v)
            elif kind in ("store", "rmw:xchg"): new = v
            else: raise Unsupported("reader's counter " + kind)
            s.release(ex, st, order, "reader's counter")
            r = sub(rpc, s.cap)
            ex.oblige(st, z3.ULE(bv(sub(new, rpc)), bv(sub(s.g(st, "acq"), r))), "the reader releases only bytes acquired from the writer")
            s.set(st, "rpc", new); s.set(st, "pubs", add(s.g(st, "pubs"), 1))
            return rpc
        if kind != "load": ex.fail(st, "the writing thread never changes the reader's counter"); return fresh("x")
        x = fresh(s.q + "seenr"); w = s.g(st, "w"); s.mult(st, x)
        st.assume(z3.ULE(bv(sub(s.g(st, "last"), w)), bv(sub(x, w)))); st.assume(z3.ULE(bv(sub(x, w)), bv(s.cap)))
        s.set(st, "last", x); s.set(st, "loaded", z3.BoolVal(True))
        if order in ACQ: s.set(st, "acq", x)
        return x
    # --- the drop counter: conservation of drops whatever the other thread does in between
    def env_drop(s, st):
        if s.side == "producer":     # the reader may take everything at any moment
            take = fresh("take", 1); X = s.g(st, "X")
            s.set(st, "T", simp(bv(s.g(st, "T")) + z3.If(take, bv(X), z3.BitVecVal(0, 64)))); s.set(st, "X", simp(z3.If(take, z3.BitVecVal(0, 64), bv(X))))
        else:                        # the writer may add at any moment
            k = fresh("added"); s.set(st, "X", add(s.g(st, "X"), k)); s.set(st, "T", add(s.g(st, "T"), k))
    def acc_drop(s, ex, st, kind, order, n, v):
        s.na(ex, st, order, "drop counter")
        s.env_drop(st)
        X = s.g(st, "X")
        if kind == "load": return X
        if kind in ("store", "rmw:xchg"): s.set(st, "X", v); return X
        if kind == "rmw:add": s.set(st, "X", add(X, v)); return X
        if kind == "rmw:sub": s.set(st, "X", sub(X, v)); return X
        if kind == "cmpxchg":
            ok = simp(eq(X, v[0])); s.set(st, "X", simp(z3.If(zb(ok), bv(v[1]), bv(X)))); return (X, ok)
        raise Unsupported("drop counter " + kind)

    def drop_snapshot(s, st): return (s.g(st, "X"), s.g(st, "T"))
    def drop_conserved(s, st, snap, added):
        X0, T0 = snap
        if s.side == "producer":   # what the reader took plus what remains == before + added
            return bv(s.g(st, "X")) + (bv(s.g(st, "T")) - bv(T0)) == bv(X0) + bv(added)
        return bv(s.g(st, "X")) + bv(added) == bv(X0) + (bv(s.g(st, "T")) - bv(T0))   # added = handed over

def mk(ctx, P, side, unit="ring", gran=1, **kw):
    v = ctx.verifier(unit, CONTRACTS_ENV, ring_loops, **kw); st = State()
    cap = v.off["capacity"] if P == "rb" else fresh("cap")
    if P == "rd":
        st.assume(pow2(cap)); st.assume(z3.UGE(cap, bv(4096))); st.assume(z3.ULE(cap, bv(1 << 40)))
    buf = new_region(st, "mapping", mask(2 * cap, 64) if isinstance(cap, int) else simp(cap * 2), align=4096)
    obj = new_region(st, "ring", v.off[P + "_size"], align=64)
    q = Ring(P, obj.rid, 0, cap, buf.rid, side, gran=gran); q.start(v, st)
    return v, st, q, Ptr(obj.rid, 0)
def cls(P, v): return rf"synchronized_ring_buffer<{v.off['capacity'] if P == 'rb' else 2**64-1}ul>::"

def h_pause(ex, st, a, ins): return 0
CONTRACTS_ENV = [(r"^_mm_pause$|^xtr::detail::pause\(\)|__builtin_ia32_pause", h_pause)]

def ring_loops(ex, st, f):
    """candidate invariants offered to every loop: the ring invariant itself"""
    qs = [q for q in getattr(ex, "rings", [])]
    invs = []
    for q in qs:
        for k in range(len(q.inv(ex, st))):
            invs.append((f"ring invariant {k}", lambda ex, s, q=q, k=k: q.inv(ex, s)[k][1]))
        invs.append(("drops conserved", lambda ex, s, q=q, snap=q.drop_snapshot(st): q.drop_conserved(s, snap, 0)))
        if q.side == "producer":
            a0 = mem_read(st, q.rid, q.base + ex.off[q.P + "_wrnrpc"], 8); invs.append(("space noted as free never shrinks", lambda ex, s, q=q, a0=a0: z3.ULE(bv(sub(a0, q.g(s, "w"))), bv(sub(mem_read(s, q.rid, q.base + ex.off[q.P + "_wrnrpc"], 8), q.g(s, "w"))))))
            if q.gran > 1: invs.append(("space noted as free is a multiple", lambda ex, s, q=q: (bv(mem_read(s, q.rid, q.base + ex.off[q.P + "_wrnrpc"], 8)) & (q.gran - 1)) == 0))
            invs.append(("acq==wrnrpc", lambda ex, s, q=q: eq(q.g(s, "acq"), mem_read(s, q.rid, q.base + ex.off[q.P + "_wrnrpc"], 8))))
    return LoopSpec(invs=invs)

def call_span(v, st, fn, args):
    """runs fn returning a span either directly or through a result pointer; yields (Done, begin, size)"""
    if fn.ret.kind == "void":
        sret = new_region(st, "result", 16, align=8); outs = v.run(st, fn, [Ptr(sret.rid, 0)] + args)
        for d in outs: yield d, *( (mem_read(d.st, sret.rid, 0, 8), mem_read(d.st, sret.rid, 8, 8)) if d.kind == "ret" else (None, None))
    else:
        for d in v.run(st, fn, args): yield d, *((d.val[0], d.val[1]) if d.kind == "ret" else (None, None))

def write_span_post(v, st, q, b, n, minsize, nonblocking, spec, w0, snap):
    """contract of write_span; returns list of (name, formula)"""
    empty = isinstance(b, int) and b == 0
    out = []
    if empty:
        out.append(("an empty span is returned only by a non-blocking request", z3.BoolVal(nonblocking)))
        out.append(("a request is dropped only if the space last seen free is insufficient", z3.ULT(bv(sub(q.g(st, "last"), w0)), bv(minsize))))
        out.append(("the free space was read afresh before dropping", q.g(st, "loaded")))
        out.append(("an empty span has size zero", eq(n, 0)))
    else:
        ok = isinstance(b, Ptr) and b.rid == q.buf
        out.append(("the span begins in the queue's memory", z3.BoolVal(ok)))
        if ok:
            out.append(("the span begins in the first copy at the writer's position", AND(z3.ULT(bv(b.off), bv(q.cap)), ((bv(w0) - bv(b.off)) & (bv(q.cap) - 1)) == 0)))
        out.append(("the span does not overlap unreleased or unacquired bytes", z3.ULE(bv(n), bv(sub(q.g(st, "acq"), w0)))))
        out.append(("the span lies within the space the writer has noted as free", z3.ULE(bv(n), bv(sub(mem_read(st, q.rid, q.base + v.off[q.P + "_wrnrpc"], 8), w0)))))
        out.append(("the span holds at least the requested size", z3.UGE(bv(n), bv(minsize))))
        if not spec: out.append(("the span is exactly the free space acquired from the reader", AND(eq(n, sub(q.g(st, "acq"), w0)), q.g(st, "loaded"))))
    out.append(("the published counter is unchanged", AND(eq(q.g(st, "w"), w0), eq(q.g(st, "pubs"), 0))))
    out.append(("exactly one drop is counted for a dropped request and none otherwise", q.drop_conserved(st, snap, 1 if empty else 0)))
    return out

def h_write_span(P, nb, spec, tags=None, gran=1):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "producer", gran=gran); v.rings = [q]
        fn = v.fn(cls(P, v) + f"write_span{'_spec' if spec else ''}<{tags or ('void (xtr::non_blocking_tag)' if nb else 'void ()')}>".replace("(", "\\(").replace(")", "\\)") + r"\(unsigned long\)")
        m = fresh("minsize"); st.assume(z3.ULE(m, bv(q.cap))); w0 = q.g(st, "w"); snap = q.drop_snapshot(st); noted = lambda t: bv(sub(mem_read(t, q.rid, q.base + v.off[P + "_wrnrpc"], 8), w0)); n0 = noted(st)
        for d, b, n in call_span(v, st, fn, [this, m]):
            if d.kind != "ret": v.fail(d.st, "write_span returns normally"); continue
            if isz(b): b = resolve(d.st, b)
            v.cover(d.st, "dropped" if isinstance(b, int) and b == 0 else "granted")
            for nm, f in write_span_post(v, d.st, q, b, n, m, nb, spec, w0, snap): v.oblige(d.st, f, "write_span: " + nm)
            v.oblige(d.st, z3.ULE(n0, noted(d.st)), "write_span: the space noted as free never shrinks")
            if gran > 1: v.oblige(d.st, (bv(n) & (gran - 1)) == 0, "write_span: the space offered is a multiple of the record alignment")
            for nm, f in q.inv(v, d.st): v.oblige(d.st, f, "write_span keeps: " + nm)
        need_covers(ctx, v, ["granted"] + (["dropped"] if nb else []))
    return run
for P in ("rb", "rd"):
    for nb in (0, 1):
        for sp in (0, 1):
            harness(f"ring.{P}.write_span{'.nb' if nb else ''}{'.spec' if sp else ''}", ("C01", "C05") )(h_write_span(P, nb, sp))
# the operations as log statements use them: every tag list, counters that are multiples of 8
for nb, tags in ((0, "void ()"), (1, "void (xtr::non_blocking_tag)"), (0, "void (xtr::timestamp_tag)"), (1, "void (xtr::non_blocking_tag, xtr::timestamp_tag)")):
    for sp in (0, 1):
        harness(f"ring.sink.write_span{'.nb' if nb else ''}{'.ts' if 'time' in tags else ''}{'.spec' if sp else ''}", ("C02", "C03", "C05"))(h_write_span("rb", nb, sp, tags, 8))

def h_reduce_writable(P):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "producer"); v.rings = [q]
        fn = v.fn(cls(P, v) + r"reduce_writable\(unsigned long\)")
        n = fresh("nbytes"); w0 = q.g(st, "w"); st.assume(z3.ULE(n, bv(sub(q.g(st, "acq"), w0)))); 
        o = v.off[P + "_wrnrpc"]; st.assume(z3.ULE(n, bv(sub(mem_read(st, this.rid, o, 8), w0)))); snap = q.drop_snapshot(st)
        for d in v.run(st, fn, [this, n]):
            if d.kind != "ret": v.fail(d.st, "reduce_writable returns normally"); continue
            v.cover(d.st, "published")
            v.oblige(d.st, eq(q.g(d.st, "w"), add(w0, n)), "reduce_writable: publishes exactly nbytes bytes")
            v.oblige(d.st, z3.UGE(bv(q.g(d.st, "pubs")), bv(1)), "reduce_writable: the counter is published")
            v.oblige(d.st, q.drop_conserved(d.st, snap, 0), "reduce_writable: no drop is counted")
            for nm, f in q.inv(v, d.st): v.oblige(d.st, f, "reduce_writable keeps: " + nm)
        need_covers(ctx, v, ["published"])
    return run
def h_read_span(P, const):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "consumer"); v.rings = [q]
        fn = v.fn(cls(P, v) + (r"read_span\(\) const" if const else r"read_span\(\)$"))
        rpc0 = q.g(st, "rpc"); r0 = sub(rpc0, q.cap); snap = q.drop_snapshot(st)
        for d, b, n in call_span(v, st, fn, [this]):
            if d.kind != "ret": v.fail(d.st, "read_span returns normally"); continue
            v.cover(d.st, "read")
            if isz(b): b = resolve(d.st, b)
            ok = isinstance(b, Ptr) and b.rid == q.buf
            v.oblige(d.st, z3.BoolVal(ok), "read_span: the span begins in the queue's memory")
            if ok: v.oblige(d.st, AND(z3.ULT(bv(b.off), bv(q.cap)), ((bv(r0) - bv(b.off)) & (bv(q.cap) - 1)) == 0), "read_span: the span begins in the first copy at the reader's position")
            v.oblige(d.st, eq(n, sub(q.g(d.st, "acq"), r0)), "read_span: the span is exactly the bytes acquired from the writer and not yet released")
            v.oblige(d.st, q.g(d.st, "loaded"), "read_span: reads the writer's counter afresh")
            v.oblige(d.st, AND(eq(q.g(d.st, "rpc"), rpc0), eq(q.g(d.st, "pubs"), 0)), "read_span: releases nothing")
            v.oblige(d.st, q.drop_conserved(d.st, snap, 0), "read_span: drop count unchanged")
            for nm, f in q.inv(v, d.st): v.oblige(d.st, f, "read_span keeps: " + nm)
        need_covers(ctx, v, ["read"])
    return run
def h_reduce_readable(P):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "consumer"); v.rings = [q]
        fn = v.fn(cls(P, v) + r"reduce_readable\(unsigned long\)")
        rpc0 = q.g(st, "rpc"); n = fresh("nbytes"); st.assume(z3.ULE(n, bv(sub(q.g(st, "acq"), sub(rpc0, q.cap))))); snap = q.drop_snapshot(st)
        for d in v.run(st, fn, [this, n]):
            if d.kind != "ret": v.fail(d.st, "reduce_readable returns normally"); continue
            v.cover(d.st, "released")
            v.oblige(d.st, eq(q.g(d.st, "rpc"), add(rpc0, n)), "reduce_readable: releases exactly nbytes bytes")
            v.oblige(d.st, z3.UGE(bv(q.g(d.st, "pubs")), bv(1)), "reduce_readable: the counter is published")
            v.oblige(d.st, q.drop_conserved(d.st, snap, 0), "reduce_readable: drop count unchanged")
            for nm, f in q.inv(v, d.st): v.oblige(d.st, f, "reduce_readable keeps: " + nm)
        need_covers(ctx, v, ["released"])
    return run
def h_dropped_count(P):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "consumer"); v.rings = [q]
        fn = v.fn(cls(P, v) + r"dropped_count\(\)")
        rpc0 = q.g(st, "rpc"); snap = q.drop_snapshot(st)
        for d in v.run(st, fn, [this]):
            if d.kind != "ret": v.fail(d.st, "dropped_count returns normally"); continue
            v.cover(d.st, "counted")
            v.oblige(d.st, q.drop_conserved(d.st, snap, d.val), "dropped_count: every drop is handed over exactly once")
            v.oblige(d.st, z3.Implies(eq(q.g(d.st, "T"), snap[1]), eq(d.val, snap[0])), "dropped_count: hands over all drops counted before the call")
            v.oblige(d.st, AND(eq(q.g(d.st, "rpc"), rpc0), eq(q.g(d.st, "pubs"), 0)), "dropped_count: releases nothing")
        need_covers(ctx, v, ["counted"])
    return run
def initial_post(v, st, P, rid, cap, buf):
    o = v.off; rd = lambda f: mem_read(st, rid, o[f"{P}_{f}"], 8)
    out = [("nothing published", eq(rd("nwritten"), 0)), ("nothing reserved", eq(rd("wrnwritten"), 0)), ("all space free for the writer", eq(rd("wrnrpc"), cap)),
           ("all space released by the reader", eq(rd("nrpc"), cap)), ("no drops", eq(rd("dropped"), 0))]
    if buf is not None:
        b = rd("wrbase")
        if isz(b): b = resolve(st, b)
        m = rd("mem")
        if isz(m): m = resolve(st, m)
        ok = lambda x: isinstance(x, Ptr) and x.rid == buf and isinstance(x.off, int) and x.off == 0
        out += [("the writer's base is the mapping", z3.BoolVal(ok(b))), ("the mapping is owned", z3.BoolVal(ok(m))), ("the length is the capacity", eq(rd("len"), cap))]
        if P == "rd": out.append(("the writer's capacity is the length", eq(rd("wrcapacity"), cap)))
    return out
def h_clear(P):
    def run(ctx):
        v, st, q, this = mk(ctx, P, "producer"); v.rings = []
        r = st.wregion(this.rid); r.shared = None    # clear runs while no other thread uses the queue
        fn = v.fn(cls(P, v) + r"clear\(\)")
        for d in v.run(st, fn, [this]):
            if d.kind != "ret": v.fail(d.st, "clear returns normally"); continue
            v.cover(d.st, "cleared")
            for nm, f in initial_post(v, d.st, P, this.rid, q.cap, q.buf): v.oblige(d.st, f, "clear: " + nm)
        need_covers(ctx, v, ["cleared"])
    return run
def h_ctor(P):
    def run(ctx):
        got = {}
        def h_mmm(ex, st, a, ins):
            """mirrored_memory_mapping(length, fd, offset, flags): verified by C16"""
            n = a[1]; page = 4096
            bad = (bv(n) & (page - 1)) != 0
            ex.oblige(st, AND(NOT(bad), bv(n) != 0), "mapping length is a non-zero multiple of the page size")
            s2 = st.fork()
            buf = new_region(st, "mapping", simp(bv(n) * 2), align=4096); st.g["$buf"] = buf.rid; st.g["cap"] = n
            mem_write(st, a[0].rid, add(a[0].off, 0), 8, Ptr(buf.rid, 0)); mem_write(st, a[0].rid, add(a[0].off, 8), 8, n)
            return [Ret(st, None), Throw(s2, Exc(set(), kind="mapping"))]
        def h_align(ex, st, a, ins):
            n = a[0]; r = simp((bv(n) + 4095) & ~z3.BitVecVal(4095, 64)); return r
        def h_dtor(ex, st, a, ins): return 0
        def h_mv(ex, st, a, ins):
            d, s = a
            for k in (0, 8): mem_write(st, d.rid, add(d.off, k), 8, mem_read(st, s.rid, add(s.off, k), 8))
            mem_write(st, s.rid, s.off, 8, 0)
            return d
        C = CONTRACTS_ENV + [(r"mirrored_memory_mapping::mirrored_memory_mapping\(unsigned long", h_mmm), (r"align_to_page_size", h_align), (r"mirrored_memory_mapping::~", h_dtor),
             (r"mirrored_memory_mapping::operator=\(", h_mv), (r"memory_mapping::memory_mapping\(\)", NotImplemented)]
        C = [c for c in C if c[1] is not NotImplemented]
        v = ctx.verifier("ring", C, None); st = State()
        obj = new_region(st, "ring", v.off[P + "_size"], align=64); this = Ptr(obj.rid, 0)
        fn = v.fn(cls(P, v) + r"synchronized_ring_buffer\(")
        if P == "rb": args = [this, fresh("fd", 32), fresh("off"), fresh("flags", 32)]
        else:
            m = fresh("min_capacity"); st.assume(z3.ULE(m, bv(1 << 40))); args = [this, m, fresh("fd", 32), fresh("off"), fresh("flags", 32)]
        for d in v.run(st, fn, args):
            if d.kind == "throw": v.cover(d.st, "mapping failed"); continue
            if d.kind != "ret": v.fail(d.st, "constructor returns or throws"); continue
            v.cover(d.st, "constructed")
            cap = d.st.g.get("cap", 0)
            v.oblige(d.st, pow2(cap), "constructor: the capacity is a power of two")
            if P == "rb": v.oblige(d.st, eq(cap, v.off["capacity"]), "constructor: the mapping has the static capacity")
            else: v.oblige(d.st, z3.UGE(bv(cap), m), "constructor: the capacity is at least the requested minimum")
            for nm, f in initial_post(v, d.st, P, obj.rid, cap, d.st.g["$buf"]): v.oblige(d.st, f, "constructor: " + nm)
        need_covers(ctx, v, ["constructed"])
    return run
for P in ("rb", "rd"):
    harness(f"ring.{P}.reduce_writable", ("C01", "C05") + (("C02",) if P == "rb" else ()), cost=20)(h_reduce_writable(P))
    harness(f"ring.{P}.read_span", ("C01",))(h_read_span(P, False))
    harness(f"ring.{P}.read_span_const", ("C01",))(h_read_span(P, True))
    harness(f"ring.{P}.reduce_readable", ("C01",))(h_reduce_readable(P))
    harness(f"ring.{P}.dropped_count", ("C01", "C05"))(h_dropped_count(P))
    harness(f"ring.{P}.clear", ("C01",))(h_clear(P))
    harness(f"ring.{P}.ctor", ("C01",))(h_ctor(P))

@harness("ring.lemma", ("C01",))
def lemma(ctx):
    """from the contracts: distinct stream positions inside one window of at most cap bytes occupy distinct bytes of the
    mapping, and the writer's span and the reader's span are disjoint"""
    cap, r, w, i, j = (z3.BitVec(x, 64) for x in ("cap", "r", "w", "i", "j"))
    base = [pow2(cap), z3.ULE(w - r, cap)]
    pos = lambda x: x & (cap - 1)
    ctx.lemma("published bytes i < j of the window occupy different bytes", z3.Implies(AND(z3.ULT(i, j), z3.ULT(j, w - r)), pos(r + i) != pos(r + j)), base)
    ctx.lemma("a byte offered to the writer is not an unreleased byte", z3.Implies(AND(z3.ULT(i, w - r), z3.ULT(j, cap - (w - r))), pos(r + i) != pos(w + j)), base)
    ctx.lemma("a contiguous span of at most cap bytes from the first copy stays inside the two copies", z3.Implies(AND(z3.ULE(i, cap), z3.ULE(cap, z3.BitVecVal(1 << 40, 64))), z3.ULE(pos(w) + i, 2 * cap)), base)
    ctx.lemma("byte i of a span from the first copy is the byte at stream position w+i (two identical copies)", z3.Implies(z3.ULT(i, cap), pos(pos(w) + i) == pos(w + i)), base)
