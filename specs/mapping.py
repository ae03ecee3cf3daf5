"""C16: memory_mapping and mirrored_memory_mapping.  The address space is a list of range updates over symbolic addresses;
statements about "every address" are proved for one arbitrary address X.  mmap, munmap, mremap and sysconf are environment
contracts with success and every failure."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.stdlib import set_errno
UNITS = ["mapping"]
FAILED = mask(-1, 64)
def U(a, b): return z3.ULE(bv(a), bv(b))
def inr(x, b, n): return z3.ULT(bv(sub(x, b)), bv(n))
def isnt_failed(x): return bv(x) != bv(FAILED)
class Page:  # what an address maps to
    def __init__(s, ours, obj, off, shared, rw): s.ours = ours; s.obj = obj; s.off = off; s.shared = shared; s.rw = rw
B0 = z3.BoolVal(False); ANON = lambda k: z3.BitVecVal(k, 64)
def look(st, x):
    r = Page(B0, ANON(0), z3.BitVecVal(0, 64), B0, B0)
    for b, n, f in st.g["$maps"]:
        p = f(x); c = inr(x, b, n); r = Page(z3.If(c, p.ours, r.ours), z3.If(c, p.obj, r.obj), z3.If(c, p.off, r.off), z3.If(c, p.shared, r.shared), z3.If(c, p.rw, r.rw))
    return r
def update(st, b, n, f): st.g["$maps"] = st.g["$maps"] + ((b, n, f),)
def ours(st, x): return look(st, x).ours
def err(ex, st): e = fresh("errno", 32); st.assume(AND(e > 0, e < 4096)); set_errno(ex, st, e); st.g["errno"] = e
class Env:
    def __init__(s, ctx):
        C = [(r"^mmap(64)?$", s.mmap), (r"^munmap$", s.munmap), (r"^mremap$", s.mremap), (r"^sysconf$", s.sysconf)]
        s.v = v = ctx.verifier("mapping", C); s.st = st = State(); st.g["$maps"] = (); st.g["calls"] = 0
        s.page = fresh("page"); st.assume(AND((s.page & (s.page - 1)) == 0, U(4096, s.page), U(s.page, 1 << 30))); s.X = fresh("X")
    def sysconf(s, ex, st, a, ins):
        s2 = st.fork(); err(ex, s2); s2.g["failed"] = 1; return [Ret(st, s.page), Ret(s2, FAILED)]
    def fixed(s, ex, st, b, n, what):
        ex.oblige(st, IMP(inr(s.X, b, n), ours(st, s.X)), f"{what}: replaces only memory reserved for the mapping")
    def mmap(s, ex, st, a, ins):
        b, n, prot, fl, fd, off = a; v = s.v.off; st.g["calls"] += 1; st.g["$mmap"] = a
        s2 = st.fork(); err(ex, s2); s2.g["failed"] = 1
        has = lambda m: (bv(fl, 32) & m) != 0
        st.assume(AND(OR(has(v["ANON"]), bv(fd, 32) >= 0), bv(n) != 0, U(n, 1 << 46), OR(NOT(has(v["FIXED"])), (bv(b) & (s.page - 1)) == 0), (bv(off) & (s.page - 1)) == 0))
        fx = z3.simplify(has(v["FIXED"])); res = [Ret(s2, FAILED)]
        for cond, isf in ((fx, True), (z3.Not(fx), False)):
            if not ex.solver.feasible(st, cond): continue
            t = st.fork(); t.assume(cond); L = simp((bv(n) + s.page - 1) & ~(s.page - 1))
            if isf: r = b; s.fixed(ex, t, b, L, "mmap")
            else:
                r = fresh("mapped"); t.assume(AND((r & (s.page - 1)) == 0, U(4096, r), U(r, 1 << 46))); mp = t.g["$maps"]; t.assume(IMP(inr(s.X, r, L), NOT(ours(t, s.X))))
            k = t.g.get("nobj", 0) + 1; t.g["nobj"] = k; anon = has(v["ANON"]); sh = has(v["SHARED"]); rw = (bv(prot, 32) & v["PROT"]) == v["PROT"]
            update(t, r, L, lambda x, r=r, k=k, anon=anon, sh=sh, rw=rw: Page(z3.BoolVal(True), z3.If(anon, z3.BitVecVal(k, 64), z3.ZeroExt(32, bv(fd, 32)) + (1 << 40)), z3.If(anon, bv(sub(x, r)), bv(off) + bv(sub(x, r))), sh, rw))
            res.append(Ret(t, r))
        return res
    def munmap(s, ex, st, a, ins):
        b, n = a; st.g["calls"] += 1; L = simp((bv(n) + s.page - 1) & ~(s.page - 1))
        ex.oblige(st, IMP(inr(s.X, b, L), ours(st, s.X)), "munmap: unmaps only the mapping's own memory")
        update(st, b, L, lambda x: Page(B0, ANON(0), z3.BitVecVal(0, 64), B0, B0)); e = fresh("e", 32); set_errno(ex, st, e); return 0
    def mremap(s, ex, st, a, ins):
        old, oldn, n, fl = a[:4]; v = s.v.off; st.g["calls"] += 1; s2 = st.fork(); err(ex, s2); s2.g["failed"] = 1
        if not (isinstance(fl, int) and fl & v["RFIXED"] and len(a) > 4): raise Unsupported("mremap without a fixed target")
        ex.oblige(st, eq(oldn, 0), "mremap: the source view is kept"); ex.oblige(st, look(st, old).shared, "mremap: only a shared mapping can be duplicated")
        b = a[4]; st.assume((bv(b) & (s.page - 1)) == 0); L = simp((bv(n) + s.page - 1) & ~(s.page - 1)); s.fixed(ex, st, b, L, "mremap"); snap = st.g["$maps"]
        def at(x):
            q = State.__new__(State); q.g = {"$maps": snap}; p = look(q, add(old, sub(x, b))); return Page(z3.BoolVal(True), p.obj, p.off, p.shared, p.rw)
        update(st, b, L, at); return [Ret(st, b), Ret(s2, FAILED)]
    # objects
    def obj(s, name, size, off, mem, n):
        r = new_region(s.st, name, size, align=8); mem_write(s.st, r.rid, off + s.v.off["mm_mem"], 8, mem); mem_write(s.st, r.rid, off + s.v.off["mm_len"], 8, n); return Ptr(r.rid, 0)
    def get(s, st, p, off=0): return mem_read(st, p.rid, off + s.v.off["mm_mem"], 8), mem_read(st, p.rid, off + s.v.off["mm_len"], 8)
    def owned(s, name, mirrored=False):
        """an arbitrary object: owning nothing, or a range of pages (two of them, adjacent, for a mirrored mapping)"""
        m, n = fresh(name), fresh(name + "len"); st = s.st; k = 2 if mirrored else 1
        st.assume(IMP(m != FAILED, AND(U(4096, m), U(m, 1 << 46), U(n, 1 << 45), n != 0, (m & (s.page - 1)) == 0, (n & (s.page - 1)) == 0)))
        N = z3.If(m == FAILED, z3.BitVecVal(0, 64), n * k)
        st.assume(IMP(inr(s.X, m, N), NOT(ours(st, s.X))))       # objects own disjoint ranges
        for b2, n2 in getattr(s, "rng", []): st.assume(OR(N == 0, n2 == 0, z3.UGE(m, b2 + n2), z3.UGE(b2, m + N)))
        s.rng = getattr(s, "rng", []) + [(m, N)]
        j = len(s.rng)
        update(st, m, N, lambda x, m=m, n=n, j=j: Page(z3.BoolVal(True), z3.BitVecVal(1000 + j, 64), z3.If(z3.ULT(bv(sub(x, m)), n), bv(sub(x, m)), bv(sub(x, m)) - n), z3.BoolVal(True), z3.BoolVal(True)))
        return m, n
    def own(s, x, m, n, k=1): return AND(bv(m) != bv(FAILED), inr(x, m, bv(n) * k))
    def exact(s, t, objs, k, what):
        """what is mapped is exactly what the objects own"""
        s.v.oblige(t, ours(t, s.X) == OR(*[s.own(s.X, *s.get(t, p, o), k) for p, o in objs]) if objs else NOT(ours(t, s.X)), what)
def init_covers(v, t, p): v.cover(t, "returned")
def op(name, fn, kind, nobj, args, post, new=False):
    @harness(f"map.{'mirrored' if kind == 'mir' else 'plain'}.{name}", ("C16",))
    def h(ctx):
        e = Env(ctx); v = e.v; st = e.st; mi = kind == "mir"; off = v.off["mir_m"] if mi else 0; k = 2 if mi else 1
        vals = [e.owned(f"m{i}", mi) for i in range(nobj)]; ps = [e.obj(f"obj{i}", v.off[kind + "_size"], off, *vals[i]) for i in range(nobj)]
        if new: ps.insert(0, Ptr(new_region(st, "new", v.off[kind + "_size"], align=8).rid, 0)); vals.insert(0, None)
        av = args(e, st, ps) if args else list(ps)
        for d in v.run(st, v.fn(f"^vp_{kind}_{fn}$"), av):
            if d.kind != "ret": v.fail(d.st, f"{name} returns normally"); continue
            v.cover(d.st, "returned"); t = d.st
            for nm, f in post(e, t, vals, [e.get(t, p, off) for p in ps], d.val, [(p, off) for p in ps], k): v.oblige(t, f, f"{name}: {nm}")
        need_covers(ctx, v, ["returned"])
def quiet(t): return ("no system call", z3.BoolVal(t.g["calls"] == 0))
def same(a, b): return AND(bv(a[0]) == bv(b[0]), OR(bv(a[0]) == FAILED, bv(a[1]) == bv(b[1])))
def exactly(e, t, objs, k): return ("exactly what the objects own stays mapped", ours(t, e.X) == (OR(*[e.own(e.X, *e.get(t, p, o), k) for p, o in objs]) if objs else B0))
for K in ("mm", "mir"):
    op("default", "default", K, 0, None, lambda e, t, v, n, r, o, k: [("owns nothing", bv(n[0][0]) == FAILED), quiet(t)], True)
    op("move construction", "move", K, 1, None, lambda e, t, v, n, r, o, k: [("takes the source's mapping", same(n[0], v[1])), ("leaves the source empty", bv(n[1][0]) == FAILED), quiet(t)], True)
    op("move assignment", "assign", K, 2, None, lambda e, t, v, n, r, o, k: [("takes the source's mapping", same(n[0], v[1])), exactly(e, t, o, k), ("no mapping is owned twice", NOT(AND(*[e.own(e.X, *x, k) for x in n])))])
    op("self move assignment", "assign", K, 1, lambda e, st, ps: [ps[0], ps[0]], lambda e, t, v, n, r, o, k: [("keeps its mapping", same(n[0], v[0])), exactly(e, t, o, k)])
    op("destruction", "dtor", K, 1, None, lambda e, t, v, n, r, o, k: [exactly(e, t, [], k)])
    op("get", "get", K, 1, None, lambda e, t, v, n, r, o, k: [("returns the address", bv(addr(t, r)) == v[0][0]), quiet(t)])
    op("length", "length", K, 1, None, lambda e, t, v, n, r, o, k: [("returns the length", bv(r) == v[0][1]), quiet(t)])
    op("bool", "bool", K, 1, None, lambda e, t, v, n, r, o, k: [("true exactly if a mapping is owned", zb(r) == isnt_failed(v[0][0])), quiet(t)])
op("const get", "cget", "mm", 1, None, lambda e, t, v, n, r, o, k: [("returns the address", bv(addr(t, r)) == v[0][0]), quiet(t)])
op("release", "release", "mm", 1, None, lambda e, t, v, n, r, o, k: [("owns nothing afterwards", bv(n[0][0]) == FAILED), quiet(t)])
op("swap", "swap", "mm", 2, None, lambda e, t, v, n, r, o, k: [("exchanges the mappings", AND(same(n[0], v[1]), same(n[1], v[0]))), quiet(t)])
op("reset to nothing", "reset0", "mm", 1, None, lambda e, t, v, n, r, o, k: [exactly(e, t, [], k), ("owns nothing", bv(n[0][0]) == FAILED)])
def a_reset(e, st, ps): m, n = e.owned("given"); st.g["$given"] = (m, n); return [ps[0], m, n]
op("reset", "reset", "mm", 1, a_reset, lambda e, t, v, n, r, o, k: [("owns the given mapping", same(n[0], t.g["$given"])), exactly(e, t, o, k)])

@harness("map.plain.construction", ("C16",))
def mm_map(ctx):
    e = Env(ctx); v = e.v; st = e.st; p = Ptr(new_region(st, "new", v.off["mm_size"], align=8).rid, 0)
    a = [fresh("addr"), fresh("len"), fresh("prot", 32), fresh("flags", 32), fresh("fd", 32), fresh("off")]; st.assume((a[3] & v.off["FIXED"]) == 0)
    for d in v.run(st, v.fn("^vp_mm_map$"), [p] + a):
        t = d.st
        v.oblige(t, z3.BoolVal(t.g["calls"] == 1 and "$mmap" in t.g), "one mapping is requested")
        if "$mmap" in t.g: v.oblige(t, AND(*[bv(x, y.size()) == y for x, y in zip(t.g["$mmap"], a)]), "the mapping requested is the one asked for")
        if d.kind == "throw": v.cover(t, "failed"); failed(v, t, d.val); v.oblige(t, NOT(ours(t, e.X)), "failure leaves nothing mapped")
        else: v.cover(t, "mapped"); v.oblige(t, z3.BoolVal("failed" not in t.g), "a failing call is reported"); m, n = e.get(t, p); v.oblige(t, eq(n, a[1]), "the length is recorded"); v.oblige(t, IMP(e.own(e.X, m, n), ours(t, e.X)), "owns what was mapped")
    need_covers(ctx, v, ["failed", "mapped"])
def failed(v, t, x):
    v.oblige(t, z3.BoolVal("failed" in t.g and x.kind == "system_error"), "an error is raised only if a system call failed")
    if "failed" in t.g and x.kind == "system_error": v.oblige(t, eq(x.errnum, t.g["errno"], 32), "the error carries the call's error number")
def construct(withfd):
    @harness("map.mirrored.construction" + (".fd" if withfd else ""), ("C16",))
    def h(ctx):
        e = Env(ctx); v = e.v; st = e.st; p = Ptr(new_region(st, "new", v.off["mir_size"], align=8).rid, 0); off = v.off["mir_m"]; o = v.off
        L, fd, of, fl = fresh("len"), fresh("fd", 32), fresh("off"), fresh("flags", 32); st.assume((fl & (o["FIXED"] | o["PRIVATE"])) == 0)
        if withfd: st.assume(AND(fd >= 0, (fl & o["ANON"]) == 0))
        else: st.assume(fd == -1)
        i = fresh("i"); st.assume(z3.ULT(i, L)); st.assume(e.X == e.X)
        for d in v.run(st, v.fn("^vp_mir_map$"), [p, L, fd, of, fl]):
            t = d.st; bad = (L & (e.page - 1)) != 0
            if d.kind == "throw":
                v.oblige(t, NOT(ours(t, e.X)), "a failed construction leaves nothing mapped")
                if d.val.kind == "invalid_argument": v.cover(t, "rejected"); v.oblige(t, AND(bad, z3.BoolVal(t.g["calls"] == 0)), "only a length that is not a multiple of the page size is rejected")
                else: v.cover(t, "failed"); failed(v, t, d.val)
                continue
            v.cover(t, "mapped"); A, n = e.get(t, p, off); A = addr(t, A) if isinstance(A, Ptr) else A
            v.oblige(t, z3.BoolVal("failed" not in t.g), "a failing call is reported")
            v.oblige(t, NOT(bad), "other lengths are rejected"); v.oblige(t, eq(n, L), "the length is the one asked for")
            v.oblige(t, ours(t, e.X) == inr(e.X, A, 2 * L), "exactly two adjacent views of the length are mapped")
            x, y = look(t, add(A, i)), look(t, add(add(A, L), i))
            v.oblige(t, AND(x.obj == y.obj, x.off == y.off), "byte i and byte i + length are the same memory")
            v.oblige(t, AND(x.shared, y.shared), "both views are shared"); v.oblige(t, AND(x.rw, y.rw), "both views can be read and written")
            if withfd: v.oblige(t, AND(x.obj == z3.ZeroExt(32, fd) + (1 << 40), x.off == of + i), "the views show the given descriptor's memory at the given offset")
        need_covers(ctx, v, ["rejected", "failed", "mapped"])
construct(False); construct(True)
@harness("map.page", ("C16", "C01"))
def page(ctx):
    e = Env(ctx); v = e.v; st = e.st; n = fresh("n"); st.assume(U(n, 1 << 62))
    for d in v.run(st, v.fn("^vp_page$"), [n]):
        t = d.st
        if d.kind == "throw": v.cover(t, "failed"); failed(v, t, d.val); continue
        v.cover(t, "rounded"); v.oblige(t, AND((bv(d.val) & (e.page - 1)) == 0, U(n, d.val), z3.ULT(bv(sub(d.val, n)), e.page)), "rounds up to the next multiple of the page size")
    need_covers(ctx, v, ["failed", "rounded"])
