"""C19: timestamps.  Contracts: the user's clock (vp_now: any reading), clock_gettime, cpuid, rdtsc, gmtime_r, nanosleep, fmt::vformat_to."""
import z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.stdlib import set_errno
from irv import fmtmodel
UNITS = ["time"]
def sx(v, w=128): return z3.SignExt(w - 64, bv(v))
def h_gettime(ex, st, a, ins):
    """clock_gettime fills a normalised timespec"""
    p = ex.bounds(st, a[1], 16, "clock_gettime result", True); s, n = fresh("sec"), fresh("nsec")
    st.assume(AND(n >= 0, n < bv(1000000000), s >= 0, s < bv(1 << 33)))
    mem_write(st, p.rid, add(p.off, ex.off["tv_sec"]), 8, s); mem_write(st, p.rid, add(p.off, ex.off["tv_nsec"]), 8, n)
    st.g["gettime"] = add(st.g.get("gettime", 0), 1); st.g["gettime.id"] = a[0]; st.g["$gt"] = (s, n); return 0
def h_sleep(ex, st, a, ins):
    s2 = st.fork(); e = fresh("e", 32); set_errno(ex, s2, 4); return [Ret(st, 0), Ret(s2, mask(-1, 32))]
def h_rdtsc(ex, st, a, ins): return [fresh("tsc_lo", 32), fresh("tsc_hi", 32)]
def h_cpuid(ex, st, a, ins):
    if not isinstance(a[0], int): raise Unsupported("cpuid leaf")
    t = st.g.setdefault("$cpuid", {})
    if (a[0], a[1]) not in t: t = dict(t); t[(a[0], a[1])] = [fresh(f"cpuid{a[0]:x}_{r}", 32) for r in "abcd"]; st.g["$cpuid"] = t
    return list(t[(a[0], a[1])])
ASM = ((r"rdtsc", h_rdtsc), (r"cpuid", h_cpuid))
C = [(r"^clock_gettime$", h_gettime), (r"^nanosleep$|^clock_nanosleep$", h_sleep)]
def clock(name, per_sec):
    @harness("time.clock." + name, ("C19",))
    def h(ctx):
        now = fresh("now")
        def h_now(ex, st, a, ins): ex.oblige(st, eq(st.g["reads"], 0), "the clock is read once"); st.g["reads"] = add(st.g["reads"], 1); return now
        v = ctx.verifier("time", [(r"^vp_now$", h_now)] + C); st = State(); st.g["reads"] = 0
        # the instant must be representable as seconds plus nanoseconds in 64 bits (true of every std::chrono clock reading)
        st.assume(AND(now > bv(-(1 << 62)), now < bv(1 << 62)))
        out = new_region(st, "timespec", 16, align=8); l = new_region(st, "logger", 8, align=64)
        for d in v.run(st, v.fn(f"^vp_clock_{name}$"), [Ptr(l.rid, 0), Ptr(out.rid, 0)]):
            if d.kind != "ret": v.fail(d.st, "the clock call returns"); continue
            s, n = (mem_read(d.st, out.rid, v.off[k], 8) for k in ("tv_sec", "tv_nsec")); v.cover(d.st, "read")
            v.oblige(d.st, eq(d.st.g["reads"], 1), "the clock is read")
            v.oblige(d.st, AND(bv(n) >= 0, bv(n) < bv(1000000000)), "the nanosecond part is between 0 and 999,999,999")
            if per_sec <= 10**9:   # sec * P + nsec / (10^9/P) == now, exactly
                # equivalently, in 64 bits: the reading is s*P + r with 0 <= r < P, without overflow, and n == r*u
                u = 10**9 // per_sec; P = per_sec; lim = (1 << 62) // P + 1; r = bv(now) - bv(s) * bv(P)
                v.oblige(d.st, AND(bv(s) >= bv(-lim), bv(s) <= bv(lim), r >= 0, r < bv(P), bv(n) == r * bv(u)), "seconds and nanoseconds denote exactly the reading")
        need_covers(ctx, v, ["read"])
for nm, p in (("ns", 10**9), ("100ns", 10**7), ("us", 10**6), ("ms", 10**3), ("s", 1)): clock(nm, p)

# Intel SDM / turbostat.c: crystal frequency by model when CPUID does not enumerate it
CRYSTAL = {0x4e: 24, 0x5e: 24, 0x8e: 24, 0x9e: 24, 0xa6: 24, 0xa5: 24, 0x86: 25, 0x5f: 25, 0x5c: 19.2, 0x7a: 19.2}
@harness("time.read_hz", ("C19",))
def read_hz(ctx):
    v = ctx.verifier("time", C); v.asm_hooks = ASM; st = State(); st.g["$cpuid"] = {}
    for d in v.run(st, v.fn("^vp_read_hz$"), []):
        if d.kind != "ret": v.fail(d.st, "returns"); continue
        t = d.st.g["$cpuid"]; s = d.st; leaf = lambda k: t.get((k, 0)) or [fresh("unread", 32) for _ in range(4)]
        top = leaf(0)[0]; den, num, ccc, _ = leaf(0x15); f = leaf(1)[0]; v.cover(s, "determined")
        fam = z3.Extract(11, 8, f); model = z3.If(OR(fam == 6, fam == 15), z3.Concat(z3.BitVecVal(0, 24), z3.Extract(19, 16, f), z3.Extract(7, 4, f)), z3.Concat(z3.BitVecVal(0, 28), z3.Extract(7, 4, f)))
        hz = z3.BitVecVal(0, 32)
        for m, mhz in CRYSTAL.items(): hz = z3.If(model == m, z3.BitVecVal(int(mhz * 1000000), 32), hz)
        c = z3.If(ccc == 0, hz, ccc); z64 = lambda x: z3.ZeroExt(32, x)
        want = z3.If(OR(z3.ULT(top, 0x15), den == 0, c == 0), z3.BitVecVal(0, 64), z3.UDiv(z64(c) * z64(num), z64(den)))
        # the model table is Intel family 6; nothing is claimed about an inferred crystal of another family
        v.oblige(s, z3.Implies(OR(fam == 6, ccc != 0, den == 0, z3.ULT(top, 0x15)), bv(d.val) == want), "the frequency is crystal clock times ratio as enumerated by the processor, or 0 (unknown)")
    need_covers(ctx, v, ["determined"])
@harness("time.estimate_hz", ("C19",))
def estimate(ctx):
    v = ctx.verifier("time", C, lambda ex, st, f: LoopSpec(invs=[])); v.asm_hooks = ASM; st = State(); st.g["gettime"] = z3.BitVecVal(0, 64); st.g["gettime.id"] = fresh("id", 32); set_errno(v, st, 0)
    for d in v.run(st, v.fn("^vp_estimate_hz$"), []):
        if d.kind != "ret": v.fail(d.st, "returns"); continue
        v.cover(d.st, "estimated")
    need_covers(ctx, v, ["estimated"])
@harness("time.get_hz", ("C19",))
def get_hz(ctx):
    r, e = fresh("read"), fresh("estimate")
    v = ctx.verifier("time", [(r"^xtr::detail::read_tsc_hz\(\)", lambda ex, st, a, i: r), (r"^xtr::detail::estimate_tsc_hz\(\)", lambda ex, st, a, i: e)] + C); st = State()
    for d in v.run(st, v.fn("^vp_get_hz$"), []):
        v.oblige(d.st, bv(d.val) == z3.If(r != 0, r, e), "the enumerated frequency, or the estimate if there is none"); v.cover(d.st, "got")
    need_covers(ctx, v, ["got"])
def to_ts(first):
    def h(ctx):
        v = ctx.verifier("time", [(r"^xtr::detail::get_tsc_hz\(\)", lambda ex, st, a, i: fresh("hz"))] + C); v.asm_hooks = ASM; st = State(); st.g["gettime"] = z3.BitVecVal(0, 64)
        tls = [g for g in v.mods[0].globals if "to_timespec" in g and v.mods[0].global_init(g)[3]]
        if not first:
            for g in tls: mem_havoc(st, v.global_region(st, g))       # any earlier history of the thread
        out = new_region(st, "timespec", 16, align=8); t = fresh("ticks")
        for d in v.run(st, v.fn("^vp_to_timespec$"), [t, Ptr(out.rid, 0)]):
            if d.kind != "ret": v.fail(d.st, "returns"); continue
            n = mem_read(d.st, out.rid, v.off["tv_nsec"], 8); v.cover(d.st, "converted")
            v.oblige(d.st, AND(bv(n) >= 0, bv(n) < bv(1000000000)), "the nanosecond part is between 0 and 999,999,999")
            if first: v.oblige(d.st, AND(d.st.g["gettime"] == 1, eq(d.st.g["gettime.id"], v.off["clk_wall"], 32)) if "gettime.id" in d.st.g else z3.BoolVal(False), "the first conversion of a thread is anchored to the wall clock")
            else: v.oblige(d.st, z3.Implies(d.st.g["gettime"] != 0, eq(d.st.g.get("gettime.id", v.off["clk_wall"]), v.off["clk_wall"], 32)), "anchored to the wall clock")
        need_covers(ctx, v, ["converted"])
    return h
harness("time.tsc.first conversion", ("C19",))(to_ts(True)); harness("time.tsc.conversion", ("C19",))(to_ts(False))
@harness("time.tsc.now", ("C19",))
def now(ctx):
    lo, hi = fresh("lo", 32), fresh("hi", 32)
    v = ctx.verifier("time"); v.asm_hooks = ((r"rdtsc", lambda ex, st, a, i: [lo, hi]),); st = State()
    for d in v.run(st, v.fn("^vp_tsc_now$"), []): v.oblige(d.st, bv(d.val) == z3.Concat(hi, lo), "all 64 bits of the counter"); v.cover(d.st, "read")
    need_covers(ctx, v, ["read"])
@harness("time.get_time", ("C19",))
def get_time(ctx):
    v = ctx.verifier("time", C); st = State(); st.g["gettime"] = 0; out = new_region(st, "timespec", 16, align=8)
    for d in v.run(st, v.fn("^vp_get_time$"), [Ptr(out.rid, 0)]):
        s, n = d.st.g["$gt"]; v.oblige(d.st, AND(eq(mem_read(d.st, out.rid, v.off["tv_sec"], 8), s), eq(mem_read(d.st, out.rid, v.off["tv_nsec"], 8), n), eq(d.st.g["gettime.id"], v.off["clk_fast"], 32)), "the reading of the requested clock"); v.cover(d.st, "read")
    need_covers(ctx, v, ["read"])
@harness("time.format", ("C19",))
def fmt_ts(ctx):
    s0, n0 = fresh("sec"), fresh("nsec")
    def h_gm(ex, st, a, ins):
        """gmtime_r: broken-down UTC time of *a[0]"""
        p = ex.bounds(st, a[0], 8, "gmtime_r", False); q = ex.bounds(st, a[1], 56, "gmtime_r result", True)
        ex.oblige(st, eq(mem_read(st, p.rid, p.off, 8), s0), "broken down from the timestamp's seconds"); mem_havoc(st, q.rid, q.off, 56) if isz(q.off) else None
        for k in range(0, 56, 8): mem_write(st, q.rid, add(q.off, k), 8, fresh("tm"))
        st.g["$tm"] = q; return q
    def h_fmt(ex, st, a, ins):
        out, tp, tn, desc, vals = fmtmodel.sv_args(a); t = fmtmodel.text(ex, st, tp, tn); args = fmtmodel.decode(ex, st, desc, vals)
        if t not in (b"{:%Y-%m-%d %T}.{:06}", b"{:%F %T}.{:06}", b"{:%Y-%m-%d %H:%M:%S}.{:06}", b"{:%F %H:%M:%S}.{:06}") or len(args) != 2: raise Unsupported(f"timestamp format {t!r}")
        (t1, x1), (t2, x2) = args; g = st.g["$tm"]
        if t1 != "custom" or t2 not in ("long", "int", "ulong", "uint"): raise Unsupported("timestamp format arguments")
        same = isinstance(x1[0], Ptr) and x1[0].rid == g.rid and simp(eq(x1[0].off, g.off)) == 1
        if isinstance(x1[0], Ptr) and not same:
            same = AND(*[eq(mem_read(st, x1[0].rid, add(x1[0].off, k), 8), mem_read(st, g.rid, add(g.off, k), 8)) for k in range(0, 48, 8)])
        ex.oblige(st, zb(same) if not isinstance(same, bool) else z3.BoolVal(same), "date and time of day come from the timestamp's seconds")
        w = 32 if t2 in ("int", "uint") else 64; x = bv(x2, w); x = z3.SignExt(64 - w, x) if w < 64 else x
        ex.oblige(st, AND(x >= 0, x <= 999999, sx(x) * 1000 <= sx(n0), sx(n0) < sx(x) * 1000 + 1000), "six digits of microseconds of the timestamp"); ex.cover(st, "formatted"); st.g["n"] = add(st.g["n"], 1)
        return out
    v = ctx.verifier("time", [(r"^gmtime_r$", h_gm), (fmtmodel.VFORMAT, h_fmt)] + C); st = State(); st.g["n"] = 0; t = new_region(st, "ts", 16, align=8)
    st.assume(AND(n0 >= 0, n0 < bv(1000000000))); mem_write(st, t.rid, v.off["tv_sec"], 8, s0); mem_write(st, t.rid, v.off["tv_nsec"], 8, n0)
    for d in v.run(st, v.fn("^vp_fmt_ts$"), [Ptr(t.rid, 0)]):
        if d.kind != "ret": v.fail(d.st, "returns"); continue
        v.oblige(d.st, eq(d.st.g["n"], 1), "formatted once")
    need_covers(ctx, v, ["formatted"])
