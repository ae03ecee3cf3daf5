"""C12: log statements are emitted exactly when their level permits (every macro family, every level); C05: TRY macros never block.
Callees under contract: sink::log (verified by C02/C03), sink::sync (C07), abort, the clocks."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv import strmodel
UNITS = ["macros"]
LEVELS = ["none", "fatal", "error", "warning", "info", "debug"]     # documented order of importance
FAMS = [t + "LOG" + l + s for t in ("", "TRY_") for l in ("", "L") for s in ("", "_TS", "_RTC", "_TSC")]
def split_args(s):
    """top level template arguments of `name<...>`"""
    out = []; d = 0; cur = ""
    for c in s:
        if c in "<([{": d += 1
        if c in ">)]}": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()]
def log_targs(dname):
    m = re.search(r"xtr::sink::log(_impl)?<", dname); i = m.end(); d = 1; j = i
    while d:
        c = dname[j]
        if c in "<([{": d += 1
        elif c in ">)]}": d -= 1
        j += 1
    return split_args(dname[i:j - 1])
def h_log(ex, st, a, ins):
    fn = ins.x["callee"].v if hasattr(ins.x["callee"], "v") else None
    t = log_targs(fn.dname)
    lv = int(re.match(r"\(xtr::log_level_t\)(\d+)", t[1])[1]); tags = t[2] if len(t) > 2 else "void ()"
    ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == st.g["$sink"] and a[0].off == 0), "logs to the given sink")
    ex.oblige(st, NOT(OR(st.g["logged"], st.g["synced"], st.g["aborted"])), "one record, before any synchronisation")
    ex.oblige(st, z3.BoolVal(lv == st.g["$lv"]), "the record carries the statement's level")
    nb = "non_blocking_tag" in tags; ts = "timestamp_tag" in tags
    ex.oblige(st, z3.BoolVal(nb == st.g["$nb"]), "non-blocking exactly for the TRY macros"); ex.oblige(st, z3.BoolVal(ts == st.g["$ts"]), "timestamped exactly for the TS, RTC and TSC macros")
    ex.oblige(st, z3.BoolVal(len(a) == 1 + 2 + int(ts)), "passes every argument")
    for k, want in enumerate(([st.g["$tsv"]] if ts else []) + [101, 202]):
        p = a[1 + k] if len(a) > 1 + k else None
        x = p
        if isinstance(p, Ptr): x = mem_read(st, p.rid, p.off, 4 if want in (101, 202) else 8)
        ex.oblige(st, eq(x, want, 32 if want in (101, 202) else 64) if isinstance(x, int) or isz(x) else z3.BoolVal(False), f"argument {k} is the value of its expression")
    st.g["logged"] = z3.BoolVal(True); return 0
def h_arg(ex, st, a, ins):
    ex.oblige(st, NOT(st.g[f"arg{a[0]}"]), "an argument is evaluated once"); st.g[f"arg{a[0]}"] = z3.BoolVal(True); return 101 if a[0] == 1 else 202
def clock(kind):
    def h(ex, st, a, ins):
        ex.oblige(st, z3.BoolVal(st.g["$clock"] == kind), "the clock of the macro is read"); ex.oblige(st, NOT(st.g["ts"]), "the timestamp is taken once"); st.g["ts"] = z3.BoolVal(True)
        if ins.ty.kind == "void": mem_write(st, a[0].rid, a[0].off, 8, 777); return 0
        return [777, 0] if ins.ty.kind == "struct" else 777
    return h
def h_sync(ex, st, a, ins):
    ex.oblige(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == st.g["$sink"]), "synchronises the given sink"); st.g["synced"] = z3.BoolVal(True); return 0
def h_abort(ex, st, a, ins):
    st.g["aborted"] = z3.BoolVal(True); st.g["$end"] = "abort"; return Stop(st, "abort")
C = [(r"xtr::sink::log(_impl)?<", h_log), (r"^vp_arg$", h_arg), (r"^vp_ts$", clock("TS")), (r"xtr::detail::get_time<", clock("RTC")), (r"^xtr::detail::tsc::now\(\)", clock("TSC")), (r"^xtr::sink::sync\(\)$", h_sync), (r"^abort$", h_abort)]
def one(ctx, fn, fam, level, nd):
    v = ctx.verifier("macros", C); st = State(); o = v.off
    s = new_region(st, "sink", o["sink_size"], align=64); lvl = fresh("level", 32); mem_write(st, s.rid, o["level"], 4, lvl)
    st.assume(AND(lvl >= 0, lvl <= 5))
    leveled = "LOGL" in fam; L = LEVELS.index(level)
    g = st.g; g.update({"$sink": s.rid, "$lv": L, "$nb": fam.startswith("TRY_"), "$ts": fam[-3:] in ("_TS", "RTC", "TSC"), "$clock": fam.split("_")[-1], "$tsv": 777, "$end": None})
    for k in ("logged", "synced", "aborted", "arg1", "arg2", "ts"): g[k] = z3.BoolVal(False)
    off = nd and level == "debug"
    want = z3.BoolVal(not off) if not leveled else AND(lvl >= L, z3.BoolVal(not off))
    for d in v.run(st, v.fn(f"^{fn}$"), [Ptr(s.rid, 0)]):
        if d.kind == "throw": v.fail(d.st, "the statement does not throw by itself"); continue
        s_ = d.st; G = s_.g; nm = fam + "(" + level + ")"
        v.oblige(s_, G["logged"] == want, f"{nm}: emitted exactly when the level permits")
        v.oblige(s_, AND(G["arg1"] == G["logged"], G["arg2"] == G["logged"], G["ts"] == AND(G["logged"], z3.BoolVal(g["$ts"]))), f"{nm}: arguments are evaluated exactly when it is emitted")
        fatal = leveled and level == "fatal"
        v.oblige(s_, AND(G["synced"] == z3.BoolVal(fatal), G["aborted"] == z3.BoolVal(fatal)), f"{nm}: {'synchronises and terminates' if fatal else 'neither synchronises nor terminates'}")
        v.cover(s_, fn + " ends")
    need_covers(ctx, v, [fn + " ends"])
for _f in FAMS:
    def mk(f):
        @harness("macro." + f, ("C12", "C05") if f.startswith("TRY") else ("C12",))
        def h(ctx):
            if "LOGL" not in f: return one(ctx, "vp_" + f, f, "info", False)
            for l in LEVELS[1:]:
                one(ctx, f"vp_{f}__{l}", f, l, False); one(ctx, f"vp_nd_{f}__{l}", f, l, True)
    mk(_f)
@harness("level.order", ("C12",))
def order(ctx):
    v = ctx.verifier("macros")
    for k, l in enumerate(LEVELS): ctx.lemma(f"level {l} has its documented rank", z3.BoolVal(v.off[l] == k))
@harness("level.accessors", ("C12",))
def acc(ctx):
    v = ctx.verifier("macros"); o = v.off
    st = State(); s = new_region(st, "sink", o["sink_size"], align=64); x = fresh("lv", 32); mem_write(st, s.rid, o["level"], 4, x)
    def shared(ex, st, p, n):
        if p.off != o["level"]: return lambda ex, st, kind, order, n, v: (ex.fail(st, "touches only the level"), fresh("x", 8 * n))[1]
        def h(ex, st, kind, order, n, v):
            if order == "na": ex.fail(st, "the level is accessed atomically")
            if kind == "load": return mem_read(st, p.rid, p.off, n)
            if kind in ("store", "rmw:xchg"): old = mem_read(st, p.rid, p.off, n); mem_write(st, p.rid, p.off, n, v); return old
            raise Unsupported(kind)
        return h
    st.wregion(s.rid).shared = shared
    for d in v.run(st.fork(), v.fn("^vp_level$"), [Ptr(s.rid, 0)]): v.oblige(d.st, eq(d.val, x, 32), "level() returns the stored level"); v.cover(d.st, "got")
    y = fresh("new", 32)
    for d in v.run(st.fork(), v.fn("^vp_set_level$"), [Ptr(s.rid, 0), y]): v.oblige(d.st, eq(mem_read(d.st, s.rid, o["level"], 4), y, 32), "set_level() stores the level"); v.cover(d.st, "set")
    need_covers(ctx, v, ["got", "set"])
def literal(v, st, p):
    b = bytearray()
    p = resolve(st, p) if isz(p) else p
    while True:
        c = mem_read(st, p.rid, p.off + len(b), 1)
        if not isinstance(c, int): raise Unsupported("style text is not a literal")
        if c == 0: return bytes(b)
        b.append(c)
def style(fn, table):
    @harness("level." + fn, ("C12",))
    def h(ctx):
        v = ctx.verifier("macros"); st = State(); l = fresh("level", 32); seen = set()
        for d in v.run(st, v.fn(f"^vp_{fn}$"), [l]):
            if d.kind != "ret": v.fail(d.st, "returns"); continue
            t = literal(v, d.st, d.val); seen.add(t)
            for k, name in enumerate(LEVELS): v.oblige(d.st, z3.Implies(l == k, z3.BoolVal(t == table.get(name, b""))), f"{fn} style of {name} is {table.get(name, b'')!r}")
            v.oblige(d.st, z3.Implies(OR(l < 0, l > 5), z3.BoolVal(t == b"")), "other values have no prefix"); v.cover(d.st, "styled")
        need_covers(ctx, v, ["styled"])
style("default", dict(fatal=b"F ", error=b"E ", warning=b"W ", info=b"I ", debug=b"D "))
style("systemd", dict(fatal=b"<0>", error=b"<3>", warning=b"<4>", info=b"<6>", debug=b"<7>"))
@harness("level.from_string", ("C12",))
def from_string(ctx):
    v = ctx.verifier("macros"); st = State(); n = fresh("n"); st.assume(z3.ULE(n, bv(1 << 40)))
    def h_cmp(ex, st, a, ins):
        """memcmp/char_traits::compare against a literal, lengths already equal"""
        m = a[2]
        if not isinstance(m, int):
            for k in range(0, 16):
                if ex.solver.must(st, m == k): m = k; break
        from irv.stdlib import h_memcmp
        return h_memcmp(ex, st, [a[0], a[1], m], ins)
    v.contracts.insert(0, (r"^std::char_traits<char>::compare\(|^memcmp$|^__builtin_memcmp$", h_cmp))
    s = new_region(st, "name", n, align=1, arr=fresh_arr("name")); c = lambda S, k: bv(read_byte(S, s.rid, k), 8)
    for d in v.run(st, v.fn("^vp_from_string$"), [n, Ptr(s.rid, 0)]):
        S = d.st; is_ = {l: AND(n == len(l), *[c(S, k) == ord(ch) for k, ch in enumerate(l)]) for l in LEVELS}
        if d.kind == "ret":
            v.cover(S, "accepted"); v.oblige(S, OR(*[AND(is_[l], eq(d.val, k, 32)) for k, l in enumerate(LEVELS)]), "a name maps to its level and nothing else is accepted")
        else:
            v.cover(S, "rejected"); v.oblige(S, NOT(OR(*is_.values())), "every level name is accepted"); v.oblige(S, z3.BoolVal(d.kind == "throw" and "_ZTISt16invalid_argument" in d.val.types), "rejected with invalid_argument")
    need_covers(ctx, v, ["accepted", "rejected"])
