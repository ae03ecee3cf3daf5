"""C23: the default command path.  Texts are compared byte by byte at an arbitrary index; the decimal form of a number is an
arbitrary non-empty text of at most 20 characters that depends on the number only."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, get as str_get
from irv.stdlib import h_strlen, set_errno
from irv import strmodel
UNITS = ["paths"]
B = z3.BoolVal
class Env:
    def __init__(s, v, st):
        s.v = v; st.g.update({"$decs": [], "$nonul": (), "$snp": {}, "$got": []})
    def lit(s, st, t):
        r = new_region(st, "lit", len(t) + 1, align=1)
        for k, c in enumerate(t.encode() + b"\0"): mem_write(st, r.rid, k, 1, c)
        return Ptr(r.rid, 0), len(t)
    def dec(s, st, x):
        """decimal text of the 64-bit value x"""
        x = bv(x)
        for y, p, n in st.g["$decs"]:
            if s.v.solver.must(st, x == y): return p, n
        n = fresh("ndigits"); st.assume(AND(z3.UGE(n, bv(1)), z3.ULE(n, bv(20)))); r = new_region(st, "digits", 21, align=1, arr=fresh_arr("digits")); st.g["$decs"] = st.g["$decs"] + [(x, Ptr(r.rid, 0), n)]; return Ptr(r.rid, 0), n
    def join(s, st, pieces, name):
        n = 0
        for _, k in pieces: n = add(n, k)
        r = new_region(st, name, add(n, 1), align=1, kind="heap"); at = 0
        for p, k in pieces:
            if not (isinstance(k, int) and k == 0): mem_copy(st, r.rid, at, p.rid, p.off, k)
            at = add(at, k)
        mem_write(st, r.rid, n, 1, 0); return Ptr(r.rid, 0), n
    def same(s, st, p, n, q, m):
        i = fresh("i"); return AND(eq(n, m), z3.Implies(z3.ULT(i, bv(m)), bv(read_byte(st, p.rid, add(p.off, i)), 8) == bv(read_byte(st, q.rid, add(q.off, i)), 8)))
    def strlen(s, ex, st, a, ins):
        p = a[0]; k = st.g["$snp"].get((p.rid, p.off if isinstance(p.off, int) else None)) if isinstance(p, Ptr) else None
        if k is not None: return k
        r = st.mem[p.rid] if isinstance(p, Ptr) else None
        if r is not None and r.tag and r.tag[0] == "str" and p.off == 0 and r.rid in st.g["$nonul"]: return r.tag[1]
        return h_strlen(ex, st, a, ins)
    def snprintf(s, ex, st, a, ins):
        buf, size, fmt = a[:3]; args = list(a[3:]); n = h_strlen(ex, st, [fmt], ins)
        if not isinstance(n, int): raise Unsupported("format of snprintf")
        f = bytes(mem_read(st, fmt.rid, add(fmt.off, k), 1) for k in range(n)).decode(); pieces = []
        for t in re.findall(r"%%|%[-+ #0-9.]*(?:l{0,2}|z|h{0,2})[a-zA-Z]|[^%]+|%", f):
            if t == "%%": pieces.append(s.lit(st, "%"))
            elif t[0] != "%": pieces.append(s.lit(st, t))
            else:
                m = re.match(r"^%(l{0,2}|z)([dus])$", t)
                if not m: raise Unsupported("snprintf conversion " + t)
                if not args: ex.fail(st, "snprintf: an argument for every conversion"); return Stop(st, "snprintf")
                x = args.pop(0)
                if m[2] == "s":
                    if isinstance(x, int) and x == 0: ex.fail(st, "snprintf: %s is given a string"); return Stop(st, "snprintf")
                    pieces.append((x, s.strlen(ex, st, [x], ins)))
                else:
                    if m[1] == "": x = bv(x, 32) if isz(x) or isinstance(x, int) else x; x = x if x.size() == 32 else z3.Extract(31, 0, x); x = simp(z3.SignExt(32, x) if m[2] == "d" else z3.ZeroExt(32, x))
                    pieces.append(s.dec(st, x))
        t, n = s.join(st, pieces, "formatted")
        size = bv(size); b = ex.bounds(st, buf, size, "snprintf buffer", True)
        ex.oblige(st, size != 0, "snprintf: room for the terminator")
        k = simp(z3.If(z3.ULT(bv(n), size), bv(n), size - 1)); mem_copy(st, b.rid, b.off, t.rid, 0, k); mem_write(st, b.rid, add(b.off, k), 1, 0)
        st.g["$snp"] = {**st.g["$snp"], (b.rid, b.off): k}
        return simp(z3.Extract(31, 0, bv(n)))
@harness("command path", ("C23",))
def path(ctx):
    ctx.extra_assume += ["getenv, geteuid, getpid, access, snprintf and std::to_string behave as documented; the decimal forms of two numbers are equal exactly when the numbers are", "other threads change the counter only through this function"]
    def h_getenv(ex, st, a, ins):
        n = h_strlen(ex, st, a, ins); name = bytes(mem_read(st, a[0].rid, add(a[0].off, k), 1) for k in range(n)).decode()
        if name not in st.g["$env"]: raise Unsupported("getenv " + name)
        return st.g["$env"][name]
    E = {}
    def h_access(ex, st, a, ins):
        e = E["e"]; p = a[0]
        ex.oblige(st, eq(a[1], ex.off["w_ok"], 32), "the directory is tested for being writable"); q, m = E["run"](st)
        ex.oblige(st, e.same(st, p, e.strlen(ex, st, [p], ins), q, m), "the directory tested is the run-time directory")
        s2 = st.fork(); st.g["ok"] = B(True); s2.g["ok"] = B(False); st.g["asked"] = s2.g["asked"] = B(True); ex.cover(st, "asked"); er = fresh("e", 32); set_errno(ex, s2, er)
        return [Ret(st, 0), Ret(s2, mask(-1, 32))]
    def h_cstr(ex, st, a, ins): return str_get(ex, st, a[0])[0]
    def h_fromc(ex, st, a, ins):
        n = E["e"].strlen(ex, st, [a[1]], ins); strmodel.copy_to(ex, st, a[0], a[1], n); d, _ = str_get(ex, st, a[0]); st.g["$nonul"] = st.g["$nonul"] + (d.rid,); return 0
    def h_assign(ex, st, a, ins):
        n = E["e"].strlen(ex, st, [a[1]], ins); strmodel.copy_to(ex, st, a[0], a[1], n); d, _ = str_get(ex, st, a[0]); st.g["$nonul"] = st.g["$nonul"] + (d.rid,); return a[0]
    S = strmodel.S
    def h_tostr(ext):
        def h(ex, st, a, ins):
            x = a[1]; x = bv(x, 32) if isinstance(x, int) else x
            if x.size() == 32: x = simp(ext(32, x))
            p, n = E["e"].dec(st, x); strmodel.copy_to(ex, st, a[0], p, n); d, _ = str_get(ex, st, a[0]); st.g["$nonul"] = st.g["$nonul"] + (d.rid,); return 0
        return h
    v = ctx.verifier("paths", [(r"^getenv$|^secure_getenv$", h_getenv), (r"^access$", h_access), (r"^strlen$", lambda *a: E["e"].strlen(*a)), (r"^snprintf$", lambda *a: E["e"].snprintf(*a)),
      (r"^geteuid$", lambda ex, st, a, i: st.g["$uid"]), (r"^getpid$", lambda ex, st, a, i: st.g["$pid"]),
      (rf"^{S}::(c_str|data)\(\) const$", h_cstr), (rf"^{S}::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)( requires.*)?$", h_fromc), (rf"^{S}::operator=\(char const\*\)$", h_assign),
      (r"^std::__cxx11::to_string\((int|long)\)$", h_tostr(z3.SignExt)), (r"^std::__cxx11::to_string\(unsigned (int|long)\)$", h_tostr(z3.ZeroExt))] + STR)
    st = State(); e = E["e"] = Env(v, st); set_errno(v, st, fresh("e0", 32)); st.g["$uid"] = fresh("uid", 32); st.g["$pid"] = pid = fresh("pid", 32); st.assume(pid > 0)
    pid64 = simp(z3.SignExt(32, pid)); uid64 = simp(z3.ZeroExt(32, st.g["$uid"])); st.g.update({"asked": B(False), "ok": B(False)})
    m = v.mods[0]; cells = []
    for name in m.globals:
        if name.startswith((".str", "VP_", "_ZTV", "_ZTI", "_ZTS", "__", "_ZSt", "_ZNSt", "llvm.", "_ZZNSt")): continue
        ty, init, ro, tls = m.global_init(name)
        if ro or init is None or ty.size not in (1, 2, 4, 8): continue
        rid = v.global_region(st, name); zero = mem_read(st, rid, 0, ty.size)
        def sh(ex, q, p, n, tls=tls, zero=zero):
            def h(ex, q, kind, order, n, x):
                W = 8 * n; ex.oblige(q, B(order != "na" and not tls), "the counter, which any thread may use, is accessed atomically")
                ex.oblige(q, eq(zero, 0, W), "counting starts at 0")
                old = fresh("count", W)
                if kind == "load": return old
                if kind == "rmw:add": q.g["$got"] = q.g["$got"] + [(B(True), old, x)]; return old
                if kind == "cmpxchg":
                    ok = fresh("won", 1) == 1; q.assume(z3.Implies(ok, old == bv(x[0], W))); q.g["$got"] = q.g["$got"] + [(ok, old, sub(x[1], old, W))]; return old, ok
                ex.fail(q, "the counter changes only by atomic increments"); return old
            return h
        st.wregion(rid).shared = sh; v.gl_proto[name] = st.mem[rid].copy(None); cells.append(name)
    out = new_region(st, "out", 32, align=8)
    for xdg in (0, 1):
        for tmp in (0, 1):
            s0 = st.fork(); env = {}; s0.trail = list(getattr(s0, "trail", []))
            def cs(name):
                p = cstring(s0, name, maxlen=1 << 20); return p
            env["XDG_RUNTIME_DIR"] = cs("xdg") if xdg else 0; env["TMPDIR"] = cs("tmp") if tmp else 0; s0.g["$env"] = env
            def run_(q, env=env):
                if env["XDG_RUNTIME_DIR"]: p = env["XDG_RUNTIME_DIR"]; return p, q.mem[p.rid].tag[1]
                return e.join(q, [e.lit(q, "/run/user/"), e.dec(q, uid64)], "want")
            def tmp_(q, env=env):
                if env["TMPDIR"]: p = env["TMPDIR"]; return p, q.mem[p.rid].tag[1]
                return e.lit(q, "/tmp")
            E["run"] = run_
            for d in v.run(s0, v.fn("^vp_path$"), [Ptr(out.rid, 0)]):
                if d.kind != "ret": v.fail(d.st, "returns a path"); continue
                s = d.st; g = s.g; v.oblige(s, g["asked"], "whether the run-time directory is writable is tested")
                v.oblige(s, B(len(g["$got"]) >= 1), "a number is taken from the counter"); 
                if not g["$got"]: continue
                p, n = str_get(v, s, Ptr(out.rid, 0))
                for c, old, step in g["$got"]: v.oblige(s, z3.Implies(c, eq(step, 1, old.size())), "the counter advances by one")
                c, old, step = g["$got"][-1]; v.oblige(s, AND(c, *[NOT(x[0]) for x in g["$got"][:-1]]), "one number is taken per path")
                num = simp(z3.ZeroExt(64 - old.size(), old)) if old.size() < 64 else old
                q, k = (run_ if z3.is_true(g["ok"]) else tmp_)(s)
                w, wn = e.join(s, [(q, k), e.lit(s, "/xtrctl."), e.dec(s, pid64), e.lit(s, "."), e.dec(s, num)], "want"); short = z3.ULE(bv(wn), bv(107))
                v.oblige(s, z3.Implies(short, e.same(s, p, n, w, wn)), "the path is <directory>/xtrctl.<pid>.<number>, in the run-time directory if that is writable and else in the temporary directory"); v.cover(s, "returned")
    need_covers(ctx, v, ["returned", "asked"])
