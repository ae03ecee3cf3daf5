"""C24: the command line client.  The command line is arbitrary: argv[0..2] and the two arguments left after option processing are
arbitrary texts, the options any sequence.  Replies are arbitrary datagrams."""
import re, z3
from irv.core import *
from irv.execu import *
from irv.harness import harness, need_covers
from irv.strmodel import STR, get as str_get, eq_mem, S as STRING
from irv.stdlib import h_strlen, set_errno, get_errno
UNITS = ["xtrctl"]
B = z3.BoolVal; T, F = B(True), B(False)
def g_(st, k, v): st.g[k] = v
LEVELS = [("fatal", "x_fatal"), ("error", "x_error_l"), ("warning", "x_warning"), ("info", "x_info_l"), ("debug", "x_debug")]
class Client:
    def __init__(s, ctx):
        OS = r"std::basic_ostream<char, std::char_traits<char> >"; V = r"std::vector<xtr::detail::sink_info.*>"; MAP = r"std::map<std::__cxx11::basic_string<.*>, xtr::log_level_t, .*>"
        s.v = v = ctx.verifier("xtrctl", [(r"^getopt_long$", s.getopt), (r"^exit$|^_exit$|^quick_exit$", s.exit), (r"^strerror$", lambda ex, st, a, i: cstring(st, "strerror")),
          (r"^bool std::operator==<char, std::char_traits<char> ?>\(std::basic_string_view<.*>, std::__type_identity", s.sv_eq), (rf"^{OS}& std::operator<< ?<std::char_traits<char> ?>\({OS}&, char const\*\)$", s.put), (rf"^{OS}& std::operator<< ?<std::char_traits<char> ?>\({OS}&, (char|std::basic_string_view.*)\)$", lambda ex, st, a, i: a[0]),
          (rf"^{MAP}::map\(std::initializer_list", s.m_ctor), (rf"^{MAP}::(count|contains)\(", s.m_count), (rf"^{MAP}::operator\[\]\(", s.m_at), (rf"^{MAP}::~map\(\)", lambda ex, st, a, i: 0),
          (rf"^{V}::vector\(\)$", s.v_ctor), (rf"^{V}::push_back\(xtr::detail::sink_info const&\)$", s.v_push), (rf"^{V}::~vector\(\)$", lambda ex, st, a, i: 0), (r"^void std::(stable_)?sort<", s.v_sort),
          (r"^xtr::detail::operator<<\(std::basic_ostream<.*xtr::detail::sink_info const&\)$", s.show), (r"^xtr::detail::command_connect\(", s.connect), (r"^close$", s.close), (r"^sendmsg$", s.sendmsg), (r"^recvmsg$", s.recvmsg)] + STR, s.loops)
        ctx.extra_assume += ["getopt_long processes the arguments from optind on as documented (options in any order and number; afterwards the other arguments follow from optind)", "std::map, std::vector, std::sort, iostreams, socket calls behave as documented", "names and reasons sent by the server are terminated (C15)"]
        s.o = v.off; s.st = st = State(); set_errno(v, st, fresh("e0", 32)); s.argc = fresh("argc", 32); st.assume(AND(s.argc >= 1, s.argc <= 1 << 20)); s.A = [cstring(st, f"arg{k}") for k in range(3)]; s.P = [cstring(st, f"pos{k}") for k in range(2)]
        av = new_region(st, "argv", simp(8 * (z3.ZeroExt(32, s.argc) + 1)), align=8); s.av = av.rid; st.wregion(s.av).shared = s.argv
        vec = new_region(st, "infos", 1 << 40, align=8); s.vec = vec.rid
        st.g.update({"opt": F, "optdone": F, "pt": bv(s.o["x_none"], 32), "help": F, "badopt": F, "conn": F, "connfail": F, "sent": F, "sendfail": F, "recvfail": F, "eof": F, "badreply": F, "errreply": F, "pinfo": F, "psucc": F, "npush": z3.BitVecVal(0, 64), "nshow": z3.BitVecVal(0, 64), "closed": F, "optind": z3.BitVecVal(0, 32), "$errshown": F, "rn": z3.BitVecVal(0, 64), "buf0": z3.BitVecVal(0, 8)})
    def txt(s, st, p): return p, st.mem[p.rid].tag[1]
    def is_(s, st, p, lit):
        p, n = s.txt(st, p); return AND(bv(n) == len(lit), *[bv(read_byte(st, p.rid, k), 8) == c for k, c in enumerate(lit.encode())])
    # ---------------------------------------------------------- arguments
    def argv(s, ex, st, p, n):
        def h(ex, st, kind, order, n, v):
            if kind != "load" or n != 8: raise Unsupported("argv modified")
            must = lambda c: ex.solver.must(st, c); off = bv(p.off)
            ex.oblige(st, z3.ULT(off, simp(8 * z3.ZeroExt(32, s.argc))), "only arguments that were given are used")
            if must(off == 0): return s.A[0]
            if must(off == 8): return s.A[1]
            if must(AND(NOT(st.g["opt"]), off == 16)): return s.A[2]
            if must(st.g["optdone"]):
                o = simp(8 * z3.ZeroExt(32, st.g["optind"]))
                if must(off == o): return s.P[0]
                if must(off == o + 8): return s.P[1]
            raise Unsupported("argument used at an unexpected time")
        return h
    def optind(s, ex, st): return ex.global_region(st, "optind")
    def start(s, ex, st): return eq(mem_read(st, s.optind(ex, st), 0, 4), simp(z3.If(zb(s.is_(st, s.A[1], "level")), z3.BitVecVal(3, 32), z3.BitVecVal(2, 32))), 32)
    def getopt(s, ex, st, a, ins):
        if not (isinstance(a[1], Ptr) and a[1].rid == s.av and a[1].off == 0 and ex.solver.must(st, bv(a[0], 32) == s.argc)): raise Unsupported("getopt_long on other arguments")
        sh = a[2]; n = h_strlen(ex, st, [sh], ins); so = bytes(mem_read(st, sh.rid, add(sh.off, k), 1) for k in range(n)).decode()
        lp = a[3]; tab = {}; k = 0
        while k < 32:
            e = [mem_read(st, lp.rid, add(lp.off, k * s.o["x_opt"] + j), m) for j, m in ((0, 8), (8, 4), (16, 8), (24, 4))]
            if isinstance(e[0], int) and e[0] == 0: break
            m = h_strlen(ex, st, [e[0]], ins); tab[bytes(mem_read(st, e[0].rid, add(e[0].off, j), 1) for j in range(m)).decode()] = tuple(e[1:]); k += 1
        ex.oblige(st, B(set(so) >= set("EGWh") and ":" not in so), "the options -E, -G, -W and -h are recognised")
        ex.oblige(st, B(all(tab.get(x) == (0, 0, ord(c)) for x, c in (("extended-regexp", "E"), ("basic-regexp", "G"), ("wildcard", "W"), ("help", "h")))), "the long options mean what their short forms mean")
        rid = s.optind(ex, st); cmd = s.A[1]
        ex.oblige(st, IMP(NOT(st.g["opt"]), s.start(ex, st)), "options are looked for after the command and its level")
        st.g["opt"] = T; out = []; ex.cover(st, "options")
        for c in "EGWh?":
            q = st.fork()
            if c in "EGW": q.g["pt"] = bv(s.o["x_" + c], 32)
            elif c == "h": q.g["help"] = T
            else: q.g["badopt"] = T
            i = fresh("optind", 32); q.assume(AND(i >= 2, i <= s.argc)); mem_write(q, s.optind(ex, q), 0, 4, i); out.append(Ret(q, ord(c)))
        i = fresh("optind", 32); lo = z3.If(zb(s.is_(st, cmd, "level")), z3.BitVecVal(3, 32), z3.BitVecVal(2, 32)); st.assume(AND(i >= lo, i <= s.argc)); mem_write(st, rid, 0, 4, i); st.g["optind"] = i; st.g["optdone"] = T; return out + [Ret(st, mask(-1, 32))]
    def sv_eq(s, ex, st, a, ins):
        if len(a) != 4: raise Unsupported("string view comparison")
        return eq_mem(ex, st, a[1], a[0], a[3], a[2])
    # ---------------------------------------------------------- containers
    def m_ctor(s, ex, st, a, ins):
        b, n = a[1], a[2]
        if not isinstance(n, int): raise Unsupported("map initialiser")
        tab = []
        for k in range(n):
            d, m = str_get(ex, st, Ptr(b.rid, add(b.off, k * s.o["x_kv"])))
            if not isinstance(m, int): raise Unsupported("map key")
            tab.append((bytes(mem_read(st, d.rid, add(d.off, j), 1) for j in range(m)).decode(), mem_read(st, b.rid, add(b.off, k * s.o["x_kv"] + s.o["x_kv2"]), s.o["x_lsz"])))
        st.g["$map"] = tab; return 0
    def look(s, ex, st, key):
        """[(condition, level)], first match wins"""
        d, n = str_get(ex, st, key); return [(AND(bv(n) == len(t), *[bv(read_byte(st, d.rid, add(d.off, j)), 8) == x for j, x in enumerate(t.encode())]), l) for t, l in st.g["$map"]]
    def m_count(s, ex, st, a, ins): return simp(z3.If(zb(OR(*[c for c, _ in s.look(ex, st, a[1])])), bv(1), bv(0)))
    def m_at(s, ex, st, a, ins):
        W = 8 * s.o["x_lsz"]; x = z3.BitVecVal(0, W)
        for c, l in reversed(s.look(ex, st, a[1])): x = z3.If(zb(c), bv(l, W), x)
        r = new_region(st, "mapped", s.o["x_lsz"], align=8); mem_write(st, r.rid, 0, s.o["x_lsz"], simp(x)); return Ptr(r.rid, 0)
    def setv(s, st, p, n): mem_write(st, p.rid, p.off, 8, Ptr(s.vec, 0)); mem_write(st, p.rid, add(p.off, 8), 8, Ptr(s.vec, n)); mem_write(st, p.rid, add(p.off, 16), 8, Ptr(s.vec, n))
    def v_ctor(s, ex, st, a, ins): st.g["$v"] = a[0]; s.setv(st, a[0], 0); return 0
    def v_push(s, ex, st, a, ins):
        p = ex.bounds(st, a[1], s.o["x_insz"], "status entry", False); n = st.g["npush"]; st.assume(z3.ULT(n, bv(1 << 28)))
        ex.oblige(st, st.g["pinfo"], "an entry is kept only for a status reply just received")
        if "$rb" in st.g: b = st.g["$rb"]; ex.oblige(st, AND(B(p.rid == b.rid), eq(p.off, add(b.off, s.o["x_in_pay"]))), "the entry kept is the one received")
        st.g["pinfo"] = F; st.g["npush"] = simp(n + 1); s.setv(st, a[0], simp((n + 1) * s.o["x_insz"])); ex.cover(st, "kept"); return 0
    def v_sort(s, ex, st, a, ins): return 0      # a permutation: which entry is which is not tracked, only that each is shown once
    def show(s, ex, st, a, ins):
        p = resolve(st, a[1]) if isz(a[1]) else a[1]; k = st.g["nshow"]
        ex.oblige(st, AND(B(isinstance(p, Ptr) and p.rid == s.vec), eq(p.off if isinstance(p, Ptr) else 0, simp(k * s.o["x_insz"])), z3.ULT(k, st.g["npush"])), "each entry received is shown once")
        st.g["nshow"] = simp(k + 1); ex.cover(st, "shown"); return a[0]
    def put(s, ex, st, a, ins):
        p = a[1]; p = resolve(st, p) if isz(p) else p
        if isinstance(p, Ptr) and st.mem[p.rid].kind == "global":
            n = h_strlen(ex, st, [p], ins); t = bytes(mem_read(st, p.rid, add(p.off, k), 1) for k in range(n))
            if b"Success" in t: ex.oblige(st, st.g["psucc"], "success is reported only for a success reply"); st.g["psucc"] = F; ex.cover(st, "success shown")
        elif isinstance(p, Ptr) and "$rb" in st.g and p.rid == st.g["$rb"].rid: st.g["$errshown"] = T
        return a[0]
    # ---------------------------------------------------------- connection
    def connect(s, ex, st, a, ins):
        sret, n, p = a if len(a) == 3 else (None, None, None)
        if sret is None: raise Unsupported("command_connect")
        two = simp(s.argc - st.g["optind"]) ; want = z3.If(two == 2, bv(s.P[1].rid), bv(s.P[0].rid))
        ex.oblige(st, AND(B(isinstance(p, Ptr) and p.off == 0), want == bv(p.rid if isinstance(p, Ptr) else -1), z3.If(two == 2, bv(n) == bv(s.txt(st, s.P[1])[1]), bv(n) == bv(s.txt(st, s.P[0])[1]))), "the socket path given is the one connected to")
        ex.oblige(st, NOT(st.g["conn"]), "one connection is made"); q = st.fork(); fd = fresh("fd", 32); st.assume(fd >= 0); st.g["$fd"] = fd; st.g["conn"] = T; mem_write(st, sret.rid, add(sret.off, s.o["x_fd"]), 4, fd)
        q.g["connfail"] = T; mem_write(q, sret.rid, add(sret.off, s.o["x_fd"]), 4, mask(-1, 32)); set_errno(ex, q, fresh("e", 32)); return [Ret(st, 0), Ret(q, 0)]
    def close(s, ex, st, a, ins): ex.oblige(st, AND(st.g["conn"], NOT(st.g["closed"]), eq(a[0], st.g.get("$fd", 0), 32)), "only the connection is closed, once"); st.g["closed"] = T; return 0
    def msg(s, ex, st, h):
        h = ex.bounds(st, h, s.o["x_mh_size"], "message header", False); iov = mem_read(st, h.rid, add(h.off, s.o["x_mh_iov"]), 8); ex.oblige(st, eq(mem_read(st, h.rid, add(h.off, s.o["x_mh_iovlen"]), 8), 1), "one buffer per message"); iov = ex.bounds(st, iov, 16, "iovec", False)
        return mem_read(st, iov.rid, iov.off, 8), mem_read(st, iov.rid, add(iov.off, 8), 8)
    def valid(s, st):
        """the command line is valid"""
        o = s.o; c = {k: s.is_(st, s.A[1], k) for k in ("status", "level", "reopen")}; np_ = s.argc - st.g["optind"]; lv = OR(*[s.is_(st, s.A[2], k) for k, _ in LEVELS])
        return AND(s.argc >= 2, OR(c["status"], c["reopen"], AND(c["level"], s.argc >= 3, lv)), NOT(st.g["help"]), NOT(st.g["badopt"]), st.g["optdone"], np_ >= 1, np_ <= z3.If(zb(c["reopen"]), z3.BitVecVal(1, 32), z3.BitVecVal(2, 32)), OR(st.g["pt"] == o["x_none"], np_ == 2))
    def fd_ok(s, ex, st, fd): ex.oblige(st, AND(st.g["conn"], NOT(st.g["closed"]), eq(fd, st.g.get("$fd", 0), 32)), "the connection is the one made")
    def sendmsg(s, ex, st, a, ins):
        s.fd_ok(ex, st, a[0]); b, n = s.msg(ex, st, a[1]); o = s.o; b = ex.bounds(st, b, n, "request", False); c = {k: s.is_(st, s.A[1], k) for k in ("status", "level", "reopen")}
        ex.oblige(st, AND(NOT(st.g["sent"])), "one request is sent"); ex.oblige(st, s.valid(st), "nothing is sent for an invalid command line")
        rd = lambda off, m: bv(mem_read(st, b.rid, add(b.off, off), m), 8 * m)
        ex.oblige(st, z3.If(zb(c["status"]), bv(n) == o["x_status"], z3.If(zb(c["level"]), bv(n) == o["x_level"], bv(n) == o["x_reopen"])), "a whole request is sent")
        ex.oblige(st, rd(0, 4) == z3.If(zb(c["status"]), bv(o["x_id_status"], 32), z3.If(zb(c["level"]), bv(o["x_id_level"], 32), bv(o["x_id_reopen"], 32))), "the request is the command given")
        two = s.argc - st.g["optind"] == 2; pp, pn = s.txt(st, s.P[0]); i = fresh("i"); cap = o["x_pt_len"] - 1; L = z3.If(two, z3.If(z3.ULT(bv(pn), bv(cap)), bv(pn), bv(cap)), bv(0)); want = z3.If(two, z3.If(st.g["pt"] == o["x_none"], bv(o["x_G"], 32), st.g["pt"]), bv(o["x_none"], 32))
        for cond, size, base in ((c["status"], o["x_status"], o["x_st_pat"]), (c["level"], o["x_level"], o["x_sl_pat"])):
            if ex.solver.must(st, NOT(cond)): continue
            q = st.fork(); q.assume(cond)
            if not ex.solver.must(q, bv(n) == size): continue
            rq = lambda off, m: bv(mem_read(q, b.rid, add(b.off, off), m), 8 * m)
            ex.oblige(q, rq(base + o["x_pt_type"], 4) == want, "the pattern type asked for is sent (basic by default, none without a pattern)"); ex.oblige(q, rq(base + o["x_pt_case"], 1) == 0, "case is not ignored"); ch = bv(read_byte(q, b.rid, add(b.off, simp(i + (base + o["x_pt_text"])))), 8)
            ex.oblige(q, AND(IMP(z3.ULT(i, L), ch == bv(read_byte(q, pp.rid, i), 8)), IMP(i == L, ch == 0)), "the pattern given is sent, cut to fit and terminated")
            if base == o["x_sl_pat"]: ex.oblige(q, AND(*[IMP(s.is_(q, s.A[2], k), rq(o["x_sl_level"], 4) == bv(o[l], 32)) for k, l in LEVELS]), "the level given is sent"); ex.cover(q, "level sent")
        ex.cover(st, "sent"); q = st.fork(); q.g["sendfail"] = T; e = fresh("e", 32); q.assume(AND(e > 0, e != o["x_eintr"])); set_errno(ex, q, e); r = st.fork(); set_errno(ex, r, o["x_eintr"]); st.g["sent"] = T; return [Ret(st, n), Ret(q, mask(-1, 64)), Ret(r, mask(-1, 64))]
    def settled(s, ex, st): ex.oblige(st, AND(NOT(st.g["pinfo"]), NOT(st.g["psucc"])), "every reply is kept or reported"); ex.oblige(st, AND(NOT(st.g["badreply"]), NOT(st.g["errreply"]), NOT(st.g["recvfail"])), "no reply is read after an error")
    def recvmsg(s, ex, st, a, ins):
        s.fd_ok(ex, st, a[0]); ex.oblige(st, st.g["sent"], "replies are read after the request was sent"); b, n = s.msg(ex, st, a[1]); o = s.o; b = ex.bounds(st, b, n, "reply buffer", True); ex.oblige(st, z3.UGE(bv(n), bv(o["x_info"])), "room for every reply"); s.settled(ex, st); ex.oblige(st, NOT(st.g["eof"]), "nothing is read after the end")
        e1 = st.fork(); set_errno(ex, e1, o["x_eintr"]); e2 = st.fork(); e = fresh("e", 32); e2.assume(AND(e > 0, e != o["x_eintr"])); set_errno(ex, e2, e); e2.g["recvfail"] = T; e3 = st.fork(); e3.g["eof"] = T
        k = fresh("nbytes"); st.assume(AND(k != 0, z3.ULE(k, bv(n)))); mem_havoc(st, b.rid, b.off, n) if not isinstance(n, int) or True else None
        id_ = bv(mem_read(st, b.rid, b.off, 4), 32); full = z3.UGE(k, bv(o["x_hdr"])); info = AND(full, id_ == o["x_id_info"]); err = AND(full, id_ == o["x_id_error"], k == o["x_error"]); suc = AND(full, id_ == o["x_id_success"])
        st.g["$rb"] = b; st.g["pinfo"] = simp_b(AND(info, k == o["x_info"])); st.g["psucc"] = simp_b(suc); st.g["errreply"] = simp_b(err); st.g["badreply"] = simp_b(NOT(OR(AND(info, k == o["x_info"]), err, suc))); ex.cover(st, "received")
        return [Ret(e1, mask(-1, 64)), Ret(e2, mask(-1, 64)), Ret(e3, 0), Ret(st, k)]
    # ---------------------------------------------------------- ends
    def exit(s, ex, st, a, ins): s.end(ex, st, a[0], True); return Stop(st, "exit")
    def end(s, ex, st, rc, byexit):
        g = st.g; rc = bv(rc, 32); bad = OR(g["connfail"], g["sendfail"], g["recvfail"], g["badreply"], g["errreply"]); help_ = AND(s.argc >= 2, OR(s.is_(st, s.A[1], "--help"), g["help"])); ok = AND(s.valid(st), g["sent"], g["eof"], NOT(bad), NOT(g["pinfo"]), NOT(g["psucc"]), g["nshow"] == g["npush"])
        ex.oblige(st, z3.Implies(rc == 0, OR(help_, ok)), "success is reported only for help, or when the request was carried out, the connection ended and every reply was shown")
        ex.oblige(st, z3.Implies(rc != 0, AND(NOT(help_), OR(NOT(s.valid(st)), bad))), "failure is reported only for an invalid command line, a failed connection or an error"); ex.oblige(st, z3.Implies(g["errreply"], g["$errshown"]), "an error reply is shown")
        ex.cover(st, "ended by exit" if byexit else "ended")
    def loops(s, ex, st, fr):
        inv = []; d = len(st.frames) - 1; o = s.o
        b = lambda k: inv.append((k, lambda ex, x, k=k: zb(x.g[k]))); nb = lambda k: inv.append(("not " + k, lambda ex, x, k=k: NOT(x.g[k])))
        for k in ("opt", "optdone", "conn", "sent"): b(k)
        for k in ("help", "badopt", "connfail", "sendfail", "recvfail", "badreply", "errreply", "pinfo", "psucc", "eof", "closed", "sent", "conn", "optdone"): nb(k)
        inv.append(("options start after the command", lambda ex, x: IMP(NOT(x.g["opt"]), s.start(ex, x))))
        inv.append(("shown within kept", lambda ex, x: z3.ULE(x.g["nshow"], x.g["npush"]))); inv.append(("nothing shown", lambda ex, x: x.g["nshow"] == 0)); inv.append(("bounded", lambda ex, x: z3.ULE(x.g["npush"], bv(1 << 28))))
        def slot(get):
            def c(which):
                def f(ex, x):
                    y = get(x); y = resolve(x, y) if isz(y) and z3.is_bv(y) and y.size() == 64 else y
                    if isinstance(y, Ptr) and y.rid == s.vec: return bv(y.off) == x.g[which] * o["x_insz"]
                    return None
                return f
            return c
        def pt(get):
            def f(ex, x):
                y = get(x)
                return bv(y, 32) == x.g["pt"] if isinstance(y, int) or (isz(y) and z3.is_bv(y) and y.size() == 32) else None
            return f
        cells = [(f"phi{p.id}", lambda x, i=p.id: x.frames[d].regs[i]) for p in fr.bb.phis]
        for fm in st.frames:
            for r in fm.allocas:
                if r in st.mem:
                    for off, (n, v) in list(st.mem[r].cells.items()):
                        if n in (4, 8): cells.append((f"{st.mem[r].name}+{off}", lambda x, r=r, off=off, n=n: mem_read(x, r, off, n)))
        for name, get in cells:
            inv.append((f"{name}: shown", slot(get)("nshow"))); inv.append((f"{name}: kept", slot(get)("npush"))); inv.append((f"{name}: pattern type", pt(get)))
        return LoopSpec(invs=inv)
def simp_b(c): return zb(simp(c))
def cmd(name, assume, covers):
    @harness("client." + name, ("C24",), cost=30)
    def client(ctx):
        s = Client(ctx); v = s.v; s.st.assume(assume(s, s.st))
        for d in v.run(s.st, v.fn("^vp_xtrctl$"), [s.argc, Ptr(s.av, 0)]):
            if d.kind == "stop": continue
            if d.kind != "ret": v.fail(d.st, "no exception escapes"); continue
            s.end(v, d.st, d.val, False)
        need_covers(ctx, v, covers)
ALL = ["options", "sent", "received", "kept", "shown", "success shown", "ended", "ended by exit"]
for c in ("status", "reopen", "level"): cmd(c, lambda s, st, c=c: AND(s.argc >= 2, s.is_(st, s.A[1], c)), ALL + (["level sent"] if c == "level" else []))
cmd("other", lambda s, st: OR(s.argc < 2, NOT(OR(*[s.is_(st, s.A[1], c) for c in ("status", "reopen", "level")]))), ["ended by exit"])
