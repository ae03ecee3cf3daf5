"""Loop cutting with inferred (Houdini-filtered) and user-supplied invariants."""
import z3, time, os
from .core import *
from .llir import Reg, Const

class Var:
    def __init__(s, name, kind, get, width=64): s.name = name; s.kind = kind; s.get = get; s.width = width; s.entry = None
    def num(s, st):
        """64-bit numeric view"""
        v = s.get(st)
        if isinstance(v, Ptr): v = v.off
        if isinstance(v, int): return bv(v, 64)
        if isz(v) and z3.is_bv(v):
            return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else z3.Extract(63, 0, v)
        return None

class LoopMixin:
    def arrive(self, st, base_depth, loop, work):
        f = st.frames[-1]
        if loop is not None:
            if len(st.frames) - 1 < loop[0]:
                from .execu import Done
                return Done("loopexit", st)
            if len(st.frames) - 1 == loop[0]:
                from .execu import Done
                if f.bb is loop[1]: return Done("cut", st)
                if f.bb not in loop[2]: return Done("loopexit", st)
        if not f.fn.loops: return "go"
        body = f.fn.loops.get(f.bb)
        if body is None: return "go"
        back = f.prev in body
        if back:
            c = f.cuts.get(f.bb)
            if c == "unroll": return "go"
            if c is None: raise Unsupported("back edge of an unknown loop")
            if c[0] == "peel": return self.cut_loop(st, f, body, base_depth, peeled=c[1])
            return self.loop_back(st, f, c)
        # entry
        mode = self.classify(st, f, body, base_depth)
        if mode == "unroll":
            f.cuts[f.bb] = "unroll"; return "go"
        return self.cut_loop(st, f, body, base_depth)
    # ------------------------------------------------------------------
    def dry(self, st, depth, header, body, base_depth):
        m = self.mode; self.mode = "dry"
        try: return self.explore([st], base_depth, (depth, header, body))
        finally: self.mode = m
    def classify(self, st, f, body, base_depth):
        """'unroll' if the loop is decided concretely from this entry"""
        if self.loopspec and getattr(self.loopspec, "force_unroll", None) and self.loopspec.force_unroll(self, st, f): return "unroll"
        s = st.fork(); hdr = f.bb; depth = len(st.frames) - 1
        for n in range(self.unroll):
            s.frames[-1].cuts = dict(s.frames[-1].cuts)
            ph = self.phase; self.phase = ("disc",)
            try: outs = self.dry(s, depth, hdr, body, base_depth)
            except NeedFork: return "cut"
            finally: self.phase = ph
            cuts = [o for o in outs if o.kind == "cut"]
            if not cuts: return "unroll"
            if len(cuts) > 1 or len(outs) > 1: return "cut"
            s = cuts[0].st
        return "cut"
    # ------------------------------------------------------------------
    def vars_of(self, st0, f, M):
        out = []; depth = len(st0.frames) - 1
        for p in f.bb.phis:
            out.append(Var(f"phi{p.id}", "phi", (lambda st, i=p.id: st.frames[depth].regs[i])))
        for k in sorted(M["cells"], key=str):
            rid, off, n = k
            out.append(Var(f"{st0.mem[rid].name}+{off}", "cell", (lambda st, rid=rid, off=off, n=n: mem_read(st, rid, off, n))))
        for g in sorted(M["ghost"]):
            out.append(Var("ghost " + g, "ghost", (lambda st, g=g: st.g.get(g))))
        return out
    def havoc(self, s, f0, M, spec):
        f = s.frames[-1]
        body = f.fn.loops.get(f.bb) or ()
        def fixed(p):       # the value at every back edge is the value at entry: the phi itself or the same constant
            c = f.regs[p.id]
            return all((v.id == p.id if isinstance(v, Reg) else same(self.val(s, f, v), c)) for v, b in p.ops if b in body)
        for p in [p for p in f.bb.phis if not fixed(p)]: f.regs[p.id] = self.havoc_val(f.regs[p.id], p.ty, st=s)
        for rid in sorted(M["regions"]):
            if not any(o.covers(s, rid, None) for o in spec.objs): mem_havoc_all(s, rid)
        for rid, off, n in sorted(M["cells"], key=str):
            if rid in M["regions"] or any(o.covers(s, rid, off) for o in spec.objs): continue
            v = mem_read(s, rid, off, n)
            mem_write(s, rid, off, n, self.havoc_val(v, None, n, st=s))
        for g in sorted(M["ghost"]):
            if any(o.covers_ghost(g) for o in spec.objs if hasattr(o, "covers_ghost")): continue
            v = s.g.get(g)
            if isinstance(v, int) and not isinstance(v, bool): s.g[g] = fresh("g_" + g)
            elif isinstance(v, bool): s.g[g] = fresh("g_" + g, 1)
            elif isz(v): s.g[g] = fresh("g_" + g, 1) if z3.is_bool(v) else z3.FreshConst(v.sort(), "g_" + g)
            elif v is None: raise Unsupported(f"ghost {g} appears inside a loop")
            else: raise Unsupported(f"ghost {g} changes in a loop")
        for o in spec.objs: o.havoc(self, s)
    def havoc_val(self, v, ty=None, n=None, st=None):
        if isinstance(v, Ptr):
            e = st.mem[v.rid].elem if st is not None else None
            return Ptr(v.rid, simp(bv(v.off) + fresh("k") * e)) if e else Ptr(v.rid, fresh("off"))
        if isinstance(v, FnP): return v
        if isinstance(v, Dbl): return Dbl()
        if ty is not None:
            if ty.kind == "int": return fresh("phi", ty.width)
            if ty.kind == "ptr":
                if isinstance(v, int) and v == 0: return 0
                return fresh("phip", 64)
            if ty.kind in ("struct", "array"): return [self.havoc_val(x, t) for x, t in zip(v, ty.elts if ty.kind == "struct" else ty.elts * ty.n)]
            return v
        return fresh("cell", 8 * n)
    def shape_ok(self, var, a, b, st):
        """b (at a back edge) has the shape assumed by the havocked value a"""
        if isinstance(a, Ptr): return isinstance(b, Ptr) and b.rid == a.rid and (not (e := st.mem[a.rid].elem) or stride(sub(b.off, a.off), e) is not None)
        if isinstance(a, FnP): return isinstance(b, FnP) and b.fn.name == a.fn.name
        if isinstance(a, int) and a == 0 and var.kind == "phi" and isinstance(b, (Ptr, FnP)): return False
        return True
    def cut_loop(self, st, f, body, base_depth, peeled=0):
        from .execu import LoopSpec
        spec = (self.loopspec(self, st, f) if self.loopspec else None) or LoopSpec()
        hdr = f.bb; depth = len(st.frames) - 1
        if getattr(spec, "peel", 0) > peeled: f.cuts = dict(f.cuts); f.cuts[hdr] = ("peel", peeled + 1); return "go"
        self.loops_cut += 1 if self.mode == "real" else 0
        if self.phase[0] == "real": self.mcache = {}
        M0 = self.mcache.get(hdr)      # a modified set found earlier for this loop: any superset is sound
        M = {"cells": set(), "regions": set(), "ghost": set()} if M0 is None else {"cells": {c for c in M0["cells"] if c[0] in st.mem}, "regions": {c for c in M0["regions"] if c in st.mem}, "ghost": {k for k in M0["ghost"] if k in st.g}}
        outer = st.wlog; phase = self.phase
        for o in spec.objs:
            for nm, fm in o.check(self, st): self.oblige(st, fm, f"loop at {hdr.fn.dname[:60]}: {nm} on entry")
        # --- discovery of the modified set
        def body_run(M, cands, ph):
            self.phase = ph
            try: return body_run_(M, cands)
            finally: self.phase = phase
        def body_run_(M, cands):
            s = st.fork(); s.wlog = []
            fr = s.frames[-1]; fr.cuts = dict(fr.cuts); fr.cuts[hdr] = ("dry",)
            self.havoc(s, f, M, spec)
            for c in cands:
                fm = c(self, s)
                if fm is not None: s.assume(fm)
            for o in spec.objs:
                for fm in getattr(o, "facts", lambda e, t: [])(self, s): s.assume(fm)
            s.wlog = []; wl = s.wlog; g0 = dict(s.g); h = s.fork(); 
            outs = self.dry(s, depth, hdr, body, base_depth)
            return h, wl, g0, outs
        user = list(spec.invs)
        for rnd in range(12):
            try: h, wl, g0, outs = body_run(M, [], ("disc",))
            except Unsupported:
                if peeled >= 1: raise
                st.wlog = outer; f.cuts = dict(f.cuts); f.cuts[hdr] = ("peel", peeled + 1); return "go"
            new = {k: set(v) for k, v in M.items()}
            cuts = [o.st for o in outs if o.kind == "cut"]
            def kept(rid, off, n):      # stored to, but with the value it had at the head on every path back
                try: return all(same(mem_read(o, rid, off, n), mem_read(h, rid, off, n)) for o in cuts)
                except Unsupported: return False
            for rid, off, n in wl:
                if rid not in st.mem: continue
                if isinstance(off, int) and isinstance(n, int) and n <= 8 and (rid, off, n) not in new["cells"] and kept(rid, off, n): continue
                if isinstance(off, int) and isinstance(n, int) and n <= 64: new["cells"].add((rid, off, n))
                elif isinstance(off, int) and isinstance(n, int): new["regions"].add(rid)
                else: new["regions"].add(rid)
            for o in outs:
                for k, v in o.st.g.items():
                    if k.startswith("$"): continue
                    if k not in g0:
                        if o.kind == "cut": raise Unsupported(f"ghost {k} created inside a loop")
                    elif not same(v, g0[k]): new["ghost"].add(k)
            # overlapping cells of different shape: drop to region havoc
            cl = sorted(new["cells"], key=lambda x: (x[0], x[1], x[2]))
            for a in cl:
                for b in cl:
                    if a[0] == b[0] and a != b and a[1] < b[1] + b[2] and b[1] < a[1] + a[2]: new["regions"].add(a[0])
            new["cells"] = {c for c in new["cells"] if c[0] not in new["regions"]}
            if new == M: break
            M = new
        else: raise Unsupported("modified set of a loop does not stabilise")
        self.mcache[hdr] = M; inner = {}
        vs = self.vars_of(st, f, M)
        vs = [v for v in vs if not (v.kind == "cell" and any(o.covers(st, int_rid(v, st), None) for o in spec.objs if False))]
        for v in vs: v.entry = v.get(st)
        for o in outs:
            if o.kind == "cut":
                for v in vs:
                    if v.kind == "ghost": continue
                    nullp = v.kind == "cell" and isinstance(v.entry, int) and v.entry == 0 and isinstance(v.get(o.st), (Ptr, FnP))
                    if nullp and self._covered(spec, st, M, v): continue
                    if nullp or not self.shape_ok(v, v.get(h), v.get(o.st), st):
                        if v.kind == "cell" and any(ob.covers(st, self._rid(M, v), None) for ob in spec.objs): continue
                        if v.kind == "cell" and self._covered(spec, st, M, v): continue
                        if peeled < 2:      # peel one iteration and cut at the next arrival
                            st.wlog = outer; f.cuts = dict(f.cuts); f.cuts[hdr] = ("peel", peeled + 1); return "go"
                        raise Unsupported(f"pointer {v.name} moves to another object in a loop at {self.loc(st)}")
        # --- candidates
        cands = self.candidates(st, f, body, vs, spec)
        if phase[0] == "disc": cands = []        # only the modified set of the enclosing loop is wanted: any sound invariant will do
        elif phase[0] == "round" and phase[1] > 0 and hdr in phase[2]: cands = [(n, c) for n, c in cands if n in phase[2][hdr]]    # what survived under the strongest outer assumptions
        t = time.time()
        s0 = st.fork()
        alive = []
        for nm, c in cands:
            fm = c(self, s0)
            if fm is None: continue
            if self.must_inv(s0, fm, nm, spec): alive.append((nm, c))
            elif os.environ.get("IRV_LOOPS") == "2" and (nm, c) in spec.invs: print("NOT ON ENTRY", nm)
        for nm, c in spec.required:
            self.oblige(st, c(self, st), f"loop invariant '{nm}' on entry")
        req = list(spec.required)
        for rnd in range(40):
            h, wl, g0, outs = body_run(M, [wrap(c) for _, c in alive + req], ("disc",) if phase[0] == "disc" else ("round", rnd, inner))
            dropped = False
            for o in outs:
                if o.kind != "cut": continue
                keep = []
                pend = [(nm, c, c(self, o.st)) for nm, c in alive]
                # fast path: all at once
                fs = [fm for _, _, fm in pend if fm is not None]
                if len(fs) == len(pend) and self.solver.must(o.st, AND(*fs) if fs else z3.BoolVal(True)): continue
                for nm, c, fm in pend:
                    if fm is not None and self.must_inv(o.st, fm, nm, spec): keep.append((nm, c))
                    else:
                        dropped = True
                        if os.environ.get("IRV_LOOPS") == "2": print("DROP", rnd, nm, "None" if fm is None else self.solver.check(o.st, z3.Not(fm), timeout=3000))
                alive = keep
            if not dropped: break
        else: raise Unsupported("invariant inference does not converge")
        for o in outs:
            if o.kind == "cut":
                for rid in st.mem:
                    if st.mem[rid].live != o.st.mem[rid].live: raise Unsupported("object freed in a loop")
        if os.environ.get("IRV_LOOPS"): print("LOOP", hdr.fn.dname[:60], hdr.name, "modified", [v.name for v in vs], "inv", [n for n, _ in alive])
        if phase[0] == "round" and phase[1] == 0: phase[2].setdefault(hdr, set()).update(n for n, _ in alive)
        if self.mode == "real":
            from .execu import Obl
            loc = self.loc(st)
            for nm, _ in alive:
                for k in ("initiation", "preservation"): self.obls.append(Obl(f"loop invariant [{nm}] {k}", loc, "proved", None, "z3", None))
            self.houdini.append((hdr.fn.dname, [n for n, _ in alive]))
        # --- continue with an arbitrary iteration
        st.wlog = outer
        f.cuts = dict(f.cuts); f.cuts[hdr] = (alive, req, spec, hdr)
        self.havoc(st, f, M, spec)
        for _, c in alive + req:
            fm = c(self, st)
            if fm is not None: st.assume(fm)
        for o in spec.objs:
            for fm in getattr(o, "facts", lambda e, t: [])(self, st): st.assume(fm)
        if outer is not None:
            for rid, off, n in M["cells"]: outer.append((rid, off, n))
        st.note(f"loop {hdr.fn.dname[:40]} cut")
        nm = loop_name(hdr.fn.dname)
        if os.environ.get("IRV_LOOPLOG"):
            with open(os.environ["IRV_LOOPLOG"], "a") as lf: lf.write(nm + "\n")
        elif nm not in known_loops(): st.note("newloop: the loop in " + nm + " has no written invariant")
        return "go"
    def must_inv(self, st, fm, nm, spec):
        g = self.solver.gaveup; own = any(nm == n for n, _ in spec.invs)
        r = self.solver.must(st, fm, patient=own)
        if not r and self.solver.gaveup > g and own: self.inv_gaveup += 1
        return r
    def _rid(self, M, v):
        return None
    def _covered(self, spec, st, M, v):
        for rid, off, n in M["cells"]:
            if v.name == f"{st.mem[rid].name}+{off}":
                return any(o.covers(st, rid, off) for o in spec.objs)
        return False
    def loop_back(self, st, f, c):
        if c[0] == "dry": raise Unsupported("unexpected back edge")
        alive, req, spec, hdr = c
        # invariants in `alive` were discharged by inference over the same paths; the required and object
        # invariants are obligations here
        for nm, cc in req: self.oblige(st, cc(self, st), f"loop invariant '{nm}' preserved")
        for o in spec.objs:
            for nm, fm in o.check(self, st): self.oblige(st, fm, f"loop at {hdr.fn.dname[:60]}: {nm} preserved")
        return None
    def candidates(self, st, f, body, vs, spec):
        cands = [(n, c) for n, c in spec.invs]
        if not getattr(spec, "auto", True): return cands
        num = [(v, v.num(st)) for v in vs]
        num = [(v, e) for v, e in num if e is not None]
        for v, e in num:
            cands.append((f"{v.name}==entry", lambda ex, s, v=v, e=e: v.num(s) == e))
            cands.append((f"{v.name}>=entry", lambda ex, s, v=v, e=e: z3.UGE(v.num(s), e)))
            cands.append((f"{v.name}<=entry", lambda ex, s, v=v, e=e: z3.ULE(v.num(s), e)))
        for v, e in num:
            if isinstance(v.get(st), Ptr): cands.append((f"{v.name} stays 8-aligned relative to entry", lambda ex, s, v=v, e=e: ((v.num(s) - e) & 7) == 0))
        for i, (v, e) in enumerate(num):
            for w, e2 in num[i + 1:]:
                cands.append((f"d{v.name}==d{w.name}", lambda ex, s, v=v, e=e, w=w, e2=e2: v.num(s) - e == w.num(s) - e2))
                cands.append((f"d{v.name}==-d{w.name}", lambda ex, s, v=v, e=e, w=w, e2=e2: v.num(s) - e == e2 - w.num(s)))
                cands.append((f"{v.name}<={w.name}", lambda ex, s, v=v, w=w: z3.ULE(v.num(s), w.num(s))))
                cands.append((f"{v.name}>={w.name}", lambda ex, s, v=v, w=w: z3.UGE(v.num(s), w.num(s))))
        for v in vs:
            x = v.get(st)
            if (isinstance(x, (int, bool)) or (isz(x) and z3.is_bool(x))) and v.kind in ("phi", "ghost"):
                if isz(v.get(st)) and z3.is_bool(x):
                    cands.append((f"{v.name}==entry", lambda ex, s, v=v, x=x: zb(v.get(s)) == zb(x)))
        # loop-invariant values compared in the loop
        terms = []
        seen = set()
        regs = st.frames[-1].regs
        defined = {i.id for b in body for i in b.insts}
        for b in body:
            for ins in b.insts:
                if ins.op == "icmp":
                    for o in ins.ops:
                        if isinstance(o, Reg) and o.id not in defined and o.id in regs and o.id not in seen:
                            seen.add(o.id); x = regs[o.id]
                            if isinstance(x, Ptr): x = x.off
                            if isinstance(x, int): terms.append((f"r{o.id}", bv(x, 64)))
                            elif isz(x) and z3.is_bv(x) and x.size() <= 64: terms.append((f"r{o.id}", x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x)))
                        elif isinstance(o, Const) and o.kind == "int" and o.v not in seen:
                            seen.add(o.v); terms.append((str(o.v), bv(o.v, 64)))
        for nm, t in getattr(spec, "terms", []): terms.append((nm, t))
        for v, e in num:
            for nm, t in terms:
                cands.append((f"{v.name}<={nm}", lambda ex, s, v=v, t=t: z3.ULE(v.num(s), t)))
                cands.append((f"{v.name}<{nm}", lambda ex, s, v=v, t=t: z3.ULT(v.num(s), t)))
                cands.append((f"{v.name}!={nm}", lambda ex, s, v=v, t=t: v.num(s) != t))
                cands.append((f"{v.name}>={nm}", lambda ex, s, v=v, t=t: z3.UGE(v.num(s), t)))
        return cands[:len(spec.invs)] + [(n, guard(c)) for n, c in cands[len(spec.invs):]]

def guard(c):
    """a candidate that does not apply to the present shape of the values is None"""
    def g(ex, s):
        try: return c(ex, s)
        except (TypeError, AttributeError, z3.Z3Exception): return None
    return g
def wrap(c): return lambda ex, s: c(ex, s)
def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.rid == b.rid and same(a.off, b.off)
    if isinstance(a, FnP) and isinstance(b, FnP): return a.fn is b.fn
    if type(a) == type(b) and not isz(a):
        try: return a == b
        except Exception: return False
    return False
def int_rid(v, st): return None
def mem_havoc_all(s, rid):
    r = s.wregion(rid)
    if s.wlog is not None: s.wlog.append((rid, 0, None))
    r.cells = {}; r.log = (("havoc", 0, None, fresh_arr("h_" + r.name)),)

def loop_name(d):
    """the name of a function without its template arguments and parameters"""
    out = []; depth = 0; i = 0
    d = d.replace("(anonymous namespace)", "{anon}")
    while i < len(d):
        c = d[i]
        if d.startswith("operator", i) and i + 8 < len(d) and d[i + 8] in "<>=-(": 
            j = i + 8
            while j < len(d) and d[j] in "<>=-": j += 1
            if depth == 0: out.append(d[i:j])
            i = j; continue
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif c == "(" and depth == 0: break
        elif depth == 0: out.append(c)
        i += 1
    r = "".join(out).strip()
    return r.split(" ")[-1]
_KL = None
def known_loops():
    """functions with a loop for which the specs were written; what fails behind any other loop is undecided
    (its invariant has not been written), not a violation"""
    global _KL
    if _KL is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "known_loops.txt")) as f: _KL = {l.strip() for l in f if l.strip()}
    return _KL
