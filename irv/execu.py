"""Verification-condition generation by forward symbolic execution of LLVM IR with contracts.
 - a call to a function with a contract is replaced by the contract (requires asserted, frame havocked, ensures assumed)
 - a call to a function of the module without a contract is inlined
 - every loop is cut at its header by an inductive invariant (initiation and preservation are obligations)
 - every memory access carries a bounds/liveness obligation."""
import z3, time, re, os
from . import core
from .core import *
from .llir import Reg, Const, succs

class Exc:
    def __init__(s, types, what=None, **kw): s.types = types; s.what = what; s.__dict__.update(kw); s.rid = None
class Ret:
    def __init__(s, st, val=None): s.st = st; s.val = val
class Throw:
    def __init__(s, st, exc): s.st = st; s.exc = exc
class Stop:
    """the path ends here (noreturn, or assumed not to return)"""
    def __init__(s, st, why): s.st = st; s.why = why

class Done:
    """a finished path: kind in ret, throw, stop, cut, loopexit"""
    def __init__(s, kind, st, val=None): s.kind = kind; s.st = st; s.val = val

TIMEOUT_MS = int(os.environ.get("IRV_TIMEOUT_MS", "20000"))

class Solver:
    def __init__(s):
        s.s = z3.Solver(); s.s.set("timeout", TIMEOUT_MS); s.stack = []; s.time = 0.0; s.queries = 0; s.cache = {}; s.keep = []; s.gaveup = 0
    def _sync(s, pc):
        k = 0; n = min(len(pc), len(s.stack))
        while k < n and pc[k].get_id() == s.stack[k].get_id(): k += 1
        if len(s.stack) > k:
            s.s.pop(len(s.stack) - k); del s.stack[k:]
        for f in pc[k:]:
            s.s.push(); s.s.add(f); s.stack.append(f)
    def check(s, st, *extra, timeout=None):
        t = time.time(); s.queries += 1
        s._sync(st.pc)
        if timeout: s.s.set("timeout", timeout)
        r = s.s.check(*extra)
        if timeout: s.s.set("timeout", TIMEOUT_MS)
        s.time += time.time() - t
        return r
    def feasible(s, st, f):
        if isinstance(f, int): return bool(f)
        k = (tuple(x.get_id() for x in st.pc), f.get_id()); r = s.cache.get(k)
        if r is None:
            r = s.check(st, f, timeout=5000) != z3.unsat
            s.cache[k] = r; s.keep.append(f)
        return r
    def must(s, st, f, patient=False):
        """True if f follows from the path condition; a solver timeout counts as False and is counted in s.gaveup"""
        f = z3.simplify(zb(f))
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        k = (tuple(x.get_id() for x in st.pc), -f.get_id()); r = s.cache.get(k)
        if r is None or (patient and r == "gaveup"):
            c = s.check(st, z3.Not(f), timeout=2000 if patient else 500)
            if c == z3.unknown:
                s2 = z3.Solver()
                for x in st.pc: s2.add(x)
                s2.add(z3.Not(f))
                q = cvc5_try(s2, s, 20000 if patient else 6000, INTBLAST)
                if q not in ("unsat", "sat") and patient:
                    t = time.time(); s3 = z3.SolverFor("QF_AUFBV"); s3.set("timeout", 20000)
                    for x in st.pc: s3.add(x)
                    s3.add(z3.Not(f)); q = str(s3.check()); s.time += time.time() - t
                c = z3.unsat if q == "unsat" else z3.sat if q == "sat" else z3.unknown
            r = True if c == z3.unsat else False if c == z3.sat else "gaveup"
            s.cache[k] = r; s.keep.append(f)
        if r == "gaveup": s.gaveup += 1; return False
        return r
    def prove(s, st, f):
        """-> ('proved', None, solver) | ('failed', model, solver) | ('unknown', reason, solver)"""
        f = z3.simplify(zb(f))
        if z3.is_true(f): return ("proved", None, "simplifier")
        r = s.check(st, z3.Not(f), timeout=1500)
        if r == z3.unsat: return ("proved", None, "z3")
        if r == z3.sat: return ("failed", s.s.model(), "z3")
        s0 = z3.Solver()
        for x in st.pc: s0.add(x)
        s0.add(z3.Not(f))
        t = time.time(); s0.set("timeout", 5000); r = s0.check(); s.time += time.time() - t      # from scratch: preprocessing often beats the incremental solver
        if r == z3.unsat: return ("proved", None, "z3")
        if r == z3.sat: return ("failed", s0.model(), "z3")
        if cvc5_try(s0, s, 15000, INTBLAST) == "unsat": return ("proved", None, "cvc5/int-blast")
        # fresh, non-incremental attempt
        t = time.time()
        s2 = z3.SolverFor("QF_AUFBV"); s2.set("timeout", 3 * TIMEOUT_MS)
        for x in st.pc: s2.add(x)
        s2.add(z3.Not(f)); r = s2.check(); s.time += time.time() - t
        if r == z3.unsat: return ("proved", None, "z3/QF_AUFBV")
        if r == z3.sat: return ("failed", s2.model(), "z3/QF_AUFBV")
        r = cvc5_try(s2, s)
        if r == "unsat": return ("proved", None, "cvc5")
        return ("unknown", s2.reason_unknown(), "z3+cvc5")

INTBLAST = ("--solve-bv-as-int=sum",)
def cvc5_try(s2, owner, tmo=60000, opts=()):
    import subprocess, tempfile
    t = time.time()
    txt = "(set-logic ALL)\n" + s2.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
    try:
        o = subprocess.run(["cvc5", f"--tlimit={tmo}", *opts, f.name], capture_output=True, text=True, timeout=tmo / 1000 + 30).stdout
    except Exception: o = ""
    os.unlink(f.name)
    owner.time += time.time() - t
    return o.split("\n")[0].strip()

class Obl:
    def __init__(s, name, loc, status, info, solver, trail): s.name = name; s.loc = loc; s.status = status; s.info = info; s.solver = solver; s.trail = trail

class LoopSpec:
    """invs: functions (ex, st, entry_st) -> formula (candidates, kept if inductive);
       objs: invariant objects with covers(st, rid, off) / havoc(ex, st) / check(ex, st) -> list of (name, formula);
       unroll: maximum number of concretely decided iterations executed without a cut."""
    def __init__(s, invs=(), objs=(), required=(), auto=True):
        s.auto = auto; s.invs = list(invs); s.objs = list(objs); s.required = list(required)

class Exec:
    def __init__(self, mod, name="", contracts=(), loops=None, maxpaths=4000, unroll=70):
        self.mods = mod if isinstance(mod, list) else [mod]
        self.name = name; self.contracts = list(contracts); self.loopspec = loops
        self.solver = Solver(); core.SOLVER = self.solver
        self.obls = []; self.mode = "real"; self.gl = {}; self.fns_inlined = {}; self.fns_contract = {}
        self.covers = {}; self.maxpaths = maxpaths; self.unroll = unroll; self.loops_cut = 0; self.houdini = []
        self.t0 = time.time(); self.steps = 0; self.deadline = None
        self.assume_only = False
        self._cc = {}; self._divc = {}
        self.strict_na = True
        self.phase = ("real",); self.mcache = {}
        self.rem_hook = None     # (ex, st, a, b) -> a mod b for a symbolic divisor, or None
        self.addr_taken = {}
        self.loop_stack = 0
        self.targets = []
        self.max_steps = 3000000
        self.inv_gaveup = 0      # candidate invariants dropped only because the solver gave no answer
    # ------------------------------------------------------------------ obligations
    def loc(self, st):
        for f in reversed(st.frames):
            ins = f.bb.insts[min(f.pos if isinstance(f.pos, int) else 0, len(f.bb.insts) - 1)] if f.bb else None
            if ins is not None and ins.line and ins.file and "/repo/" in os.path.abspath(ins.file):
                return f"{ins.file}:{ins.line} ({f.fn.dname[:90]})"
        for f in reversed(st.frames):
            ins = f.bb.insts[min(f.pos if isinstance(f.pos, int) else 0, len(f.bb.insts) - 1)] if f.bb else None
            if ins is not None and ins.line: return f"{ins.file}:{ins.line} ({f.fn.dname[:90]})"
        return "-"
    def oblige(self, st, f, name):
        """assert f here; afterwards f is assumed"""
        if self.mode == "real":
            f = zb(f)
            status, info, solver = self.solver.prove(st, f)
            if status == "failed" and self.inv_gaveup: status, info = "unknown", "a loop invariant was given up because the solver timed out"
            if status == "failed" and any(isinstance(t, str) and t.startswith("newloop") for t in st.trail): status, info = "unknown", next(t for t in st.trail if isinstance(t, str) and t.startswith("newloop"))[9:]
            self.obls.append(Obl(name, self.loc(st), status, info, solver, list(st.trail) if status != "proved" else None))
            if os.environ.get("IRV_DEBUG") and status != "proved":
                print("OBL", status, name, self.loc(st), st.trail[-12:]); 
                if status == "failed" and os.environ["IRV_DEBUG"] == "2": print(info)
                print("   goal", str(z3.simplify(f))[:400])
        st.assume(f)
    def fail(self, st, name):
        self.oblige(st, z3.BoolVal(False), name)
    def cover(self, st, name):
        if self.mode == "real" and not self.covers.get(name):
            self.covers[name] = self.solver.check(st) == z3.sat
    # ------------------------------------------------------------------ lookup
    def find(self, pat, body=True):
        """the function whose demangled name matches the regex pat (searched in all modules)"""
        c = []
        for m in self.mods:
            for f in m.fns.values():
                if re.search(pat, f.dname) and (not body or not f.decl): c.append(f)
        if not c: raise Unsupported(f"function not found: {pat}")
        return c
    def fn(self, pat):
        c = self.find(pat)
        names = {f.name for f in c}
        # constructors/destructors appear as C1/C2, D1/D2 variants
        if len(names) > 1:       # closures defined inside the function carry its name too
            c = [f for f in c if not re.search(r"\{lambda|'lambda|::\$_\d", f.dname)] or c; names = {f.name for f in c}
            if len(names) == 1: return c[0]
        if len(names) > 1:
            base = [f for f in c if re.search(r"(C1|D1)E", f.name)]
            base2 = [f for f in c if re.search(r"(C2|D2)E", f.name)]
            if base2 and len({x.name for x in base2}) == 1: return base2[0]
            if base and len({x.name for x in base}) == 1: return base[0]
            raise Unsupported(f"ambiguous function {pat}: {[f.dname for f in c][:6]}")
        return c[0]
    def contract(self, fn):
        k = fn.name
        if k in self._cc: return self._cc[k]
        r = None
        for pat, h in self.contracts:
            if (pat(fn) if callable(pat) else re.search(pat, fn.dname)): r = h; break
        self._cc[k] = r
        return r
    def body_of(self, fn):
        if not fn.decl: return fn
        for m in self.mods:
            g = m.fns.get(fn.name)
            if g is not None and not g.decl: return g
        return fn
    # ------------------------------------------------------------------ constants
    def const(self, st, c):
        k = c.kind
        if k == "int" or k == "null": return c.v
        if k == "undef": return self.undef_of(c.ty)
        if k == "zero": return self.zero(c.ty)
        if k == "fn": return FnP(self.body_of(c.v))
        if k == "global": return Ptr(self.global_region(st, c.v), 0)
        if k == "agg": return [self.const(st, x) for x in c.v]
        if k == "str": return list(c.v)
        if k == "fp": return Dbl()
        if k == "expr":
            op, ops, x = c.v
            if op == "gep": return self.gep(st, x, [self.const(st, o) for o in ops], [o.ty for o in ops])
            if op in ("bitcast", "addrspacecast"): return self.const(st, ops[0])
            if op == "ptrtoint": return addr(st, self.const(st, ops[0]))
            if op == "inttoptr": return resolve(st, self.const(st, ops[0]))
            if op in ("sub", "add"):
                a, b = (addr(st, self.const(st, o)) for o in ops)
                return (sub if op == "sub" else add)(a, b, c.ty.width)
            if op == "trunc":
                a = addr(st, self.const(st, ops[0])); return mask(a, c.ty.width) if isinstance(a, int) else simp(z3.Extract(c.ty.width - 1, 0, a))
        if k == "meta": return 0
        if k == "asm": return ("asm", c.v)
        raise Unsupported(f"constant {k} {c.v}")
    def undef_of(self, ty):
        if ty.kind == "struct": return [self.undef_of(t) for t in ty.elts]
        if ty.kind == "array": return [self.undef_of(ty.elts[0]) for _ in range(ty.n)]
        return UNDEF
    def zero(self, ty):
        if ty.kind == "struct": return [self.zero(t) for t in ty.elts]
        if ty.kind == "array": return [self.zero(ty.elts[0]) for _ in range(ty.n)]
        if ty.kind in ("double", "float"): return Dbl()
        return 0
    def global_region(self, st, name):
        rid = self.gl.get(name)
        if rid is not None and rid in st.mem: return rid
        mod = init = None; tls = False
        for m in self.mods:
            if name in m.globals:
                ty, i, ro, tls = m.global_init(name)
                if mod is None or (init is None and i is not None): mod, init, gty, isro = m, i, ty, ro
        size = gty.size if gty.size is not None else 64
        if rid is not None:
            # created in another path; recreate with the same identity
            r = self.gl_proto[name].copy(st.tok); st.mem[rid] = r
            self._region_facts(st, r)
        else:
            r = new_region(st, name[:40], size, align=16, kind="global"); rid = r.rid; self.gl[name] = rid
            r.tag = name
        isfinal = init is not None and (isro or self.init_globals(name))
        r.cells = {}
        if isfinal: self.init_region(st, rid, 0, init)
        r = st.mem[rid]; r.ro = bool(init is not None and isro)
        if not hasattr(self, "gl_proto"): self.gl_proto = {}
        self.gl_proto[name] = r.copy(None)
        return rid
    def init_globals(self, name): return True
    def _region_facts(self, st, r):
        st.assume(z3.UGE(r.base, z3.BitVecVal(4096, 64))); st.assume(z3.ULT(r.base, z3.BitVecVal(1 << 47, 64)))
        st.assume(z3.ULE(r.base + bv(r.size), z3.BitVecVal(1 << 47, 64)))
        if r.align > 1: st.assume((r.base & z3.BitVecVal(r.align - 1, 64)) == 0)
    def init_region(self, st, rid, off, c):
        ty = c.ty
        r = st.mem[rid]
        if c.kind == "zero":
            if ty.size > 4096: r.zero = True; return
            for k in range(0, ty.size - ty.size % 8, 8): r.cells[off + k] = (8, 0)
            for k in range(ty.size - ty.size % 8, ty.size): r.cells[off + k] = (1, 0)
        elif c.kind == "str":
            for k, b in enumerate(c.v): r.cells[off + k] = (1, b)
        elif c.kind == "agg":
            if ty.kind == "struct":
                for x, o in zip(c.v, ty.offs): self.init_region(st, rid, off + o, x)
            else:
                for k, x in enumerate(c.v): self.init_region(st, rid, off + k * ty.elts[0].size, x)
        elif c.kind == "undef": pass
        else:
            v = self.const(st, c)
            st.mem[rid].cells[off] = (ty.size, v)
    # ------------------------------------------------------------------ memory
    def bounds(self, st, p, n, what, write):
        if isinstance(p, FnP): raise Unsupported("data access to a function")
        if not isinstance(p, Ptr):
            if isinstance(p, int) or p is UNDEF:
                self.fail(st, f"{what}: valid pointer"); return None
            q = resolve(st, p)
            if not isinstance(q, Ptr): raise Unsupported(f"unresolved pointer {str(p)[:80]}")
            p = q
        r = st.mem.get(p.rid)
        if r is None: raise Unsupported("dangling region")
        if not r.live: self.fail(st, f"{what}: object is alive ({r.name})"); return p
        if isinstance(p.off, int) and isinstance(r.size, int) and isinstance(n, int):
            if not (0 <= p.off and p.off + n <= r.size): self.fail(st, f"{what}: inside {r.name}"); return None
        else:
            off = bv(p.off); size = bv(r.size); nn = bv(n)
            self.oblige(st, z3.And(z3.ULE(off, size), z3.ULE(nn, size - off)), f"{what}: inside {r.name}")
        if write and r.ro: self.fail(st, f"{what}: {r.name} is writable")
        if r.check: r.check(self, st, p, n, write)
        return p
    def load(self, st, p, ty, ins=None, order="na"):
        if ty.kind in ("struct", "array"):
            if ty.kind == "struct": return [self.load(st, self.padd(p, o), t, ins) for t, o in zip(ty.elts, ty.offs)]
            return [self.load(st, self.padd(p, k * ty.elts[0].size), ty.elts[0], ins) for k in range(ty.n)]
        if ty.kind == "vector": raise Unsupported("vector load")
        n = (ty.width + 7) // 8 if ty.kind == "int" else ty.size      # store size, not the padded size
        p = self.bounds(st, p, n, "load", False)
        if p is None: return self.fresh_of(ty)
        r = st.mem[p.rid]
        if r.shared:
            h = r.shared(self, st, p, n)
            if h:
                v = h(self, st, "load", order, n, None)
                return self.coerce(st, v, ty)
        v = mem_read(st, p.rid, p.off, n)
        return self.coerce(st, v, ty)
    def coerce(self, st, v, ty):
        if ty.kind == "ptr":
            if isz(v): return resolve(st, v)
            return v
        if ty.kind == "int":
            if isinstance(v, (Ptr, FnP)): v = addr(st, v)
            if v is UNDEF: return UNDEF
            if isinstance(v, Dbl): return fresh("dbl", ty.width)
            if ty.width == 1:
                if isinstance(v, int): return v & 1
                if z3.is_bool(v): return v
                return simp(z3.Extract(0, 0, v) == 1)
            if z3.is_bool(v) if isz(v) else False: return bv(v, ty.width)
            if isinstance(v, int): return mask(v, ty.width)
            if v.size() > ty.width: return simp(z3.Extract(ty.width - 1, 0, v))
            if v.size() < ty.width: return simp(z3.ZeroExt(ty.width - v.size(), v))
            return v
        if ty.kind in ("double", "float", "x86_fp80"): return v if isinstance(v, Dbl) else Dbl()
        return v
    def store(self, st, p, v, ty, order="na"):
        if ty.kind == "struct":
            for x, t, o in zip(v, ty.elts, ty.offs): self.store(st, self.padd(p, o), x, t)
            return
        if ty.kind == "array":
            for k, x in enumerate(v): self.store(st, self.padd(p, k * ty.elts[0].size), x, ty.elts[0])
            return
        if ty.kind == "vector": raise Unsupported("vector store")
        n = (ty.width + 7) // 8 if ty.kind == "int" else ty.size
        p = self.bounds(st, p, n, "store", True)
        if p is None: return
        r = st.mem[p.rid]
        if ty.kind == "int" and ty.width < 8 * n and not isinstance(v, int) and v is not UNDEF:
            v = bv(v, 8 * n) if z3.is_bool(v) else z3.ZeroExt(8 * n - ty.width, v)
        if r.shared:
            h = r.shared(self, st, p, n)
            if h: h(self, st, "store", order, n, v); return
        mem_write(st, p.rid, p.off, n, v)
    def padd(self, p, d):
        if isinstance(p, Ptr): return Ptr(p.rid, add(p.off, d))
        if isinstance(p, FnP): raise Unsupported("arithmetic on a function pointer")
        if p is UNDEF: return UNDEF
        return add(p, d)
    def fresh_of(self, ty):
        if ty.kind == "int": return fresh("v", ty.width)
        if ty.kind == "ptr": return fresh("p", 64)
        if ty.kind == "struct": return [self.fresh_of(t) for t in ty.elts]
        if ty.kind == "array": return [self.fresh_of(ty.elts[0]) for _ in range(ty.n)]
        if ty.kind == "void": return None
        return Dbl()
    def gep(self, st, srcty, vals, tys):
        p = vals[0]; off = 0; ty = srcty
        for k, v in enumerate(vals[1:]):
            w = tys[k + 1].width
            if v is UNDEF: v = fresh("undef", w)
            if isz(v) and w < 64: v = z3.SignExt(64 - w, v)
            elif isinstance(v, int) and w < 64 and v >> (w - 1): v = mask(v - (1 << w), 64)
            if k == 0: off = add(off, self.mulc(v, ty.size))
            elif ty.kind == "struct": off = add(off, ty.offs[v]); ty = ty.elts[v]
            elif ty.kind in ("array", "vector"): ty = ty.elts[0]; off = add(off, self.mulc(v, ty.size))
            else: raise Unsupported("gep")
        return self.padd(p, off)
    def mulc(self, v, n):
        if isinstance(v, int): return mask(v * n, 64)
        if n == 1: return v
        return simp(v * z3.BitVecVal(n, 64))
    # ------------------------------------------------------------------ running
    def call_fn(self, st, fn, args, ret_ins=None):
        fn.mod.body(fn)
        f = Frame(); f.fn = fn; f.regs = {}; f.bb = fn.blocks[0]; f.prev = None; f.pos = 0; f.ret_ins = ret_ins; f.cuts = {}; f.allocas = []
        f.depth = len(st.frames)
        if f.depth > 120: raise Unsupported("call depth")
        for (i, t), a in zip(fn.params, args): f.regs[i] = a
        st.frames.append(f)
        if fn.loops and fn.blocks[0] in fn.loops: raise Unsupported("entry block is a loop header")
    def run(self, st, fn, args):
        """Executes fn from state st; returns the list of finished paths (Done)."""
        self.targets.append(fn.dname)
        self.call_fn(st, fn, args)
        return self.explore([st], 0)
    def explore(self, work, base_depth, loop=None):
        """Runs all states until the frame at base_depth returns (or, with loop=(depth, header, body): until the
        header is reached again -> 'cut', or the loop is left -> 'loopexit')."""
        out = []; work = list(work)
        while work:
            st = work.pop()
            if len(out) + len(work) > self.maxpaths: raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget for this function used up")
            try:
                r = self.run_path(st, base_depth, loop, work)
            except NeedFork as nf:
                # case split on a condition inside a pointer value, then re-execute the instruction
                c = nf.cond
                for b in (True, False):
                    if self.solver.feasible(st, c if b else z3.Not(c)):
                        s2 = st.fork(); s2.assume(c if b else z3.Not(c)); s2.known[c.get_id()] = (c, b); work.append(s2)
                continue
            if r is not None: out.append(r)
        return out
    def jump(self, st, f, target):
        src = f.bb
        vals = [(p.id, self.val(st, f, next(v for v, b in p.ops if b is src))) for p in target.phis]
        for i, v in vals: f.regs[i] = v
        f.prev = src; f.bb = target; f.pos = len(target.phis)
        return "jumped"
    def val(self, st, f, o):
        if isinstance(o, Reg):
            try: return f.regs[o.id]
            except KeyError: raise Unsupported("use of an undefined register")
        return self.const(st, o)
    def branch(self, st, f, cond, t, e, work):
        if cond is UNDEF: cond = fresh("undef", 1)
        c = simp(zb(cond))
        if isinstance(c, int): return self.jump(st, f, t if c else e)
        k = st.known.get(c.get_id())
        ft = self.solver.feasible(st, c); fe = self.solver.feasible(st, z3.Not(c))
        if ft and fe:
            s2 = st.fork(); s2.assume(z3.Not(c)); f2 = s2.frames[-1]
            s2.known[c.get_id()] = (c, False)
            r = self.jump_pending(s2, f2, e); work.append(s2)
            st.assume(c); st.known[c.get_id()] = (c, True); return self.jump(st, f, t)
        if ft: st.assume(c); return self.jump(st, f, t)
        if fe: st.assume(z3.Not(c)); return self.jump(st, f, e)
        return "killed"
    def jump_pending(self, st, f, target):
        """the forked state must notice its arrival at `target` when resumed: mark with a pending jump"""
        f.pos = ("jump", target)
    # ------------------------------------------------------------------ one instruction
    def step(self, st, f, ins, work, base_depth):
        op = ins.op; R = f.regs
        h = getattr(self, "i_" + op, None)
        if h is None:
            raise Unsupported(f"instruction {op}")
        return h(st, f, ins, work, base_depth)
    def bin(self, st, f, ins, cf, zf):
        w = ins.ty.width
        if ins.ty.kind == "vector": raise Unsupported("vector op")
        a, b = (self.val(st, f, o) for o in ins.ops)
        if a is UNDEF: a = fresh("undef", w)
        if b is UNDEF: b = fresh("undef", w)
        if isinstance(a, (Ptr, FnP)): a = addr(st, a)
        if isinstance(b, (Ptr, FnP)): b = addr(st, b)
        if isinstance(a, int) and isinstance(b, int): r = mask(cf(a, b, w), w)
        elif w == 1:
            a, b = zb(a), zb(b)
            r = simp({"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor}[ins.op](a, b))
        else:
            r = None
            if ins.op == "and" and w == 64 and isinstance(b, int): r = and_mask(st, a, b)
            if r is None: r = simp(zf(bv(a, w), bv(b, w)))
        f.regs[ins.id] = r; f.pos += 1
    def i_add(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a + b, lambda a, b: a + b)
    def i_sub(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a - b, lambda a, b: a - b)
    def i_mul(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a * b, lambda a, b: a * b)
    def i_and(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a & b, lambda a, b: a & b)
    def i_or(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a | b, lambda a, b: a | b)
    def i_xor(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a ^ b, lambda a, b: a ^ b)
    def i_shl(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a << b if b < w else 0, lambda a, b: a << b)
    def i_lshr(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: a >> b if b < w else 0, lambda a, b: z3.LShR(a, b))
    def i_ashr(s, st, f, i, w, d): s.bin(st, f, i, lambda a, b, w: sgn(a, w) >> min(b, w - 1), lambda a, b: a >> b)
    def _div(s, st, f, i, cf, zf):
        b = s.val(st, f, i.ops[1]); w = i.ty.width
        if isinstance(b, int):
            if b == 0: s.fail(st, "division: divisor is not zero"); f.regs[i.id] = fresh("div", w); f.pos += 1; return
        elif b is not UNDEF: s.oblige(st, b != 0, "division: divisor is not zero")
        a = s.val(st, f, i.ops[0])
        if s.rem_hook is not None and i.op == "urem" and isz(b):
            r = s.rem_hook(s, st, a, b)
            if r is not None: f.regs[i.id] = r; f.pos += 1; return
        if isinstance(b, int) and isz(a) and z3.is_bv(a) and w >= 32 and (b & (b - 1)):
            # division by a constant: quotient and remainder introduced by their defining equation
            sg = i.op[0] == "s"; c = sgn(b, w) if sg else b
            if c > 0:
                k = (a.get_id(), b, sg); hit = s._divc.get(k)
                if hit is None: hit = s._divc[k] = (fresh("quot", w), fresh("rem", w), a)
                q, r, _ = hit; C = z3.BitVecVal(c, w); lim = ((1 << (w - 1)) if sg else (1 << w) - 1) // c
                st.assume(a == q * C + r)
                if sg: st.assume(AND(q <= lim, q >= -lim, z3.If(a >= 0, AND(r >= 0, r < C, q >= 0), AND(r <= 0, r > -C, q <= 0))))
                else: st.assume(AND(z3.ULE(q, z3.BitVecVal(lim, w)), z3.ULT(r, C), z3.UGE(a, q * C)))
                # q is exact: q*c cannot wrap within the limit
                f.regs[i.id] = q if i.op.endswith("div") else r; f.pos += 1; return
        s.bin(st, f, i, cf, zf)
    def i_udiv(s, st, f, i, w, d): s._div(st, f, i, lambda a, b, w: a // b, lambda a, b: z3.UDiv(a, b))
    def i_urem(s, st, f, i, w, d): s._div(st, f, i, lambda a, b, w: a % b, lambda a, b: z3.URem(a, b))
    def i_sdiv(s, st, f, i, w, d):
        s._div(st, f, i, lambda a, b, w: int(abs(sgn(a, w)) // abs(sgn(b, w)) * (1 if (sgn(a, w) < 0) == (sgn(b, w) < 0) else -1)), lambda a, b: a / b)
    def i_srem(s, st, f, i, w, d):
        s._div(st, f, i, lambda a, b, w: int(abs(sgn(a, w)) % abs(sgn(b, w)) * (-1 if sgn(a, w) < 0 else 1)), lambda a, b: z3.SRem(a, b))
    def i_icmp(self, st, f, ins, w, d):
        a, b = (self.val(st, f, o) for o in ins.ops)
        f.regs[ins.id] = self.icmp(st, ins.x, a, b, ins); f.pos += 1
    def icmp(self, st, p, a, b, ins=None):
        if a is UNDEF or b is UNDEF: return fresh("undef", 1)
        if isinstance(a, (Ptr, FnP)) or isinstance(b, (Ptr, FnP)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid and p in ("eq", "ne"):
                    c = eq(a.off, b.off); c = simp(c)
                    return c if p == "eq" else simp(NOT(c))
                if a.rid != b.rid and p in ("eq", "ne"):
                    ra, rb = st.mem[a.rid], st.mem[b.rid]
                    if self.inb(st, a, ra) and self.inb(st, b, rb): return 0 if p == "eq" else 1
                    if ra.live and rb.live:
                        st.assume(z3.Or(z3.ULE(ra.base + bv(ra.size), rb.base), z3.ULE(rb.base + bv(rb.size), ra.base)))
            if isinstance(a, FnP) and isinstance(b, FnP) and p in ("eq", "ne"):
                e = a.fn.name == b.fn.name; return int(e if p == "eq" else not e)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Ptr, FnP)) and isinstance(y, int) and y == 0 and p in ("eq", "ne"):
                    if isinstance(x, FnP): return 0 if p == "eq" else 1
                    if isinstance(x.off, int) and x.off < (1 << 46): return 0 if p == "eq" else 1
            a, b = addr(st, a), addr(st, b)
        if isinstance(a, int) and isinstance(b, int):
            wd = 64
            if ins is not None:
                t = self.opty(st, ins)
                if t is not None: wd = t
            sa, sb = sgn(a, wd), sgn(b, wd)
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                        "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[p])
        if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            a, b = zb(a), zb(b)
            if p == "eq": return simp(a == b)
            if p == "ne": return simp(z3.Xor(a, b))
            a, b = bv(a, 8), bv(b, 8)
        wd = a.size() if isz(a) else b.size()
        a, b = bv(a, wd), bv(b, wd)
        F = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE,
             "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}
        return simp(F[p](a, b))
    def opty(self, st, ins):
        for o in ins.ops:
            if isinstance(o, Const):
                return o.ty.width if o.ty.kind == "int" else 64
        o = ins.ops[0]
        fn = ins.bb.fn
        tys = getattr(fn, "regty", None)
        if tys is None:
            tys = fn.regty = {i: t for i, t in fn.params}
            for b in fn.blocks:
                for x in b.insts: tys[x.id] = x.ty
        t = tys[o.id]
        return t.width if t.kind == "int" else 64
    def inb(self, st, p, r):
        if isinstance(p.off, int) and isinstance(r.size, int): return p.off < r.size
        return self.solver.must(st, z3.ULT(bv(p.off), bv(r.size)))
    def i_alloca(self, st, f, ins, w, d):
        ty, al = ins.x
        r = new_region(st, f"stk{ins.id}", ty.size if ty.size else 1, align=max(al, 1), kind="stack")
        f.allocas.append(r.rid); f.regs[ins.id] = Ptr(r.rid, 0); f.pos += 1
    def i_load(self, st, f, ins, w, d):
        p = self.val(st, f, ins.ops[0])
        f.regs[ins.id] = self.load(st, p, ins.ty, ins, ins.x[0]); f.pos += 1
    def i_store(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0]); p = self.val(st, f, ins.ops[1])
        self.store(st, p, v, ins.x[1], ins.x[0]); f.pos += 1
    def i_atomicrmw(self, st, f, ins, w, d):
        p = self.val(st, f, ins.ops[0]); v = self.val(st, f, ins.ops[1]); n = ins.ty.size
        p = self.bounds(st, p, n, "rmw", True)
        r = st.mem[p.rid]
        if r.shared:
            h = r.shared(self, st, p, n)
            if h:
                f.regs[ins.id] = h(self, st, "rmw:" + ins.x[0], ins.x[1], n, v); f.pos += 1; return
        old = self.coerce(st, mem_read(st, p.rid, p.off, n), ins.ty); W = ins.ty.width if ins.ty.kind == "int" else 64
        new = self.rmw(ins.x[0], old, v, W)
        mem_write(st, p.rid, p.off, n, new); f.regs[ins.id] = old; f.pos += 1
    def rmw(self, op, old, v, W):
        if op == "xchg": return v
        if op == "add": return add(old, v, W)
        if op == "sub": return sub(old, v, W)
        if op == "or": return simp(bv(old, W) | bv(v, W))
        if op == "and": return simp(bv(old, W) & bv(v, W))
        raise Unsupported("rmw " + str(op))
    def i_cmpxchg(self, st, f, ins, work, d):
        p = self.val(st, f, ins.ops[0]); cmpv = self.val(st, f, ins.ops[1]); new = self.val(st, f, ins.ops[2])
        ty = ins.ty.elts[0]; n = ty.size
        p = self.bounds(st, p, n, "cmpxchg", True); r = st.mem[p.rid]
        if r.shared:
            h = r.shared(self, st, p, n)
            if h:
                old, ok = h(self, st, "cmpxchg", ins.x, n, (cmpv, new)); f.regs[ins.id] = [old, ok]; f.pos += 1; return
        old = self.coerce(st, mem_read(st, p.rid, p.off, n), ty)
        ok = self.icmp(st, "eq", old, cmpv)
        if isinstance(ok, int):
            if ok: mem_write(st, p.rid, p.off, n, new)
        else: mem_write(st, p.rid, p.off, n, simp(z3.If(ok, bv(addr(st, new), 8 * n), bv(addr(st, old), 8 * n))))
        f.regs[ins.id] = [old, ok]; f.pos += 1
    on_fence = None
    asm_hooks = ()
    def i_fence(self, st, f, ins, w, d):
        if self.on_fence: self.on_fence(self, st, ins.x if isinstance(ins.x, str) else ins.x[0])
        f.pos += 1
    def i_gep(self, st, f, ins, w, d):
        vals = [self.val(st, f, o) for o in ins.ops]
        tys = getattr(ins, "_t", None)
        f.regs[ins.id] = self.gep(st, ins.x, vals, self._optys(ins)); f.pos += 1
    def _optys(self, ins):
        fn = ins.bb.fn; tys = getattr(fn, "regty", None)
        if tys is None:
            tys = fn.regty = {i: t for i, t in fn.params}
            for b in fn.blocks:
                for x in b.insts: tys[x.id] = x.ty
        return [o.ty if isinstance(o, Const) else tys[o.id] for o in ins.ops]
    def i_zext(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0])
        if v is UNDEF: v = fresh("undef", ins.x.width)
        W = ins.ty.width
        f.regs[ins.id] = v if isinstance(v, int) else (bv(v, W) if z3.is_bool(v) else simp(z3.ZeroExt(W - v.size(), v))); f.pos += 1
    def i_sext(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0]); W = ins.ty.width
        if v is UNDEF: v = fresh("undef", ins.x.width)
        if isinstance(v, int): r = mask(sgn(v, ins.x.width), W)
        elif z3.is_bool(v): r = simp(z3.If(v, z3.BitVecVal(-1, W), z3.BitVecVal(0, W)))
        else: r = simp(z3.SignExt(W - v.size(), v))
        f.regs[ins.id] = r; f.pos += 1
    def i_trunc(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0]); W = ins.ty.width
        if v is UNDEF: r = UNDEF
        elif isinstance(v, int): r = mask(v, W)
        elif W == 1: r = simp(z3.Extract(0, 0, v) == 1)
        else: r = simp(z3.Extract(W - 1, 0, v))
        f.regs[ins.id] = r; f.pos += 1
    def i_ptrtoint(self, st, f, ins, w, d):
        v = addr(st, self.val(st, f, ins.ops[0]))
        if ins.ty.width < 64: v = mask(v, ins.ty.width) if isinstance(v, int) else simp(z3.Extract(ins.ty.width - 1, 0, v))
        f.regs[ins.id] = v; f.pos += 1
    def i_inttoptr(self, st, f, ins, w, d):
        f.regs[ins.id] = resolve(st, self.val(st, f, ins.ops[0])); f.pos += 1
    def i_bitcast(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0])
        if ins.ty.kind in ("double", "float"): v = Dbl()
        elif isinstance(v, Dbl): v = fresh("dbl", ins.ty.width)
        f.regs[ins.id] = v; f.pos += 1
    i_addrspacecast = i_bitcast
    def i_freeze(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0])
        f.regs[ins.id] = self.fresh_of(ins.ty) if v is UNDEF else v; f.pos += 1
    def _fp(self, st, f, ins, w, d): f.regs[ins.id] = Dbl(); f.pos += 1
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = i_fneg = i_fptrunc = i_fpext = i_sitofp = i_uitofp = _fp
    def i_fptosi(self, st, f, ins, w, d): f.regs[ins.id] = fresh("fp", ins.ty.width); f.pos += 1
    i_fptoui = i_fptosi
    def i_fcmp(self, st, f, ins, w, d): f.regs[ins.id] = fresh("fcmp", 1); f.pos += 1
    def i_select(self, st, f, ins, work, d):
        c, a, b = (self.val(st, f, o) for o in ins.ops)
        if c is UNDEF: c = fresh("undef", 1)
        c = simp(zb(c))
        if isinstance(c, int): r = a if c else b
        elif ins.ty.kind == "int" and a is not UNDEF and b is not UNDEF and not isinstance(a, Ptr) and not isinstance(b, Ptr):
            w = ins.ty.width
            r = simp(z3.If(c, zb(a), zb(b)) if w == 1 else z3.If(c, bv(a, w), bv(b, w)))
        else:
            k = st.known.get(c.get_id())
            if k is not None: r = a if k[1] else b
            elif self.solver.must(st, c): r = a
            elif self.solver.must(st, z3.Not(c)): r = b
            else: raise NeedFork(c)
        f.regs[ins.id] = r; f.pos += 1
    def i_extractvalue(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0])
        for k in ins.x: v = UNDEF if v is UNDEF else v[k]
        f.regs[ins.id] = v; f.pos += 1
    def i_insertvalue(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0]); x = self.val(st, f, ins.ops[1])
        if v is UNDEF: v = self.undef_of(ins.ty)
        def ins_(v, idx):
            v = list(v)
            if len(idx) == 1: v[idx[0]] = x
            else: v[idx[0]] = ins_(v[idx[0]], idx[1:])
            return v
        f.regs[ins.id] = ins_(v, ins.x); f.pos += 1
    def i_br(self, st, f, ins, work, d):
        if not ins.ops: return self.jump(st, f, ins.x[0])
        # br operand order in LLVM-C: cond; successors [true,false]
        return self.branch(st, f, self.val(st, f, ins.ops[0]), ins.x[0], ins.x[1], work)
    def i_switch(self, st, f, ins, work, d):
        v = self.val(st, f, ins.ops[0]); dflt, cases = ins.x
        if v is UNDEF: raise Unsupported("switch on undef")
        if isinstance(v, int):
            for c, b in cases:
                if c == v: return self.jump(st, f, b)
            return self.jump(st, f, dflt)
        w = v.size(); rest = []
        alts = []
        for c, b in cases:
            e = v == z3.BitVecVal(c, w); rest.append(z3.Not(e)); alts.append((e, b))
        alts.append((z3.And(*rest) if rest else z3.BoolVal(True), dflt))
        live = [(c, b) for c, b in alts if self.solver.feasible(st, z3.simplify(c))]
        if not live: return "killed"
        for c, b in live[1:]:
            s2 = st.fork(); s2.assume(c); self.jump_pending(s2, s2.frames[-1], b); work.append(s2)
        st.assume(live[0][0]); return self.jump(st, f, live[0][1])
    def i_unreachable(self, st, f, ins, w, d):
        # reached only if a noreturn callee returned; the callee handlers stop the path
        self.fail(st, "unreachable is not reached"); return "killed"
    def i_ret(self, st, f, ins, work, base_depth):
        v = self.val(st, f, ins.ops[0]) if ins.ops else None
        return self.do_return(st, v, base_depth)
    def do_return(self, st, v, base_depth):
        f = st.frames.pop()
        for rid in f.allocas:
            if rid in st.mem:
                r = st.wregion(rid); r.live = False
        if len(st.frames) == base_depth: return Done("ret", st, v)
        return self.resume_after(st, f.ret_ins, v)
    def resume_after(self, st, ins, v):
        f = st.frames[-1]
        if ins is None: raise Unsupported("return to nowhere")
        if ins.ty.kind != "void": f.regs[ins.id] = v
        if ins.op == "invoke": return self.jump(st, f, ins.x["normal"])
        f.pos += 1
        return None
    def unwind(self, st, exc, base_depth, ins=None):
        """propagates exc from the current top frame at call instruction ins (or from inside it)"""
        while True:
            f = st.frames[-1]
            if ins is not None and ins.op == "invoke":
                st.g["$exc"] = exc
                return self.jump(st, f, ins.x["unwind"])
            f = st.frames.pop()
            for rid in f.allocas:
                if rid in st.mem: st.wregion(rid).live = False
            if len(st.frames) == base_depth: return Done("throw", st, exc)
            ins = f.ret_ins
    def exc_region(self, st, exc):
        if exc.rid is None or exc.rid not in st.mem:
            r = new_region(st, "exc", 64, kind="exc"); exc.rid = r.rid
            vt = new_region(st, "excvt", 64, kind="global")
            def what(ex, st, args, ins):
                if getattr(exc, "whatp", None) is None or exc.whatp.rid not in st.mem:
                    q = cstring(st, "what"); exc.whatp = q
                return exc.whatp
            vt.cells[16] = (8, FnP(Pseudo("vp::exception::what", what)))
            r.cells[0] = (8, Ptr(vt.rid, 0))
        return exc.rid
    def i_landingpad(self, st, f, ins, w, d):
        exc = st.g["$exc"]; cleanup, clauses = ins.x
        sel = None
        for c in clauses:
            n = c.v if c.kind == "global" else None
            if c.kind in ("null",) or (c.kind == "zero"): sel = self.typeid(None); break
            if c.kind == "global" and n in exc.types: sel = self.typeid(n); break
        if sel is None:
            if not cleanup:
                # no matching clause: the personality would continue unwinding past this frame
                return self.unwind(st, exc, d, None)
            sel = 0
        rid = self.exc_region(st, exc); st.exc[rid] = exc
        f.regs[ins.id] = [Ptr(rid, 0), sel]; f.pos += 1
    def typeid(self, n):
        if not hasattr(self, "_tid"): self._tid = {}
        return self._tid.setdefault(n, len(self._tid) + 1)
    def i_resume(self, st, f, ins, w, d):
        v = self.val(st, f, ins.ops[0]); exc = st.exc[v[0].rid]
        return self.unwind(st, exc, d, None)
    def i_phi(self, st, f, ins, w, d): raise Unsupported("phi in body")
    # ------------------------------------------------------------------ calls
    def i_call(self, st, f, ins, work, base_depth):
        c = ins.x["callee"]
        callee = self.val(st, f, c)
        args = [self.val(st, f, o) for o in ins.ops]
        if isinstance(callee, tuple) and callee[0] == "asm":
            return self.deliver(st, ins, self.asm(st, callee[1], args, ins), work, base_depth)
        if not isinstance(callee, FnP):
            if isz(callee): callee = resolve(st, callee)
            if not isinstance(callee, FnP):
                h = self.indirect(st, callee, args, ins)
                return self.deliver(st, ins, h, work, base_depth)
        fn = callee.fn
        if isinstance(fn, Pseudo):
            return self.deliver(st, ins, fn.handler(self, st, args, ins), work, base_depth)
        if fn.name.startswith("llvm."):
            r = self.intrinsic(st, f, fn.name, args, ins)
            return self.deliver(st, ins, r, work, base_depth)
        h = self.contract(fn)
        if h is not None:
            self.fns_contract[fn.dname] = self.fns_contract.get(fn.dname, 0) + 1
            r = h(self, st, args, ins)
            if r is not NotImplemented: return self.deliver(st, ins, r, work, base_depth)
        fn = self.body_of(fn)
        if fn.decl: raise Unsupported(f"call of external function without contract: {fn.dname[:160]}")
        self.fns_inlined[fn.dname] = self.fns_inlined.get(fn.dname, 0) + 1
        self.call_fn(st, fn, args, ins)
        return None
    i_invoke = i_call
    def indirect(self, st, callee, args, ins): raise Unsupported(f"indirect call to {callee}")
    def asm(self, st, txt, args, ins):
        if re.match(r'^.*asm[^"]*""', txt) and ins.ty.kind == "void": return 0
        for pat, h in self.asm_hooks:
            if re.search(pat, txt): return h(self, st, args, ins)
        raise Unsupported("inline asm " + txt[:60])
    def deliver(self, st, ins, r, work, base_depth):
        outs = r if isinstance(r, list) and r and isinstance(r[0], (Ret, Throw, Stop)) else None
        if isinstance(r, list) and not r: return "killed"
        if outs is None:
            if isinstance(r, (Ret, Throw, Stop)): outs = [r]
            else: outs = [Ret(st, r)]
        if outs[0].st is not st:      # the state passed in continues first: deliver1 swaps contents into it otherwise
            k = next((i for i, o in enumerate(outs) if o.st is st), None)
            if k: outs = [outs[k]] + outs[:k] + outs[k + 1:]
        if len({id(o.st) for o in outs}) != len(outs): raise Unsupported("internal: a contract returned one state twice")
        for o in outs[1:]:
            f = o.st.frames[-1]
            f.pos = ("deliver", ins, o); work.append(o.st)
        return self.deliver1(outs[0], ins, base_depth, st)
    def deliver1(self, o, ins, base_depth, st):
        if isinstance(o, Ret):
            if o.st is not st:  # handler forked; continue with its state by swapping contents
                st.__dict__.update(o.st.__dict__)
            return self.resume_after(st, ins, o.val)
        if o.st is not st: st.__dict__.update(o.st.__dict__)
        if isinstance(o, Throw): return self.unwind(st, o.exc, base_depth, ins)
        return Done("stop", st, o.why)
    def intrinsic(self, st, f, n, args, ins):
        if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.invariant", "llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.donothing", "llvm.x86.sse2.pause", "llvm.prefetch")): return 0
        if n.startswith("llvm.assume"):
            # clang emits assume for assume_aligned/__builtin_assume: it is undefined behaviour if false
            a = args[0]
            self.oblige(st, zb(a) if a is not UNDEF else True, "assumption made by the compiler holds")
            return 0
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            return self.memcpy(st, args[0], args[1], args[2])
        if n.startswith("llvm.memset"): return self.memset(st, args[0], args[1], args[2])
        if n.startswith("llvm.expect"): return args[0]
        if n.startswith("llvm.eh.typeid.for"):
            p = args[0]; return self.typeid(st.mem[p.rid].tag)
        if n.startswith("llvm.trap"): self.fail(st, "trap is not reached"); return Stop(st, "trap")
        if n.startswith("llvm.umax"): return simp(z3.If(z3.UGT(bv(args[0]), bv(args[1])), bv(args[0]), bv(args[1])))
        m = re.match(r"llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", n)
        if m:
            w = int(m[3]); a, b = bv(args[0], w), bv(args[1], w); sg = m[1] == "s"
            ext = z3.SignExt if sg else z3.ZeroExt
            A, B = ext(w, a), ext(w, b)
            r = {"add": A + B, "sub": A - B, "mul": A * B}[m[2]]; lo = z3.Extract(w - 1, 0, r)
            return [simp(lo), simp(r != ext(w, lo))]
        m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.i(\d+)", n)
        if m:
            w = int(m[2]); v = args[0]
            if isinstance(v, int):
                if m[1] == "ctlz": return w - v.bit_length()
                if m[1] == "ctpop": return bin(v).count("1")
                return w if v == 0 else (v & -v).bit_length() - 1
            r = z3.BitVecVal(w if m[1] != "ctpop" else 0, w)
            if m[1] == "ctlz":
                for k in range(w): r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(w - 1 - k, w), r)
            elif m[1] == "cttz":
                for k in reversed(range(w)): r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, w), r)
            else:
                for k in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, v))
            return simp(r)
        m = re.match(r"llvm\.(smax|smin|umax|umin|abs)\.i(\d+)", n)
        if m:
            w = int(m[2]); a = bv(args[0], w); b = bv(args[1], w) if m[1] != "abs" else None
            return simp({"smax": lambda: z3.If(a > b, a, b), "smin": lambda: z3.If(a < b, a, b), "umax": lambda: z3.If(z3.UGT(a, b), a, b), "umin": lambda: z3.If(z3.ULT(a, b), a, b), "abs": lambda: z3.If(a < 0, -a, a)}[m[1]]())
        if n.startswith("llvm.threadlocal.address"): return args[0]
        if n.startswith("llvm.is.constant"): return 0
        if n.startswith("llvm.objectsize"): return (1 << 64) - 1
        if n.startswith("llvm.va_"): return 0
        if n.startswith("llvm.floor") or n.startswith("llvm.fabs") or n.startswith("llvm.fmuladd"): return Dbl()
        raise Unsupported("intrinsic " + n)
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0: return d
        z = None
        if isz(n):
            # a copy of zero bytes touches nothing (pointers may then be null)
            if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
                if self.solver.must(st, n == 0): return d
                self.oblige(st, n == 0, "copy: valid pointers"); return d
        d2 = self.bounds(st, d, n, "copy destination", True)
        s2 = self.bounds(st, s, n, "copy source", False)
        if d2 is None or s2 is None: return d
        if st.mem[d2.rid].shared or st.mem[s2.rid].shared: self.shared_copy(st, d2, s2, n)
        mem_copy(st, d2.rid, d2.off, s2.rid, s2.off, n)
        return d
    def shared_copy(self, st, d, s, n): pass
    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0: return d
        d2 = self.bounds(st, d, n, "fill", True)
        if d2 is None: return d
        v = v if isinstance(v, int) else v
        mem_fill(st, d2.rid, d2.off, n, v); return d

from .loops import LoopMixin
class Verifier(LoopMixin, Exec):
    def step(self, st, f, ins, work, base_depth):
        return Exec.step(self, st, f, ins, work, base_depth)
    def run_path(self, st, base_depth, loop, work):
        # resume pending jumps/deliveries of forked states
        f = st.frames[-1]
        if isinstance(f.pos, tuple):
            p = f.pos
            if p[0] == "jump":
                f.pos = len(f.bb.insts) - 1
                r = self.jump(st, f, p[1])
                return self.after(st, r, base_depth, loop, work)
            f.pos = p[1].idx
            r = self.deliver1(p[2], p[1], base_depth, st)
            return self.after(st, r, base_depth, loop, work)
        return self.loop_run(st, base_depth, loop, work)
    def after(self, st, r, base_depth, loop, work):
        if isinstance(r, Done): return r
        if r == "killed": return None
        if r == "jumped":
            x = self.arrive(st, base_depth, loop, work)
            if x != "go": return x
        return self.loop_run(st, base_depth, loop, work)
    def loop_run(self, st, base_depth, loop, work):
        while True:
            self.steps += 1
            if self.steps > self.max_steps: raise Unsupported("step budget")
            if (self.steps & 1023) == 0 and self.deadline and time.time() > self.deadline: raise Unsupported("time budget for this function used up")
            f = st.frames[-1]
            if loop is not None and len(st.frames) - 1 < loop[0]: return Done("loopexit", st)
            r = self.step(st, f, f.bb.insts[f.pos], work, base_depth)
            if r is None: continue
            if isinstance(r, Done): return r
            if r == "killed": return None
            if r == "jumped":
                x = self.arrive(st, base_depth, loop, work)
                if x == "go": continue
                return x

def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

def cstring(st, name, length=None, maxlen=1 << 20):
    """a zero-terminated string of arbitrary length and content; returns its pointer.  tag = ('cstr', length)"""
    n = fresh("len_" + name) if length is None else length
    if isz(n): st.assume(z3.ULE(n, z3.BitVecVal(maxlen, 64)))
    r = new_region(st, name, add(n, 1), align=1, arr=fresh_arr("s_" + name))
    def on_read(i, b):
        i = bv(i)
        if not isz(b) or b.size() != 8: return []
        return [z3.Implies(i == bv(n), b == 0), z3.Implies(z3.ULT(i, bv(n)), b != 0)]
    r.on_read = on_read; r.tag = ("cstr", n)
    return Ptr(r.rid, 0)
