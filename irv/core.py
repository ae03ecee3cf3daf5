"""Symbolic values, memory regions and states for the IR verifier."""
import z3, itertools

class Unsupported(Exception):
    """The verifier cannot handle this construct: the obligation is undecided, never a violation."""

BV64 = z3.BitVecSort(64)
ARR = z3.ArraySort(BV64, z3.BitVecSort(8))
_n = itertools.count()
def fresh(name, w=64):
    n = f"{name}!{next(_n)}"
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)
def fresh_arr(name): return z3.Array(f"{name}!{next(_n)}", BV64, z3.BitVecSort(8))
def isz(v): return isinstance(v, z3.ExprRef)
def mask(v, w): return v & ((1 << w) - 1)
def bv(v, w=64):
    """int or z3 value of width w -> z3 bit vector of width w (w > 1)"""
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def zb(v):
    """i1 value -> z3 Bool"""
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v == 1
def simp(v):
    """simplify and convert constants to Python ints"""
    if not isz(v): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v
def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return mask(a + b, w)
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return mask(a - b, w)
    if isinstance(b, int) and b == 0: return a
    return simp(bv(a, w) - bv(b, w))
def ule(a, b): return z3.ULE(bv(a), bv(b))
def ult(a, b): return z3.ULT(bv(a), bv(b))
def eq(a, b, w=64): return bv(a, w) == bv(b, w)
def AND(*xs):
    xs = [zb(x) for x in xs]; return z3.And(*xs) if len(xs) != 1 else xs[0]
def OR(*xs): return z3.Or(*[zb(x) for x in xs])
def NOT(x): return z3.Not(zb(x))
def IMP(a, b): return z3.Implies(zb(a), zb(b))

class Ptr:
    __slots__ = ("rid", "off")
    def __init__(s, rid, off=0): s.rid = rid; s.off = off
    def __repr__(s): return f"Ptr({s.rid},{s.off})"
class FnP:
    __slots__ = ("fn",)
    def __init__(s, fn): s.fn = fn
    def __repr__(s): return f"FnP({getattr(s.fn,'dname',s.fn)})"
class Pseudo:
    """a function that exists only as a contract (virtual method of an environment object, callback...)"""
    def __init__(s, dname, handler): s.dname = dname; s.name = dname; s.handler = handler; s.decl = True
class Undef:
    def __repr__(s): return "undef"
UNDEF = Undef()
class Dbl:
    """an opaque floating point value (floating point is treated as uninterpreted)"""
    __slots__ = ("id",)
    def __init__(s): s.id = next(_n)

BASES = {}      # base constant name -> rid
FNBASES = {}    # fn base constant name -> FnP
_fnb = {}
def fn_addr(f):
    k = f.fn.name
    if k not in _fnb:
        c = z3.BitVec("fn@" + k, 64); _fnb[k] = c; FNBASES["fn@" + k] = f; ALIGNED["fn@" + k] = 2
    return _fnb[k]

class Region:
    """A memory object.  Contents, most recent first: `cells` (concrete offset -> (size, value)), then `log`
    (tuple of operations, last is newest), then the base array `arr` (created on demand, arbitrary bytes)."""
    __slots__ = ("rid","name","size","base","align","cells","log","arr","live","owner","shared","check","on_read","kind","ro","zero","tag","elem")
    def copy(s, owner):
        r = Region.__new__(Region)
        for k in Region.__slots__: setattr(r, k, getattr(s, k))
        r.cells = dict(s.cells); r.owner = owner
        return r
    def __repr__(s): return f"<Region {s.rid} {s.name}>"

class Frame:
    __slots__ = ("fn","regs","bb","prev","pos","ret_ins","depth","cuts","allocas")
    def copy(s):
        f = Frame.__new__(Frame); f.fn = s.fn; f.regs = dict(s.regs); f.bb = s.bb; f.prev = s.prev; f.pos = s.pos
        f.ret_ins = s.ret_ins; f.depth = s.depth; f.cuts = dict(s.cuts); f.allocas = list(s.allocas); return f

class State:
    def __init__(s):
        s.pc = []; s.pcset = set(); s.frames = []; s.mem = {}; s.g = {}; s.tok = object(); s.known = {}
        s.result = None; s.trail = []; s.wlog = None; s.exc = {}
        s.active_cuts = ()
    def fork(s):
        n = State.__new__(State)
        n.pc = list(s.pc); n.pcset = set(s.pcset); n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem)
        n.g = dict(s.g); n.tok = object(); s.tok = object(); n.known = dict(s.known); n.result = s.result
        n.trail = list(s.trail); n.wlog = s.wlog; n.exc = dict(s.exc); n.active_cuts = s.active_cuts
        return n
    def assume(s, f):
        if isinstance(f, (bool, int)): f = z3.BoolVal(bool(f))
        f = z3.simplify(f)
        if z3.is_true(f): return
        i = f.get_id()
        if i in s.pcset: return
        s.pcset.add(i); s.pc.append(f)
    def wregion(s, rid):
        r = s.mem[rid]
        if r.owner is not s.tok:
            r = r.copy(s.tok); s.mem[rid] = r
        return r
    def note(s, txt): s.trail.append(txt)

_rid = itertools.count(1)
def new_region(st, name, size, align=16, kind="obj", arr=None, zero=False):
    r = Region.__new__(Region); r.rid = next(_rid); r.name = name; r.size = size; r.align = align
    b = f"base!{name}!{r.rid}"; r.base = z3.BitVec(b, 64); BASES[b] = r.rid
    r.cells = {}; r.log = (); r.arr = arr; r.live = True; r.owner = st.tok; r.shared = None; r.check = None; r.on_read = None
    r.kind = kind; r.ro = False; r.zero = zero; r.tag = None; r.elem = None
    st.mem[r.rid] = r
    st.assume(z3.UGE(r.base, z3.BitVecVal(4096, 64)))
    st.assume(z3.ULT(r.base, z3.BitVecVal(1 << 47, 64)))
    if isinstance(size, int): pass
    else: st.assume(z3.ULE(size, z3.BitVecVal(1 << 46, 64)))
    st.assume(z3.ULE(r.base + bv(size), z3.BitVecVal(1 << 47, 64)))
    if align > 1: ALIGNED[b] = align
    if align > 1: st.assume((r.base & z3.BitVecVal(align - 1, 64)) == 0)
    return r

def addr(st, p):
    """pointer value -> BV64 address (int or z3)"""
    if isinstance(p, Ptr): return add(st.mem[p.rid].base, p.off)
    if isinstance(p, FnP): return fn_addr(p)
    return p

def _consts(e, out, seen):
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: stack += x.children()

def stride(e, m):
    """e as (q, f) with e == m*q + f, 0 <= f < m, found syntactically; None if a term is not a multiple of m"""
    if isinstance(e, int): return divmod(sgn64(e), m)
    e = z3.simplify(e); ts = e.children() if z3.is_app_of(e, z3.Z3_OP_BADD) else [e]; q = 0; k = 0
    for t in ts:
        if z3.is_bv_value(t): k += sgn64(t.as_long()); continue
        if z3.is_app_of(t, z3.Z3_OP_BMUL) and z3.is_bv_value(t.arg(0)):
            c = sgn64(t.arg(0).as_long())
            if c % m == 0:
                x = t.arg(1)
                for y in t.children()[2:]: x = x * y
                q = add(q, simp(x * z3.BitVecVal(c // m, 64))); continue
        return None
    return add(q, mask(k // m, 64)), k % m
def sgn64(v): return v - (1 << 64) if v >> 63 else v

class NeedFork(Exception):
    def __init__(s, cond): s.cond = cond

def top_if(e):
    """the condition of an If occurring in a bit-vector sum/concat position, or None"""
    stack = [e]; n = 0
    while stack and n < 400:
        x = stack.pop(); n += 1
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return x.arg(0)
        if z3.is_bv(x): stack += [c for c in x.children() if z3.is_bv(c)]
    return None

ALIGNED = {}     # names of symbols assumed to be multiples of a power of two (region bases, and offsets a specification declares so)
_DEF = {}
def and_mask(st, a, m):
    """a & m for a constant mask m of the form -2^k or 2^k-1: addends that are multiples of 2^k are taken out of the masked term"""
    M = (1 << 64) - 1; lo = (m & (m + 1)) == 0; hi = ((~m & M) & ((~m & M) + 1)) == 0
    if not isz(a) or not z3.is_bv(a) or a.size() != 64 or not (lo or hi): return None
    k = (m if lo else ~m & M) + 1; a = z3.simplify(a); ts = a.children() if z3.is_app_of(a, z3.Z3_OP_BADD) else [a]
    al = [t for t in ts if t.num_args() == 0 and ALIGNED.get(str(t), 1) >= k and not z3.is_bv_value(t)]
    if not al and lo: return None
    out = z3.BitVecVal(0, 64)
    for t in al: out = out + t
    r = simp(a - out)
    if not isz(r): return r & m if lo else simp(out + (r & m))
    if lo: return simp(r & m)
    # the rounded value gets a name, so that offsets from it stay linear
    h = _DEF.get((r.get_id(), m))
    if h is None: x = fresh("al"); ALIGNED[str(x)] = k; h = _DEF[(r.get_id(), m)] = (x, r)
    st.assume(h[0] == (r & m)); return simp(out + h[0])

def resolve(st, v):
    """BV64 value -> Ptr / FnP / int / raw expression"""
    if not isz(v): return v
    v = simp(v)
    if not isz(v): return v
    cs = []; _consts(v, cs, set())
    bases = [c for c in cs if str(c) in BASES]; fns = [c for c in cs if str(c) in FNBASES]
    if not bases and not fns: return v
    c = top_if(v)
    if c is not None:
        k = st.known.get(c.get_id())
        if k is None: raise NeedFork(c)
        v = simp(z3.substitute(v, (c, z3.BoolVal(k[1]))))
        return resolve(st, v)
    if len(bases) == 1 and not fns:
        return Ptr(BASES[str(bases[0])], simp(v - bases[0]))
    if len(fns) == 1 and not bases:
        if simp(v - fns[0]) == 0: return FNBASES[str(fns[0])]
        return v
    # several bases: try each as the positive term
    for b in bases:
        r = simp(v - b); cs2 = []
        if not isz(r): return Ptr(BASES[str(b)], r)
    raise Unsupported(f"pointer with several bases: {v}")

# ---------------------------------------------------------------- memory contents

def to_bytes(st, v, n):
    """value of n bytes -> list of n 8-bit values (ints or z3), little endian"""
    if v is UNDEF or v is None: return [fresh("undef", 8) for _ in range(n)]
    if isinstance(v, (Ptr, FnP)): v = addr(st, v)
    if isinstance(v, Dbl): return [fresh("dbl", 8) for _ in range(n)]
    if isinstance(v, int): return [(v >> (8 * i)) & 255 for i in range(n)]
    if z3.is_bool(v): v = bv(v, 8 * n)
    if v.size() != 8 * n: raise Unsupported(f"store of {v.size()} bits in {n} bytes")
    if n == 1: return [v]
    return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]

def from_bytes(bs):
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    if len(bs) == 1: return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

def flush(st, r):
    if r.cells:
        r.log = r.log + tuple(("st", o, n, v) for o, (n, v) in sorted(r.cells.items()))
        r.cells = {}

def base_byte(st, r, i):
    if r.zero and r.arr is None: return 0
    if r.arr is None:
        r = st.wregion(r.rid)
        r.arr = fresh_arr("m_" + r.name)
    return z3.Select(r.arr, bv(i))

def log_byte(st, r, i, upto=None):
    """byte at symbolic/concrete index i of region r (cells must be flushed)"""
    log = r.log if upto is None else r.log[:upto]
    conds = []  # (cond, value)
    res = None
    for op in reversed(log):
        if op[0] == "st":
            _, o, n, v = op
            d = sub(i, o)
            if isinstance(d, int):
                if d < n: res = to_bytes(st, v, n)[d]; break
                continue
            bs = to_bytes(st, v, n)
            for k in range(n): conds.append((d == k, bs[k]))
        elif op[0] == "cp":   # copy: dst offset, length, source snapshot fn(index)->byte
            _, o, n, src, so = op
            d = sub(i, o)
            inr = simp(ult(d, n))
            if isinstance(inr, int) and inr == 0: continue
            val = src(st, add(so, d))
            if isinstance(inr, int): res = val; break
            conds.append((inr, val))
        elif op[0] == "fill":
            _, o, n, v = op
            d = sub(i, o); inr = simp(ult(d, n))
            if isinstance(inr, int):
                if inr: res = v; break
                continue
            conds.append((inr, v))
        elif op[0] == "havoc":  # arbitrary bytes in range, from array a (indexed by absolute offset)
            _, o, n, a = op
            d = sub(i, o); inr = simp(ult(d, n)) if n is not None else 1
            val = z3.Select(a, bv(i))
            if isinstance(inr, int):
                if inr: res = val; break
                continue
            conds.append((inr, val))
    if res is None: res = base_byte(st, r, i)
    for c, v in reversed(conds):
        res = simp(z3.If(c, bv(v, 8), bv(res, 8)))
    return res

def snapshot(st, rid):
    """an immutable reader of the region's present contents: f(st, index) -> byte"""
    r = st.wregion(rid); flush(st, r)
    frozen = r.copy(None)
    if frozen.arr is None and not frozen.zero:
        frozen.arr = r.arr = fresh_arr("m_" + r.name)
    onr = r.on_read
    def read(st2, i):
        b = log_byte(st2, frozen, i)
        if onr:
            for f in onr(i, b): st2.assume(f)
        return b
    return read

def mem_read(st, rid, off, n):
    """raw read of n bytes -> value (int/z3/Ptr...)"""
    r = st.mem[rid]
    if isinstance(off, int):
        c = r.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        hit = any(o < off + n and off < o + m for o, (m, _) in r.cells.items())
        if not hit and not r.log:
            if r.arr is None and not r.zero:
                v = fresh(f"{r.name}+{off}", 8 * n)
                r = st.wregion(rid); r.cells[off] = (n, v)
                if r.on_read:
                    for f in r.on_read(off, v): st.assume(f)
                return v
        if not hit and r.log: pass
        elif hit:
            bs = []
            for k in range(n):
                b = None
                for o, (m, v) in r.cells.items():
                    if o <= off + k < o + m: b = to_bytes(st, v, m)[off + k - o]; break
                if b is None: b = _byte(st, rid, off + k)
                bs.append(b)
            return from_bytes(bs)
        # exact hit in the log?
    else:
        r = st.wregion(rid); flush(st, r)
    r = st.mem[rid]
    for op in reversed(r.log):
        if op[0] == "st":
            d = sub(off, op[1])
            if isinstance(d, int):
                if d == 0 and op[2] == n: return op[3]
                if d >= op[2] and d <= (1 << 64) - n: continue
            elif op[2] == n and must_eq(st, d): return op[3]
            elif must_disjoint(st, d, op[2], n): continue
            break
        elif op[0] in ("cp", "fill", "havoc") and op[2] is not None:
            if must_disjoint_rng(st, sub(off, op[1]), op[2], n): continue
            break
        break
    bs = [_byte(st, rid, add(off, k)) for k in range(n)]
    return from_bytes(bs)

SOLVER = None   # set by the executor: object with must(st, formula) -> bool
def must_eq(st, d): return SOLVER is not None and SOLVER.must(st, eq(d, 0))
def must_disjoint(st, d, n1, n2):
    """access at [d, d+n2) relative to a store of n1 bytes at 0 is provably disjoint"""
    return SOLVER is not None and SOLVER.must(st, z3.And(z3.UGE(bv(d), bv(n1)), z3.ULE(bv(d), bv((1 << 64) - n2))))
def must_disjoint_rng(st, d, n1, n2):
    return SOLVER is not None and SOLVER.must(st, z3.And(z3.UGE(bv(d), bv(n1)), z3.ULE(bv(d), bv((1 << 64) - n2))))

def _byte(st, rid, i):
    r = st.mem[rid]
    if isinstance(i, int):
        for o, (m, v) in r.cells.items():
            if o <= i < o + m: return to_bytes(st, v, m)[i - o]
        b = log_byte(st, r, i)
    else:
        r = st.wregion(rid); flush(st, r)
        b = log_byte(st, r, i)
    r = st.mem[rid]
    if r.on_read and isz(b):
        for f in r.on_read(i, b): st.assume(f)
    return b

def read_byte(st, rid, i): return _byte(st, rid, i)

def mem_write(st, rid, off, n, v):
    r = st.wregion(rid)
    if st.wlog is not None: st.wlog.append((rid, off, n))
    if isinstance(off, int):
        c = r.cells.get(off)
        if c is None or c[0] != n:
            for o, (m, old) in list(r.cells.items()):
                if o < off + n and off < o + m:
                    bs = to_bytes(st, old, m); del r.cells[o]
                    for k in range(m):
                        if not (off <= o + k < off + n): r.cells[o + k] = (1, bs[k])
        r.cells[off] = (n, v)
    else:
        flush(st, r)
        # a store at a syntactically equal offset replaces the previous one if it is the newest
        if r.log and r.log[-1][0] == "st" and r.log[-1][2] == n and sub(off, r.log[-1][1]) == 0 and isinstance(sub(off, r.log[-1][1]), int):
            r.log = r.log[:-1]
        r.log = r.log + (("st", off, n, v),)

def mem_copy(st, drid, doff, srid, soff, n):
    if st.wlog is not None: st.wlog.append((drid, doff, n))
    if isinstance(n, int) and isinstance(doff, int) and isinstance(soff, int) and n <= 4096:
        r = st.mem[srid]
        if not r.log:
            # typed copy
            parts = []; k = 0; src = r
            while k < n:
                c = src.cells.get(soff + k)
                if c is not None and k + c[0] <= n: parts.append((k, c[0], c[1])); k += c[0]; continue
                if any(o < soff + k < o + m or (o == soff + k) for o, (m, _) in src.cells.items()):
                    parts.append((k, 1, _byte(st, srid, soff + k))); k += 1; continue
                # gap without cells
                nxt = min([o for o in src.cells if o > soff + k] + [soff + n])
                g = nxt - (soff + k)
                step = 8 if (g >= 8 and (soff + k) % 8 == 0) else 4 if (g >= 4 and (soff + k) % 4 == 0) else 1
                parts.append((k, step, mem_read(st, srid, soff + k, step))); k += step
                src = st.mem[srid]
            wl = st.wlog; st.wlog = None
            for k, m, v in parts: mem_write(st, drid, doff + k, m, v)
            st.wlog = wl
            return
        vals = []; k = 0
        while k < n:
            step = 8 if n - k >= 8 and (soff + k) % 8 == 0 else 1
            vals.append((k, step, mem_read(st, srid, soff + k, step))); k += step
        wl = st.wlog; st.wlog = None
        for k, m, v in vals: mem_write(st, drid, doff + k, m, v)
        st.wlog = wl
        return
    if isinstance(n, int) and n <= 64:
        vals = [(0, n, None)] if False else None
        step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
        if n // step <= 16:
            vals = [(k, step, mem_read(st, srid, add(soff, k), step)) for k in range(0, n, step)]
            wl = st.wlog; st.wlog = None
            for k, m, v in vals: mem_write(st, drid, add(doff, k), m, v)
            st.wlog = wl
            return
    snap = snapshot(st, srid)
    r = st.wregion(drid); flush(st, r)
    r.log = r.log + (("cp", doff, n, snap, soff),)

def mem_fill(st, rid, off, n, v):
    if st.wlog is not None: st.wlog.append((rid, off, n))
    if isinstance(off, int) and isinstance(n, int) and n <= 1024:
        wl = st.wlog; st.wlog = None
        if isinstance(v, int):
            k = 0
            while k < n:
                step = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
                mem_write(st, rid, off + k, step, int.from_bytes(bytes([v]) * step, "little")); k += step
        else:
            for k in range(n): mem_write(st, rid, off + k, 1, v)
        st.wlog = wl
        return
    r = st.wregion(rid); flush(st, r)
    r.log = r.log + (("fill", off, n, v),)

def mem_havoc(st, rid, off=0, n=None):
    """bytes [off, off+n) become arbitrary (n None: the whole region)"""
    if st.wlog is not None: st.wlog.append((rid, off, n))
    r = st.wregion(rid)
    if n is None and off == 0:
        r.cells = {}; r.log = (); r.arr = None; r.zero = False; return
    flush(st, r)
    r.log = r.log + (("havoc", off, n, fresh_arr("h_" + r.name)),)
