"""Assumed contracts of external functions (the trusted base). Each entry: (regex on the demangled name, handler)."""
import z3
from .core import *
from .execu import *

EXC_TYPES = {
 "system_error": {"_ZTISt12system_error", "_ZTISt13runtime_error", "_ZTISt9exception"},
 "invalid_argument": {"_ZTISt16invalid_argument", "_ZTISt11logic_error", "_ZTISt9exception"},
 "bad_alloc": {"_ZTISt9bad_alloc", "_ZTISt9exception"},
 "exception": {"_ZTISt9exception"},
}
def errno_region(ex, st):
    if "$errno" not in st.g:
        r = new_region(st, "errno", 4, align=4, kind="env"); st.g["$errno"] = r.rid
    return st.g["$errno"]
def get_errno(ex, st): return mem_read(st, errno_region(ex, st), 0, 4)
def set_errno(ex, st, v): mem_write(st, errno_region(ex, st), 0, 4, v)
def h_errno(ex, st, a, ins): return Ptr(errno_region(ex, st), 0)

def h_new(ex, st, a, ins):
    n = a[0]
    r = new_region(st, "heap", n, align=16, kind="heap"); r.tag = "heap"
    st.g["$nalloc"] = st.g.get("$nalloc", 0) + 1
    return Ptr(r.rid, 0)
def h_delete(ex, st, a, ins):
    p = a[0]
    if isinstance(p, int) and p == 0: return 0
    if isz(p): p = resolve(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported("delete of an unresolved pointer")
    r = st.mem[p.rid]
    ex.oblige(st, eq(p.off, 0), "delete: start of the allocation")
    if not r.live: ex.fail(st, f"delete: {r.name} not yet freed"); return 0
    st.wregion(p.rid).live = False
    return 0
def h_memcpy(ex, st, a, ins): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
def h_memset(ex, st, a, ins):
    v = a[1]
    if isz(v): v = simp(z3.Extract(7, 0, v))
    else: v &= 255
    ex.memset(st, a[0], v, a[2]); return a[0]
def h_terminate(ex, st, a, ins):
    ex.fail(st, "no exception escapes a noexcept function (std::terminate is not reached)")
    return Stop(st, "terminate")
def h_begin_catch(ex, st, a, ins): return a[0]
def h_zero(ex, st, a, ins): return 0
def h_guard_acquire(ex, st, a, ins): return 1
def h_throw_system_error(ex, st, a, ins):
    return Throw(st, Exc(EXC_TYPES["system_error"], errnum=a[0], kind="system_error"))
def h_throw_invalid(ex, st, a, ins): return Throw(st, Exc(EXC_TYPES["invalid_argument"], kind="invalid_argument"))
def h_strlen(ex, st, a, ins):
    p = a[0]
    r = st.mem[p.rid]
    if r.tag and r.tag[0] == "cstr":
        return sub(r.tag[1], p.off)
    if isinstance(p.off, int):
        k = p.off
        while k < (r.size if isinstance(r.size, int) else 1 << 20):
            b = mem_read(st, p.rid, k, 1)
            if isinstance(b, int):
                if b == 0: return k - p.off
            else: break
            k += 1
    raise Unsupported("strlen of an unknown string")
def h_strlen_any(ex, st, a, ins): return h_strlen(ex, st, a, ins)
def h_memcmp(ex, st, a, ins):
    p, q, n = a
    if isinstance(n, int):
        if n == 0: return 0
        p = ex.bounds(st, p, n, "compare", False); q = ex.bounds(st, q, n, "compare", False)
        res = z3.BitVecVal(0, 32)
        for k in reversed(range(n)):
            x = bv(read_byte(st, p.rid, add(p.off, k)), 8); y = bv(read_byte(st, q.rid, add(q.off, k)), 8)
            res = z3.If(x == y, res, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return simp(res)
    raise Unsupported("memcmp of symbolic length")

def types_of(n):
    for k, v in EXC_TYPES.items():
        if n and n in v and n == KEY.get(k): return v
    return {n} | ({"_ZTISt9exception"} if n and n.startswith("_ZTISt") else set())
KEY = {"system_error": "_ZTISt12system_error", "invalid_argument": "_ZTISt16invalid_argument", "bad_alloc": "_ZTISt9bad_alloc", "exception": "_ZTISt9exception"}
def h_alloc_exc(ex, st, a, ins):
    r = new_region(st, "excobj", a[0], kind="exc"); return Ptr(r.rid, 0)
def h_cxa_throw(ex, st, a, ins):
    n = st.mem[a[1].rid].tag if isinstance(a[1], Ptr) else None
    kind = next((k for k, v in KEY.items() if v == n), n)
    e = Exc(types_of(n), kind=kind, info=st.g.get("$excinfo"), thrown=a[0].rid)
    inf = st.g.get("$excinfo")
    if inf: e.__dict__.update(inf)
    return Throw(st, e)
def h_rethrow(ex, st, a, ins): return Throw(st, st.g["$exc"])

STD = [
 (r"^__cxa_allocate_exception$", h_alloc_exc), (r"^__cxa_throw$", h_cxa_throw), (r"^__cxa_rethrow$", h_rethrow), (r"^__cxa_free_exception$", h_zero),
 (r"^__errno_location$", h_errno),
 (r"^operator new(\[\])?\(unsigned long", h_new),
 (r"^operator delete(\[\])?\(void\*", h_delete),
 (r"^memcpy$|^memmove$", h_memcpy), (r"^memset$", h_memset), (r"^memcmp$", h_memcmp),
 (r"^strlen$", h_strlen),
 (r"^std::terminate\(\)$|^__clang_call_terminate$", h_terminate),
 (r"^__cxa_begin_catch$|^__cxa_get_exception_ptr$", h_begin_catch), (r"^__cxa_end_catch$", h_zero),
 (r"^__cxa_guard_acquire$", h_guard_acquire), (r"^__cxa_guard_(release|abort)$", h_zero), (r"^__cxa_atexit$|^__cxa_thread_atexit$", h_zero),
 (r"^xtr::detail::throw_system_error(_fmt)?\(", h_throw_system_error),
 (r"^xtr::detail::throw_invalid_argument\(", h_throw_invalid),
 (r"^xtr::detail::throw_bad_alloc\(", lambda ex, st, a, i: Throw(st, Exc(EXC_TYPES["bad_alloc"], kind="bad_alloc"))),
 (r"^std::__throw_bad_function_call\(\)$|^std::__throw_length_error\(|^std::__throw_bad_alloc\(|^std::__throw_bad_array_new_length", lambda ex, st, a, i: Throw(st, Exc(EXC_TYPES["exception"], kind="std"))),
]
