"""Assumed contracts of std::string (libstdc++ layout: data pointer @0, length @8, local buffer/capacity @16, 32 bytes).
The contracts state the documented effect on the contents; where the characters are stored is left open."""
import re, z3
from .core import *
from .execu import *

S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
MAXLEN = 1 << 40
def data_region(st, name, n, arr=None):
    r = new_region(st, "chars_" + name, add(n, 1), align=1, kind="heap", arr=arr); r.tag = ("str", n)
    mem_write(st, r.rid, n, 1, 0)
    return r
def set_string(st, p, rid, n):
    mem_write(st, p.rid, add(p.off, 0), 8, Ptr(rid, 0)); mem_write(st, p.rid, add(p.off, 8), 8, n)
    mem_write(st, p.rid, add(p.off, 16), 8, fresh("capacity")); mem_write(st, p.rid, add(p.off, 24), 8, fresh("local"))
def new_string(st, p, name="s", n=None):
    """a string of arbitrary length and contents at p; returns (data rid, length)"""
    if n is None:
        n = fresh("len_" + name); st.assume(z3.ULE(n, z3.BitVecVal(MAXLEN, 64)))
    r = data_region(st, name, n); set_string(st, p, r.rid, n)
    return r.rid, n
def get(ex, st, p):
    """(data pointer, length) of the string object at p"""
    if not isinstance(p, Ptr): p = ex.bounds(st, p, 32, "string object", False)
    ex.bounds(st, p, 32, "string object", False)
    d = mem_read(st, p.rid, p.off, 8); n = mem_read(st, p.rid, add(p.off, 8), 8)
    if isz(d): d = resolve(st, d)
    return d, n
def free(ex, st, p):
    d, n = get(ex, st, p)
    if isinstance(d, Ptr):
        r = st.mem[d.rid]
        if not r.live: ex.fail(st, "string destroyed once")
        elif r.tag and r.tag[0] == "str": st.wregion(d.rid).live = False
def empty(st, p):
    r = data_region(st, "empty", 0); set_string(st, p, r.rid, 0)
def is_nonul(st, p, n):
    """the n bytes at p are known to hold no NUL"""
    if isinstance(n, int) and n == 0: return True
    if not isinstance(p, Ptr): return False
    r = st.mem[p.rid]
    if p.rid in st.g.get("$nonul", ()) and p.off == 0 and r.tag and r.tag[0] == "str" and (r.tag[1] is n or simp(eq(r.tag[1], n)) == 1): return True
    if isinstance(n, int) and n <= 64:
        bs = [read_byte(st, p.rid, add(p.off, k)) for k in range(n)]
        return all(isinstance(b, int) and b != 0 for b in bs)
    return False
def mark_nonul(st, rid): st.g["$nonul"] = st.g.get("$nonul", ()) + (rid,)
def copy_to(ex, st, p, src, n, name="copy"):
    """string at p := n bytes at src"""
    nn = n
    r = data_region(st, name, n)
    if not (isinstance(n, int) and n == 0):
        s = ex.bounds(st, src, n, "string source", False)
        if s is not None: mem_copy(st, r.rid, 0, s.rid, s.off, n)
        if s is not None and is_nonul(st, s, n): mark_nonul(st, r.rid)
    set_string(st, p, r.rid, n)
def strlen_of(ex, st, p):
    from .stdlib import h_strlen
    return h_strlen(ex, st, [p], None)

def h_default(ex, st, a, ins): empty(st, a[0]); return 0
def h_move(ex, st, a, ins):
    d, n = get(ex, st, a[1]); set_string(st, a[0], d.rid, n)
    if d.off != 0: raise Unsupported("string data pointer")
    empty(st, a[1]); return 0
def h_copy(ex, st, a, ins):
    d, n = get(ex, st, a[1]); copy_to(ex, st, a[0], d, n); return 0
def h_cstr(ex, st, a, ins):
    n = strlen_of(ex, st, a[1]); copy_to(ex, st, a[0], a[1], n); return 0
def h_ptrlen(ex, st, a, ins): copy_to(ex, st, a[0], a[1], a[2]); return 0
def h_dtor(ex, st, a, ins): free(ex, st, a[0]); return 0
def h_assign_move(ex, st, a, ins):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].rid == a[1].rid and simp(eq(a[0].off, a[1].off)) == 1: return a[0]
    d, n = get(ex, st, a[1]); free(ex, st, a[0]); set_string(st, a[0], d.rid, n); empty(st, a[1]); return a[0]
def h_assign_copy(ex, st, a, ins):
    d, n = get(ex, st, a[1])
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].rid == a[1].rid and simp(eq(a[0].off, a[1].off)) == 1: return a[0]
    r = data_region(st, "copy", n); 
    if not (isinstance(n, int) and n == 0): mem_copy(st, r.rid, 0, d.rid, d.off, n)
    free(ex, st, a[0]); set_string(st, a[0], r.rid, n); return a[0]
def h_assign_cstr(ex, st, a, ins):
    n = strlen_of(ex, st, a[1]); old, _ = get(ex, st, a[0]); copy_to(ex, st, a[0], a[1], n)
    return a[0]
def h_clear(ex, st, a, ins):
    free(ex, st, a[0]); empty(st, a[0]); return 0
def eq_cstr(ex, st, a, b):
    """string object a equals C string b (b a concrete literal)"""
    d, n = get(ex, st, a); m = strlen_of(ex, st, b)
    return eq_mem(ex, st, d, n, b, m)
def eq_mem(ex, st, d, n, b, m):
    if not isinstance(m, int):
        if isinstance(n, int): d, n, b, m = b, m, d, n
        else: raise Unsupported("comparison of two symbolic strings")
    if m > 64: raise Unsupported("comparison with a long literal")
    cs = [eq(n, m)]
    for k in range(m): cs.append(bv(read_byte(st, d.rid, add(d.off, k)), 8) == bv(read_byte(st, b.rid, add(b.off, k)), 8))
    return simp(AND(*cs))
def h_eq_cstr(ex, st, a, ins): return eq_cstr(ex, st, a[0], a[1])
def append_bytes(ex, st, p, src, k, fill=None):
    d, n = get(ex, st, p); whole = is_nonul(st, d, n)
    r = data_region(st, "app", add(n, k))
    if not (isinstance(n, int) and n == 0): mem_copy(st, r.rid, 0, d.rid, d.off, n)
    if fill is not None: mem_write(st, r.rid, n, 1, fill)
    elif not (isinstance(k, int) and k == 0):
        s = ex.bounds(st, src, k, "append source", False)
        if s is not None: mem_copy(st, r.rid, n, s.rid, s.off, k); whole = whole and is_nonul(st, s, k)
    if fill is not None: whole = whole and isinstance(fill, int) and fill != 0
    mem_write(st, r.rid, add(n, k), 1, 0)
    if whole: mark_nonul(st, r.rid)
    free(ex, st, p); set_string(st, p, r.rid, add(n, k))
def h_append_cstr(ex, st, a, ins): append_bytes(ex, st, a[0], a[1], strlen_of(ex, st, a[1])); return a[0]
def h_append_n(ex, st, a, ins): append_bytes(ex, st, a[0], a[1], a[2]); return a[0]
def h_append_str(ex, st, a, ins):
    d, n = get(ex, st, a[1]); append_bytes(ex, st, a[0], d, n); return a[0]
def h_push(ex, st, a, ins):
    c = a[1]; c = c & 255 if isinstance(c, int) else (c if c.size() == 8 else simp(z3.Extract(7, 0, c)))
    append_bytes(ex, st, a[0], None, 1, fill=c); return a[0]
def h_plus(ka, kb):
    """operator+: the result holds the first operand's characters, then the second's; an operand given up is left empty"""
    def part(ex, st, k, x):
        if k in "rc": return get(ex, st, x)
        if k == "p": return x, strlen_of(ex, st, x)
        c = x & 255 if isinstance(x, int) else (x if x.size() == 8 else simp(z3.Extract(7, 0, x)))
        return c, None
    def h(ex, st, a, ins):
        (d1, n1), (d2, n2) = part(ex, st, ka, a[1]), part(ex, st, kb, a[2])
        if n1 is None: t = data_region(st, "ch", 1); mem_write(st, t.rid, 0, 1, d1); d1, n1 = Ptr(t.rid, 0), 1
        copy_to(ex, st, a[0], d1, n1)
        append_bytes(ex, st, a[0], None if n2 is None else d2, 1 if n2 is None else n2, fill=d2 if n2 is None else None)
        for k, x in ((ka, a[1]), (kb, a[2])):
            if k == "r": free(ex, st, x); empty(st, x)
        return 0
    return h
def h_unmodelled(ex, st, a, ins): raise Unsupported("a std::string operation without a contract")
KINDS = {"r": S + "&&", "c": S + " const&", "p": r"char const\*", "x": "char"}

STR = [
 (rf"^{S}::basic_string\(\)$", h_default),
 (rf"^{S}::basic_string\({S}&&\)$", h_move),
 (rf"^{S}::basic_string\({S} const&\)$", h_copy),
 (rf"^{S}::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)( requires.*)?$", h_cstr),
 (rf"^{S}::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$", h_ptrlen),
 (rf"^{S}::~basic_string\(\)$", h_dtor),
 (rf"^{S}::operator=\({S}&&\)$", h_assign_move),
 (rf"^{S}::operator=\({S} const&\)$", h_assign_copy),
 (rf"^{S}::operator=\(char const\*\)$", h_assign_cstr),
 (rf"^{S}::clear\(\)$", h_clear),
 (rf"^{S}::(append|operator\+=)\(char const\*\)$", h_append_cstr),
 (rf"^{S}::append\(char const\*, unsigned long\)$", h_append_n),
 (rf"^{S}::(append|operator\+=)\({S} const&\)$", h_append_str),
 (rf"^{S}::(push_back|operator\+=)\(char\)$", h_push),
 (r"^bool std::operator== ?<char, std::char_traits<char>, std::allocator<char> ?>\(std::__cxx11::basic_string<.*> const&, char const\*\)$", h_eq_cstr),
] + [(rf"^{S} std::operator\+ ?<char, std::char_traits<char>, std::allocator<char> ?>\({KINDS[i]}, {KINDS[j]}\)$", h_plus(i, j)) for i in KINDS for j in KINDS]
STR += [(rf"^{S}::_M_(replace|replace_aux|replace_cold|append|assign|mutate|create|construct)\b", h_unmodelled)]
