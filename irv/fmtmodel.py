"""Decodes the argument list handed to fmt::vformat_to (fmt 9 layout).  fmt itself is trusted to format what it is given."""
import z3
from .core import *
from .execu import *
T = ["none", "int", "uint", "long", "ulong", "int128", "uint128", "bool", "char", "float", "double", "ldouble", "cstring", "string", "pointer", "custom"]
VFORMAT = r"^[^(]*fmt::v\d+::vformat_to<"
def raw(st, p, n):
    v = mem_read(st, p.rid, p.off, n)
    return resolve(st, v) if isz(v) and n == 8 else v
def decode(ex, st, desc, vals):
    """-> list of (type name, value); value: (ptr, fn) for custom, (ptr, len) for string"""
    if not isinstance(desc, int): raise Unsupported("symbolic fmt argument descriptor")
    out = []
    if isz(vals): vals = resolve(st, vals)
    packed = not (desc >> 63) & 1
    n = None if packed else desc & ((1 << 60) - 1)
    k = 0
    while (packed and (desc >> (4 * k)) & 15) or (not packed and k < n):
        p = Ptr(vals.rid, add(vals.off, 16 * k if packed else 32 * k))
        t = T[(desc >> (4 * k)) & 15] if packed else T[raw(st, Ptr(p.rid, add(p.off, 16)), 4)]
        p = ex.bounds(st, p, 16, "format argument", False)
        if t in ("int", "uint"): x = raw(st, p, 4)
        elif t in ("bool", "char"): x = raw(st, p, 1)
        elif t in ("string", "custom"): x = (raw(st, p, 8), raw(st, Ptr(p.rid, add(p.off, 8)), 8))
        elif t in ("int128", "uint128", "ldouble"): x = mem_read(st, p.rid, p.off, 16)
        elif t == "float": x = mem_read(st, p.rid, p.off, 4)
        elif t == "double": x = mem_read(st, p.rid, p.off, 8)
        else: x = raw(st, p, 8)
        out.append((t, x)); k += 1
    return out
def text(ex, st, p, n):
    """bytes of a literal"""
    if isz(n): raise Unsupported("format text of symbolic length")
    if isz(p): p = resolve(st, p)
    if n > 100000: raise Unsupported("format text")
    p = ex.bounds(st, p, n, "format text", False)
    b = [mem_read(st, p.rid, add(p.off, k), 1) for k in range(n)]
    if not all(isinstance(x, int) for x in b): raise Unsupported("format text is not a literal")
    return bytes(b)
def sv_args(a):
    """arguments of vformat_to(out, string_view, format_args): -> (out, text ptr, text len, desc, values)"""
    if len(a) != 5: raise Unsupported("vformat_to argument list")
    return a
