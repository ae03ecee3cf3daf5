"""Compiles the unit files (which include the real sources of /repo) to LLVM bitcode."""
import os, subprocess, tempfile, shutil, atexit, threading
from .core import Unsupported
from . import llir
REPO = os.environ.get("XTR_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_dir = None; _lock = threading.Lock()
def scratch():
    global _dir
    with _lock:
        if _dir is None:
            _dir = tempfile.mkdtemp(prefix="irv."); pid = os.getpid()
            def rm():
                if os.getpid() == pid: shutil.rmtree(_dir, ignore_errors=True)
            atexit.register(rm)
        return _dir
def cleanup():
    if _dir: shutil.rmtree(_dir, ignore_errors=True)
CXX = ["clang++-18" if shutil.which("clang++-18") else "clang++"]
OPT = "opt-18" if shutil.which("opt-18") else "opt"
FLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DNDEBUG", "-DXTR_FUNC=",
         "-gline-tables-only", "-fno-access-control", "-Wno-everything", "-emit-llvm", "-c"]
def compile_unit(name, extra=()):
    """-> path of the bitcode (after sroa)"""
    d = scratch(); src = os.path.join(VERIF, "units", name + ".cpp")
    bc = os.path.join(d, f"{name}.{os.getpid()}.bc"); out = os.path.join(d, name + ".o.bc")
    if os.path.exists(out): return out
    cmd = CXX + FLAGS + list(extra) + ["-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(VERIF, "units"), src, "-o", bc]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise Unsupported(f"unit {name} does not compile: " + p.stderr[:1500])
    p = subprocess.run([OPT, "-passes=sroa", bc, "-o", out + f".{os.getpid()}"], capture_output=True, text=True)
    if p.returncode: raise Unsupported("opt: " + p.stderr[:500])
    os.rename(out + f".{os.getpid()}", out)
    return out
_mods = {}
def module(name):
    m = _mods.get(name)
    if m is None: m = _mods[name] = llir.Module(compile_unit(name))
    return m
def offsets(mod):
    """constants named VP_<x> of the unit -> {x: int}"""
    d = {}
    for n in mod.globals:
        if n.startswith("VP_"):
            ty, init, ro, tls = mod.global_init(n)
            if init is not None and init.kind == "int": d[n[3:]] = init.v
    return d
