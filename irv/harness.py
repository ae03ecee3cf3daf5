"""Harness registry: a harness verifies one function (or a lemma) against its contract."""
import time, traceback, z3
from . import build, core
from .core import *
from .execu import *

HARNESSES = {}
DEADLINE = 420
COST = {}       # expected seconds, for scheduling only
ASSUMPTIONS = [
 "the verified text is the LLVM IR clang 18 produces from /repo's sources (-O0 plus sroa, -DNDEBUG); gcc is assumed to give the same program the same meaning, including the order of argument evaluation where the source leaves it open",
 "operator new does not fail; termination is not proved (total correctness is not claimed)",
 "distinct objects occupy disjoint memory; signed overflow wraps in the IR and is not an obligation unless stated",
 "templates are verified for the instantiations listed in the unit files",
]
TRUSTED = ["the VC generator /verif/irv (symbolic execution of LLVM IR, loop cutting), the contracts in /verif/specs", "clang 18 front end and sroa pass", "z3 5.3 / cvc5 1.1.2"]
class Ctx:
    def __init__(self, name): self.name = name; self.vs = []; self.lemmas = []; self.extra_assume = []; self.bounded = []
    def verifier(self, unit, contracts=(), loops=None, **kw):
        from .stdlib import STD
        mods = [build.module(u) for u in (unit if isinstance(unit, (list, tuple)) else [unit])]
        v = Verifier(mods, self.name, list(contracts) + STD, loops, **kw)
        v.off = {}; v.deadline = time.time() + DEADLINE
        for m in mods: v.off.update(build.offsets(m))
        self.vs.append(v); return v
    def lemma(self, name, f, assume=()):
        """an obligation over contracts only"""
        s = z3.Solver(); s.set("timeout", TIMEOUT_MS * 3); t = time.time()
        for a in assume: s.add(a)
        if assume and s.check() == z3.unsat: self.lemmas.append(Obl(name, "lemma", "failed", "assumptions contradictory", "z3", [])); return
        s.add(z3.Not(f)); r = s.check()
        st = "proved" if r == z3.unsat else "failed" if r == z3.sat else "unknown"
        self.lemmas.append(Obl("lemma " + name, "lemma", st, s.model() if r == z3.sat else None, "z3", [])); self.lt = time.time() - t

def harness(name, props, need=(), cost=None):
    def d(fn):
        if cost: COST[name] = cost
        HARNESSES[name] = (fn, props, tuple(need)); return fn
    return d

def need_covers(ctx, v, names):
    for n in names:
        if not v.covers.get(n): v.obls.append(Obl(f"cover '{n}' is reachable", "-", "failed", "not reachable: the contract would hold vacuously", "z3", []))

def run_harness(name):
    fn, props, need = HARNESSES[name]
    ctx = Ctx(name); t = time.time(); err = None
    try:
        fn(ctx)
        for v in ctx.vs: pass
    except Unsupported as e: err = f"unsupported: {e}"
    except NeedFork as e: err = f"unsupported: case split outside an instruction"
    except RecursionError: err = "unsupported: recursion limit"
    except Exception as e: err = "internal: " + traceback.format_exc()[-1500:]
    obls = list(ctx.lemmas); inl = {}; con = {}; cov = {}; stime = 0; q = 0; loops = []; steps = 0
    for v in ctx.vs:
        obls += v.obls; stime += v.solver.time; q += v.solver.queries; loops += v.houdini; steps += v.steps
        for k, n in v.fns_inlined.items(): inl[k] = inl.get(k, 0) + n
        for k, n in v.fns_contract.items(): con[k] = con.get(k, 0) + n
        cov.update({f"{k}": b for k, b in v.covers.items()})
    def ser(o):
        d = dict(name=o.name, loc=o.loc, status=o.status, solver=o.solver)
        if o.status == "failed":
            m = o.info
            d["model"] = {str(x): str(m[x])[:200] for x in list(m.decls())[:120]} if isinstance(m, z3.ModelRef) else str(m)
            d["trail"] = [str(x) for x in (o.trail or [])][-60:]
        elif o.status == "unknown": d["reason"] = str(o.info)
        return d
    return dict(harness=name, err=err, obls=[ser(o) for o in obls], inlined=inl, contracts=con, covers=cov, solver_s=stime, queries=q,
                loops=loops, wall=time.time() - t, steps=steps, bounded=ctx.bounded, targets=sorted({f for v in ctx.vs for f in v.targets} | set(getattr(ctx, "targets", []))), assume=sorted(set(ctx.extra_assume)))
