"""writes MANIFEST.json from the list of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
}
CLAIMED = open(os.path.join(HERE, "tools", "claimed.txt")).read().split()
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "notes.py")) else None
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED: continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough", evidence_file=f"evidence/{i}.json",
      technique="contract-based deductive verification of the real code (LLVM IR of /repo's sources; contracts, loop invariants and rely/guarantee conditions discharged by z3/cvc5)",
      level="proof", level_note=NOTE.get(i, "every obligation generated from the current sources is discharged for all inputs and iterations; assumed contracts are listed in the evidence")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "contracts for this part are not built yet")) for p in props if p["id"] not in CLAIMED])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); print(len(checks), "claimed")
