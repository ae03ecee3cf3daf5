import sys,time,importlib,os; sys.path.insert(0,'/verif')
from irv import harness as H, build
import multiprocessing as mp, re
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module('specs.'+m)
pat=sys.argv[2] if len(sys.argv)>2 else ''
names=[n for n in H.HARNESSES if re.search(pat,n) and H.HARNESSES[n][0].__module__.split('.')[-1] in mods]
names.sort(key=lambda n:-H.COST.get(n,1))
for u in sorted({u for n in names for u in sys.modules[H.HARNESSES[n][0].__module__].UNITS}): build.compile_unit(u)
def run(n): return H.run_harness(n)
if not names: print("no harness"); os._exit(2)
it=map(run,names) if len(names)==1 else mp.Pool(8).imap_unordered(run,names)
for r in it:
    bad=[o for o in r['obls'] if o['status']!='proved']
    print(r['harness'], (r['err'] or '')[-500 if len(names)>1 else -1500:], len(r['obls']), f"{r['wall']:.1f}s", [(o['name'],o['loc'],o['status']) for o in bad][:4], flush=True)
build.cleanup(); os._exit(0)
