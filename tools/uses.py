"""contracts/uses.json: which contracts each function under contract uses (recorded on the unchanged tree; see prove.run)."""
import os, sys, json, shutil, tempfile
sys.path[:0] = ['/verif/engine', '/verif/contracts']
import prove, build, registry
import multiprocessing as mp
w = tempfile.mkdtemp(prefix='verif')
M = prove._M = prove.Module(w)
jobs = {}
for p in registry.PROPS:
    for f, c, reps, o in prove.jobs_of(M, p, dict(limit=300, timeout=0.01))[0]:
        jobs.setdefault(c, (f, c, reps, o))
with mp.get_context('fork').Pool(8, maxtasksperchild=4) as pool:
    rs = pool.map(prove._go, list(jobs.values()), 1)
shutil.rmtree(w)
json.dump({r['fn']: [u for u in r['used'] if u in M.by] for r in sorted(rs, key=lambda r: r['fn'])}, open('/verif/contracts/uses.json', 'w'), indent=0, sort_keys=True)
print(len(rs))
