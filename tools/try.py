import sys,time,re,os,shutil
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/contracts')
import prove, pickle
import multiprocessing as mp
w=os.environ.get('W','/tmp/w2')
pat=sys.argv[1]; verbose=int(sys.argv[2]) if len(sys.argv)>2 else 1
reps=[x for x in (sys.argv[3].split(',') if len(sys.argv)>3 else []) if x]
shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
t=time.time(); M=prove.Module(w); print('build',time.time()-t)
jobs=[(f,c) for c,fs in sorted(M.by.items()) if c in prove.load().contracts and re.search(pat,c) for f in fs]
def go(j):
    return prove.unit(M,j[0],j[1],reps,dict(verbose=verbose,limit=float(os.environ.get('LIMIT','120')),dump=os.environ.get('DUMP'),dumpc=os.environ.get('DUMPC'),smoke=os.environ.get('SMOKE')))
par=int(os.environ.get('PAR','8'))
if par==1 or len(jobs)==1: rs=map(go,jobs)
else: rs=mp.get_context('fork').Pool(par).imap(go,jobs)
for r in rs:
    bad=[o for o in r['obls'] if not o['ok']]
    print("%-4s %s %d/%d %.1fs %s %s"%('OK' if not bad and not r['unsupported'] and not r.get('vacuous') else 'BAD',r['fn'][:110],len(r['obls'])-len(bad),len(r['obls']),r['secs'],'VACUOUS' if r.get('vacuous') else '',r['unsupported'] or ''),r.get('exits'),flush=True)
    for o in bad[:12]: print('      ',o['name'],o['line'],(o['detail'] or '')[:300],flush=True)
