"""Are the axioms contradictory, as far as the solvers can tell? Every axiom alone, every pair sharing a symbol, then all of them."""
import sys, itertools
import concurrent.futures as cf
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif/contracts')
import vc
import prove as PR
import logic as L
from z3 import *
PR.load()
import multiprocessing as mp
ax = L.AXIOMS
T = float(sys.argv[1]) if len(sys.argv) > 1 else 5


def go(j):
    fs = [ax[k][1] for k in j]
    r = vc.cvc5check(fs, T)
    r2, _ = vc.z3check(fs, T)     # (model-based instantiation of z3 5.3.2 is not sound for arrays under quantifiers; proofs do not use it)
    return j, r, str(r2)


def main():
    sy = [vc.syms(a[1])[0] for a in ax]
    jobs = [(k,) for k in range(len(ax))]
    jobs += [(a, b) for a, b in itertools.combinations(range(len(ax)), 2) if {x for x in sy[a] & sy[b] if x not in ('if', 'select', 'store')}]
    jobs.append(tuple(range(len(ax))))
    print(len(ax), 'axioms', len(jobs), 'queries')
    bad = 0
    with mp.get_context('fork').Pool(8) as p:
        for j, r, r2 in p.imap_unordered(go, jobs, 1):
            if 'unsat' in (r, r2):
                bad += 1
                print('CONTRADICTORY', [ax[k][2] for k in j], r, r2, flush=True)
    print('contradictions found:', bad)


main()
