"""Runs the deductive engine for one property: build the IR from /repo, verify every function under contract."""
import os, re, sys, time, json, traceback, hashlib
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
for p in (HERE, os.path.join(ROOT, 'contracts')):
    if p not in sys.path:
        sys.path.insert(0, p)

LOADED = {}


def load():
    """all contract modules -> lib"""
    import vc, ext, stl, registry
    if 'lib' not in LOADED:
        lib = vc.Lib()
        ext.install(lib)
        stl.install(lib)
        registry.install(lib)
        LOADED['lib'] = lib
    return LOADED['lib']


class Module:
    def __init__(self, work, units=None):
        import build, irparse, cxx, stl, steps
        self.whole, self.units = build.compile_all(work, units)
        lib = load()

        cmps = set()

        def pre(dm):
            # the functions that std::sort and std::stable_sort compare with stay functions of their own
            for d in dm.values():
                if d.startswith(('void std::sort<', 'void std::stable_sort<')):
                    t = steps.parsed(d)[0][-1][1]
                    if len(t) > 1:
                        cmps.add(t[1] + '::operator()(')
                    else:
                        x = re.search(r'__normal_iterator<(.*?)\*, ', t[0])
                        if x:
                            cmps.add(x.group(1) + '::operator<(')

        def keep(d, m):
            if d in lib.contracts or m in lib.exact or (cmps and d.startswith(tuple(cmps))):
                return True
            c, ps, h = steps.parsed(d)
            return stl.keep(d, c, ps)
        self.path, self.dm, self.kept = build.prepare(self.whole, keep, work, pre=pre)
        self.mod = irparse.Module(self.path)
        self.by = {}
        for n, k in self.kept.items():
            self.by.setdefault(self.dm[n], []).append(n)


def unit(M, fname, cname, reps, opts):
    import vc
    lib = load()
    import logic
    logic.OPAQUE.clear()
    X = vc.Exec(M.mod, M.dm, lib, fname, cname, lib.contracts[cname], reps, opts)
    X.deadline = time.time() + opts.get('limit', 300)
    t = time.time()
    q0, t0 = vc.STATS.queries, vc.STATS.time
    res = dict(fn=cname, mangled=fname, obls=[], unsupported=None, used=[], assumed=[])
    try:
        obls = X.run()
        res['obls'] = [dict(name=o.name, line=o.line, ok=o.ok, backend=o.backend, kind=o.kind, detail=o.detail) for o in obls]
        res['vacuous'] = bool(X.vac)
        res['exits'] = X.exits
    except vc.VerifUnsupported as e:
        # out of time: what failed before that at full effort still counts
        if str(e) == 'time limit' and any(not o.ok for o in X.obls):
            res['obls'] = [dict(name=o.name, line=o.line, ok=o.ok, backend=o.backend, kind=o.kind, detail=o.detail) for o in X.obls]
        else:
            res['unsupported'] = "line %s: %s" % (X.curline, e)
    except RecursionError:
        res['unsupported'] = "recursion limit"
    except Exception:
        if opts.get('verbose'):
            traceback.print_exc()
        res['unsupported'] = "internal: " + traceback.format_exc()[-600:]
    res['secs'] = time.time() - t
    res['solver'] = vc.STATS.time - t0
    res['queries'] = vc.STATS.queries - q0
    res['used'] = sorted(X.used_contracts)
    res['assumed'] = sorted(X.used_assumed)
    return res


# ------------------------------------------------------------------ one property
def table():
    load()
    import registry
    return registry.PROPS


def has(prop):
    return prop in table()


class _Proved(dict):
    """property -> (technique, level, note), for the manifest"""

    def __contains__(self, p):
        return p in table()

    def __getitem__(self, p):
        r = table()[p]
        return r['technique'], r['level'], r['note']


PROVED = _Proved()
LEAK = ('leak',)


def relevant(r, o):
    """does obligation o of a function count for the property?"""
    k = r.get('kinds')
    if k:
        return o['kind'] in k or bool(r.get('names') and re.search(r['names'], o['name']))
    return o['kind'] not in LEAK


_M = None


def _go(job):
    f, c, reps, opts = job
    return unit(_M, f, c, reps, opts)


def lemma(name, hyps, goal, timeout=20):
    import vc
    t = time.time()
    r, be = vc.prove(list(hyps), goal, timeout, 2, True)
    return dict(name=name, line=None, ok=r == 'proved', backend=be, kind='lemma', detail=None if r == 'proved' else str(goal)[:800], secs=time.time() - t)


def _golemma(job):
    prop, n = job
    import registry
    name, hyps, goal = registry.PROPS[prop]['lemmas'][n]
    return lemma(name, hyps, goal)


def jobs_of(M, prop, opts):
    import registry
    lib = load()
    r = registry.PROPS[prop]
    jobs, missing = [], []
    for c, reps in registry.functions(lib, prop):
        fs = M.by.get(c, [])
        if not fs:
            missing.append(c)
        for f in fs:
            jobs.append((f, c, reps, opts))
    return jobs, missing


def run(prop, work, units, thorough=False, workers=None, found=lambda: False):
    global _M
    import vc, registry
    import multiprocessing as mp
    workers = workers or int(os.environ.get('VERIF_JOBS', '8'))
    t0 = time.time()
    lib = load()
    r = registry.PROPS[prop]
    limit = 1500 if thorough else 330
    opts = dict(limit=limit, timeout=12.0 if thorough else 6.0)
    _M = Module(work, units)
    jobs, missing = jobs_of(_M, prop, opts)
    ctx = mp.get_context('fork')
    # the slowest first
    jobs.sort(key=lambda j: -registry.cost(j[1]))
    lem = [(prop, n) for n in range(len(r.get('lemmas') or []))]
    with ctx.Pool(workers, maxtasksperchild=4) as pool:
        lr = pool.map_async(_golemma, lem, 1) if lem else None
        res = [x.get() for x in [pool.apply_async(_go, (j,)) for j in jobs]]
        lems = lr.get() if lr else []
    # an obligation that failed may only have run out of time on a loaded machine: once more, alone and longer
    bad = [n for n, x in enumerate(res) if any(not o['ok'] for o in x['obls']) or (x['unsupported'] or '').endswith('time limit')]
    if bad and time.time() - t0 < 450 and not found():
        left = (1e9 if thorough else 680) - (time.time() - t0)
        o2 = dict(opts, timeout=20.0, htimeout=4.0, tries=3, limit=min(limit, left * 0.7))
        with ctx.Pool(min(4, workers), maxtasksperchild=1) as pool:
            rr = [(n, pool.apply_async(_go, ((jobs[n][0], jobs[n][1], jobs[n][2], o2),))) for n in bad]
            for n, x in rr:
                x = x.get()
                if not x['unsupported'] or res[n]['unsupported']:
                    res[n] = x
    # a helper with a contract that is gone (renamed, merged, other parameters): its callers cannot be judged by their old contracts' parts
    uses = json.load(open(os.path.join(ROOT, 'contracts', 'uses.json')))
    gone = set(missing) | set(c for c in uses if c not in M_by())
    failed, fns, unsup, back = [], [], [], {}
    nob = nok = 0
    used, assumed = set(), set()
    for j, x in zip(jobs, res):
        obls = [o for o in x['obls'] if relevant(r, o)]
        if x['unsupported']:
            unsup.append(dict(function=x['fn'], reason=x['unsupported']))
            continue
        lost = sorted(gone & set(uses.get(x['fn'], [])))
        if lost and not all(o['ok'] for o in obls):
            unsup.append(dict(function=x['fn'], reason="it used %s, which is gone" % ', '.join(lost)))
            continue
        used |= set(x['used'])
        assumed |= set(x['assumed'])
        nob += len(obls)
        nok += sum(o['ok'] for o in obls)
        for o in obls:
            if o['ok']:
                back[o['backend']] = back.get(o['backend'], 0) + 1
            else:
                failed.append(dict(name="%s: %s" % (x['fn'], o['name']), line=o['line'], detail=o['detail']))
        if x.get('vacuous'):
            failed.append(dict(name="%s: its preconditions can be met" % x['fn'], line=None, detail="vacuous contract"))
        fns.append(dict(function=x['fn'], obligations=len(obls), discharged=sum(o['ok'] for o in obls), seconds=round(x['secs'], 1), solver_seconds=round(x['solver'], 1)))
    for o in lems:
        nob += 1
        nok += o['ok']
        if o['ok']:
            back[o['backend']] = back.get(o['backend'], 0) + 1
        else:
            failed.append(dict(name="lemma: " + o['name'], line=None, detail=o['detail']))
    under = set(c for _, c, _, _ in jobs)
    elsewhere = set(c for p in registry.PROPS for c, _ in registry.functions(lib, p))
    trusted = sorted(u for u in used if u not in under and u in elsewhere)
    unproved = sorted(u for u in used if u not in under and u not in elsewhere)
    cov = dict(obligations=nob, discharged=nok,
               checker_cmd="python3-vt check.py %s (engine/prove.py: LLVM IR of /repo, verification conditions, z3 %s, cvc5)" % (prop, z3version()),
               trusted_base=registry.TRUSTED + ["assumed contracts used: " + ', '.join(sorted(assumed)) if assumed else "no assumed library contracts used"],
               assumed_contracts_of_functions_in_repo=unproved,
               functions_under_contract=fns, back_ends=back, solver_s=round(sum(x['solver'] for x in res), 1),
               callee_contracts_verified_in_other_checks=trusted, lemmas=[o['name'] for o in lems],
               out_of_reach=unsup, contracts_without_function=missing, proof_wall_s=round(time.time() - t0, 1))
    return dict(level='proof', coverage=cov, failed=failed)


def M_by():
    return _M.by


def z3version():
    import z3
    return z3.get_version_string()
