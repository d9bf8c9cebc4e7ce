"""Builds and runs the replay / bounded search harness (real code under ASan + UBSan)."""
import json, os, re, shutil, subprocess, tempfile, time, concurrent.futures as cf
import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, "harness")
SAN = ["-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,vptr,function",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=5:quarantine_size_mb=16:malloc_context_size=8:allocator_may_return_null=0",
       "UBSAN_OPTIONS": "print_stacktrace=1"}


def env():
    e = dict(os.environ)
    e.update(ENV)
    e.pop("COLUMBUS_DATADIR", None)
    e["LC_ALL"] = "C.UTF-8"
    e["VERIF_SHARE"] = os.path.join(build.REPO, "share")
    return e


def make(work, units=None):
    """-> path of the harness binary"""
    units = units or build.configure(work)
    flags = [f for f in units[0][1] if not f.startswith("-std")]
    o = os.path.join(work, "ho")
    os.makedirs(o, exist_ok=True)
    jobs = [(f, u, os.path.join(o, os.path.basename(f) + ".o")) for f, u, d in units]
    hs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".cc")]
    jobs += [(f, flags + ["-std=c++14", "-I" + SRC], os.path.join(o, "h_" + os.path.basename(f) + ".o")) for f in hs]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        build.run([build.CLANG] + SAN + j[1] + ["-c", j[0], "-o", j[2]])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    b = os.path.join(work, "harness")
    build.run([build.CLANG] + SAN + [j[2] for j in jobs] + ["-licuuc", "-o", b])
    return b


def table(binary):
    r = subprocess.run([binary], capture_output=True, text=True, env=env())
    return {l.split()[0]: (int(l.split()[1]), int(l.split()[2])) for l in r.stdout.split("\n") if l.strip()}


def run(binary, prop, seed, thorough, workers=8, cases=None, limit=240, offset=0):
    """Runs the cases in parallel processes.  -> dict(cases, nontrivial, failure or None)"""
    n = cases or table(binary)[prop][1 if thorough else 0]
    per = (n + workers - 1) // workers
    tmp = tempfile.mkdtemp(prefix="vh")
    procs = []
    t0 = time.time()
    for w in range(workers):
        a, b = offset + w * per, offset + min(n, (w + 1) * per)
        if a >= b:
            continue
        pf = os.path.join(tmp, "p%d" % w)
        of = os.path.join(tmp, "o%d" % w)
        cmd = "exec 7>%s; exec %s %s --seed %d --from %d --to %d --thorough %d --limit %d" % (pf, binary, prop, seed, a, b, int(thorough), limit)
        procs.append((subprocess.Popen(["bash", "-c", cmd], stdout=open(of, "w"), stderr=subprocess.STDOUT, env=env(), cwd=tmp), pf, of))
    total = nt = 0
    bad = None
    for p, pf, of in procs:
        try:
            rc = p.wait(timeout=max(1, limit + 300 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        txt = open(of, errors="replace").read()
        m = re.search(r"^DONE \S+ cases (\d+) nontrivial (\d+)", txt, re.M)
        if rc == 0 and m:
            total += int(m.group(1))
            nt += int(m.group(2))
        else:
            try:
                case = int(open(pf).read().strip().split()[-1])
            except (OSError, ValueError, IndexError):
                case = None
            f = dict(case=case, rc=rc, output=txt[-4000:])
            if bad is None or (case is not None and (bad["case"] is None or case < bad["case"])):
                bad = f
    shutil.rmtree(tmp)
    if bad:
        bad["history"] = replay(binary, prop, seed, bad["case"])[1][-12000:] if bad["case"] is not None else ""
    return dict(cases=total, nontrivial=nt, failure=bad, wall=time.time() - t0)


def replay(binary, prop, seed, case):
    tmp = tempfile.mkdtemp(prefix="vh")
    try:
        r = subprocess.run([binary, prop, "--seed", str(seed), "--case", str(case)], capture_output=True, env=env(), cwd=tmp, timeout=400)
        return r.returncode, (r.stdout + r.stderr).decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -9, "timed out\n" + (e.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(tmp)
