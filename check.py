#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

exit 0: every obligation discharged and no failing input; exit 1: VIOLATION line."""
import json, os, re, shutil, sys, tempfile, time, traceback, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.path.insert(0, V)
import build, harness


def known(prop):
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the same order of everything on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif")
    ev = dict(property=prop, tier=tier, seed=seed)
    violation = None
    try:
        try:
            import prove
            have = prove.has(prop)
        except ImportError:
            have = False
        units = build.configure(work)
        with cf.ThreadPoolExecutor(1) as ex:
            hb = ex.submit(harness.make, work, units)
            hr = None

            def search():
                nonlocal hr
                if hr is None:
                    hr = harness.run(hb.result(), prop, seed, thorough, limit=2400 if thorough else 200)
                return hr
            try:
                # (an obligation that failed is not tried again for longer once a failing input is known)
                pr = prove.run(prop, work, units, thorough, found=lambda: bool(search()["failure"])) if have else None
            except build.BuildError:
                raise
            except Exception:
                # the engine gave up on the code as it is now: the bounded search alone decides
                pr = None
                ev["engine_error"] = traceback.format_exc()[-1500:]
            binary = hb.result()
        search()
        ev["level"], ev["coverage"] = coverage(prop, pr, hr, binary)
        failed = pr["failed"] if pr else []
        if hr["failure"]:
            f = hr["failure"]
            violation = dict(property=prop, kind="failing input", case=f["case"], seed=seed,
                             how="build the harness (engine/harness.py make) and run: harness %s --seed %d --case %s" % (prop, seed, f["case"]),
                             output=f["output"], history=f["history"], failed_obligations=failed)
        elif failed:
            violation = dict(property=prop, kind="failed obligation", failed_obligations=failed,
                             searched="%d cases of the replay harness, none fails" % hr["cases"])
    except build.BuildError as e:
        # the changed code does not build with the headers the contracts and the harness use
        violation = dict(property=prop, kind="does not build", output=str(e))
        ev["level"] = "other"
        ev["coverage"] = dict(explanation="the code under check or the harness did not build: " + str(e)[:500])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        p = os.path.join(V, "replay", prop + ".json")
        json.dump(violation, open(p, "w"), indent=1, default=str)
        for o in violation.get("failed_obligations") or []:
            print("failed obligation: %s" % (o.get("name") if isinstance(o, dict) else o))
        if violation.get("output"):
            print(violation["output"][-800:])
        tail = "" if violation["kind"] == "failing input" else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, p, tail))
        return 1
    print("OK property=%s %s" % (prop, json.dumps({k: v for k, v in ev["coverage"].items() if isinstance(v, int)})))
    return 0


def coverage(prop, pr, hr, binary):
    bounded = dict(label="bounded search on the real code under ASan and UBSan; never counted as proved",
                   evaluations=hr["cases"], nontrivial_steps=hr["nontrivial"], wall_s=round(hr["wall"], 2))
    if not pr:
        return "exploration", dict(evaluations=hr["cases"], distinct_nontrivial=min(hr["cases"], hr["nontrivial"]),
                                   rule="every case is a random history from its own seed; a case is non-trivial when it reaches a non-empty result",
                                   samples=["case %d of property %s, seed as given" % (i, prop) for i in (0, 1)])
    c = dict(pr["coverage"])
    c["bounded"] = bounded
    return pr["level"], c


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
