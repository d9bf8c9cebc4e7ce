#!/usr/bin/env python3
"""mkseed.py ID: makes /verif/seeded/ID from tools/seeds.py, confirming everything in a scratch copy."""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Builds demo.cc against the library built in /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -r "$t"' EXIT
lib=$(find _build -name 'libcolumbus.so*' | head -1)
inc=$(dirname "$(find _build -name ColumbusCore.hh | head -1)")
g++ -std=c++11 -w -g -Iinclude -I. -I"$inc" "$here/demo.cc" -o "$t/demo" "$lib" -licuuc -Wl,-rpath,"$PWD/$(dirname "$lib")" || exit 9
cd "$t" && COLUMBUS_DATADIR="$OLDPWD/share" timeout 250 ./demo
"""
HEAD = r"""#include "Word.hh"
#include "WordList.hh"
#include "ColumbusHelpers.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "IndexWeights.hh"
#include "ErrorValues.hh"
#include "MatchResults.hh"
#include "Matcher.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <stdexcept>
using namespace Columbus;
#define EXPECT(c) do { if(!(c)) { printf("broken: %s\n", #c); fflush(stdout); _Exit(1); } } while(0)
"""


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors='replace', **k)


def main(sid):
    s = SEEDS[sid]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    open(d + "/demo.cc", "w").write(s.get("head", HEAD) + s["demo"])
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        for f, a, b, *n in s["edits"]:
            t = open("/repo/" + f).read()
            if n:
                k = t.split(a)
                t2 = a.join(k[:n[0] + 1]) + b + a.join(k[n[0] + 1:])
            elif t.count(a) == 1:
                t2 = t.replace(a, b)
            else:
                print(sid, "edit does not apply", t.count(a), repr(a))
                return False
            open("/repo/" + f, "w").write(t2)
        p = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(p)
        r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base
        stable = stable if isinstance(stable, list) else list(stable)
        missing = [x for x in stable if x not in res["passed"]]
        print(sid, "tests missing:", missing)
        dp = sh("bash %s/demo.sh" % d, cwd="/repo")
        print(sid, "demo with patch:", dp.returncode, dp.stdout.strip()[-200:], dp.stderr[-300:])
        ok = not missing and dp.returncode not in (0, 9)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    du = sh("bash %s/demo.sh" % d, cwd="/repo")
    print(sid, "demo clean:", du.returncode, du.stdout[-200:], du.stderr[-300:])
    ok = ok and du.returncode == 0
    print(sid, "OK" if ok else "REJECTED")
    return ok


if __name__ == "__main__":
    bad = [i for i in sys.argv[1:] or sorted(SEEDS) if not main(i)]
    print("bad:", bad)
