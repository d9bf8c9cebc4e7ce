"""Turns /repo's current sources into the LLVM IR the verifier reads.

1. configure the project's own CMake in a scratch directory (gives ColumbusCore.hh and the
   real compile commands),
2. compile every library source with clang -O0 (same flags, same headers), link to one module,
3. inline every function that has no contract (LLVM's always-inline pass), promote locals to SSA.

Nothing is dropped: what is verified is the linked module's code.
"""
import json, os, re, shlex, shutil, subprocess, tempfile, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG, OPT, LINK, FILT = "clang++", "opt", "llvm-link", "llvm-cxxfilt"
if not shutil.which("llvm-link"):
    LINK = "/usr/lib/llvm-18/bin/llvm-link"


class BuildError(Exception):
    pass


def run(cmd, cwd=None, timeout=600, inp=None):
    r = subprocess.run(cmd, cwd=cwd, input=inp, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], (r.stderr or r.stdout)[-3000:]))
    return r.stdout


def configure(work):
    b = os.path.join(work, "cm")
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    r = subprocess.run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug",
                        "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Denable_tests=OFF",
                        "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                        "-DBOOST_PYTHON_HACK=/usr/lib/x86_64-linux-gnu/libboost_python312.so"],
                       capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise BuildError("cmake: " + r.stderr[-2000:])
    cc = json.load(open(os.path.join(b, "compile_commands.json")))
    out = []
    seen = set()
    for e in cc:
        f = e["file"]
        if "/src/" in f and f.endswith(".cc") and "columbus.dir" in e["command"] and f not in seen:
            seen.add(f)
            flags = []
            for w in shlex.split(e["command"])[1:]:
                if re.match(r"-(I|D|std|isystem)", w):
                    flags.append(w)
            out.append((f, flags, e["directory"]))
    return out


def compile_all(work, units=None):
    units = units or configure(work)
    lls = []

    def one(u):
        f, flags, d = u
        o = os.path.join(work, os.path.basename(f) + ".ll")
        # -isystem paths produced for precompiled headers are not needed
        run([CLANG] + flags + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
             "-gline-tables-only", "-w", "-S", "-emit-llvm", f, "-o", o], cwd=d)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(one, units))
    whole = os.path.join(work, "whole.ll")
    run([LINK, "-S"] + lls + ["-o", whole])
    return whole, [u[0] for u in units]


DEF = re.compile(r'^define\b.*?@("(?:[^"]+)"|[\w.$]+)\(')


def demangle(names):
    names = list(names)
    out = run([FILT], inp="\n".join(names) + "\n").split("\n")
    return dict(zip(names, out))


def prepare(whole, keep, work, tag="prep", pre=None):
    """keep(demangled, mangled) -> bool: function stays a call (it has a contract)."""
    txt = open(whole).read().split("\n")
    names = set()
    for l in txt:
        if l.startswith("define") or l.startswith("declare"):
            mm = re.search(r'@("(?:[^"]+)"|[\w.$]+)\(', l)
            names.add(mm.group(1).strip('"'))
    dm = demangle(sorted(names))
    if pre:
        pre(dm)
    out = []
    kept = {}
    for l in txt:
        if l.startswith("attributes #"):
            l = l.replace(" noinline ", " ")
        elif l.startswith("define"):
            nm = DEF.match(l).group(1).strip('"')
            k = keep(dm[nm], nm)
            kept[nm] = k
            i = l.rindex(")", 0, l.rindex("{"))
            mm = re.search(r' (#\d+)', l[l.index("@"):])
            pos = l.index("@") + mm.start() if mm else i + 1
            l = l[:pos] + (" noinline" if k else " alwaysinline") + l[pos:]
        out.append(l)
    p1 = os.path.join(work, tag + "0.ll")
    open(p1, "w").write("\n".join(out))
    p2 = os.path.join(work, tag + ".ll")
    run([OPT, "-S", "-passes=always-inline,globaldce,function(sroa,early-cse,simplifycfg,lower-invoke<>,dce),globalopt".replace("lower-invoke<>,", ""),
         p1, "-o", p2])
    return p2, dm, kept
