#!/usr/bin/env python3
"""Builds the check binaries from /repo's current working tree into /verif/build.

Every object is cached under the content of everything it was made from (source, all headers it
included, command line), so a check rebuilds exactly what a change in /repo affects and nothing
depends on file times.
usage: build.py [ID...]      (no ID: everything)
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shlex
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(VERIF, "build")
OBJ = os.path.join(B, "obj")
BIN = os.path.join(B, "bin")
GEN = os.path.join(B, "gen")

BASE = ["-w", "-std=c++17", "-fopenmp", "-include", VERIF + "/shim/pdo_prelude.h", "-I" + GEN, "-I" + VERIF + "/shim",
        "-I" + VERIF + "/lib", "-I" + REPO + "/include", "-I" + REPO + "/include/utils",
        "-DPARDETRIA_VERIF", "-DPARDETRIA_VERIF_REPO=\"" + REPO + "\""]
FLAV = {
    "O1": ["-O1"],
    "O2": ["-O2"],
    # compiler optimisation like upstream's release flags, but with the assertions on
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
LINK = ["-fopenmp", "-ltbb", "-ltbbmalloc", "-lboost_serialization", "-lboost_system", "-lboost_program_options", "-lgmpxx", "-lgmp", "-lmpfr", "-lpthread"]

UTIL = ["src/utils/Logger.cpp", "src/utils/ccolor.cpp", "src/utils/System.cpp", "src/utils/System.c",
        "src/utils/Timings.cpp", "@version"]
GEOM = UTIL + ["src/lib/Geometry.cpp", "src/utils/Predicates.cpp", "src/utils/VTuneAdapter.cpp",
               "src/utils/StringUtils.cxx"]
PART = GEOM + ["src/lib/Partitioner.cpp"]
TRI = PART + ["src/lib/SpatialSort.cpp", "src/lib/Triangulator.cpp", "src/lib/CGALTriangulator.cpp"]
DC = TRI + ["src/lib/DCTriangulator.cpp"]

# name -> (harness source, repository sources, flavour, extra flags)
TARGETS = {}


def target(name, src, repo, flavour="O1", extra=()):
    TARGETS[name] = (src, repo, flavour, list(extra))


# property id -> binaries to run
CHECKS = {}
exec(open(os.path.join(VERIF, "tools", "targets.py")).read())


def sha(b):
    return hashlib.sha256(b).hexdigest()


_hcache = {}


def fsha(p):
    if p not in _hcache:
        try:
            with open(p, "rb") as f:
                _hcache[p] = sha(f.read())
        except OSError:
            _hcache[p] = "-"
    return _hcache[p]


def write_if(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        tmp = "%s.%d" % (p, os.getpid())
        open(tmp, "w").write(s)
        os.replace(tmp, p)


def prepare():
    for d in (OBJ, BIN, GEN):
        os.makedirs(d, exist_ok=True)
    write_if(GEN + "/version.cpp", '#include "utils/version.h"\nconst char GIT_COMMIT[] = "verif-revision";\n')
    subprocess.check_call([sys.executable, VERIF + "/shim/gen_tds.py", GEN])


def compile_one(src, flags):
    """returns the object path; recompiles when any input's content changed"""
    path = GEN + "/version.cpp" if src == "@version" else (src if os.path.isabs(src) else os.path.join(REPO, src))
    cc = ["gcc"] if path.endswith(".c") else ["g++"]
    fl = list(flags)
    if path.endswith(".c"):
        fl = [f for f in fl if not f.startswith("-std=")]
        i = fl.index("-include")
        del fl[i:i + 2]
    if path.endswith(".cxx"):
        fl = fl + ["-x", "c++"]
    cmd = cc + fl + ["-c", path]
    key = sha("\0".join(cmd).encode())[:24]
    stem = os.path.join(OBJ, os.path.basename(path).replace(".", "_") + "-" + key)
    obj, depf, ok = stem + ".o", stem + ".d", stem + ".ok"
    if os.path.exists(ok) and os.path.exists(obj):
        lines = open(ok).read().split("\n")
        if all(fsha(l[65:]) == l[:64] for l in lines if l):
            return obj, None
    tmp = "%s.%d.o" % (stem, os.getpid())
    r = subprocess.run(cmd + ["-MD", "-MF", depf, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, " ".join(shlex.quote(c) for c in cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:]
    deps = shlex.split(open(depf).read().replace("\\\n", " "))[1:]
    deps = [d for d in deps if not d.startswith("/usr/")]
    os.replace(tmp, obj)
    with open(ok + ".t", "w") as f:
        for d in deps:
            f.write(fsha(d) + " " + d + "\n")
    os.replace(ok + ".t", ok)
    os.unlink(depf)
    return obj, None


def build(names, jobs=8, quiet=False):
    prepare()
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    units = {}
    for n in names:
        src, repo, flav, extra = TARGETS[n]
        flags = BASE + FLAV[flav] + extra
        lst = [(os.path.join(VERIF, "checks", src), tuple(flags))] + [(s, tuple(flags)) for s in repo]
        units[n] = lst
    todo, seen = [], set()
    for l in units.values():
        for u in l:
            if u not in seen:
                seen.add(u)
                todo.append(u)
    big = ("CGALTriangulator", "LBD", "DCTriangulator", "c03", "c06", "c34", "c02", "c01")
    todo.sort(key=lambda u: (not any(b in u[0] for b in big), u[0]))
    res, errs = {}, {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = {ex.submit(compile_one, *u): u for u in todo}
        for f in cf.as_completed(fut):
            o, e = f.result()
            res[fut[f]] = o
            if e:
                errs[fut[f]] = e
    out = {}
    for n, l in units.items():
        bad = [errs[u] for u in l if u in errs]
        if bad:
            out[n] = (None, "\n".join(bad))
            continue
        objs = [res[u] for u in l]
        flav, extra = TARGETS[n][2], TARGETS[n][3]
        link = ["g++"] + [f for f in FLAV[flav] + extra if f.startswith("-fsanitize")] + objs + LINK
        key = sha("\0".join(link + [fsha_obj(o) for o in objs]).encode())
        exe = os.path.join(BIN, n)
        if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
            r = subprocess.run(link + ["-o", exe + ".t"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                out[n] = (None, " ".join(link) + "\n" + r.stdout.decode(errors="replace")[-6000:])
                continue
            os.replace(exe + ".t", exe)
            open(exe + ".key", "w").write(key)
        out[n] = (exe, None)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


def fsha_obj(p):
    with open(p, "rb") as f:
        return sha(f.read())


if __name__ == "__main__":
    ids = sys.argv[1:]
    names = sorted({b for i in (ids or CHECKS) for b in CHECKS[i]})
    out = build(names)
    rc = 0
    for n, (exe, err) in out.items():
        if err:
            rc = 1
            print("FAILED", n, "\n", err)
    print("built %d of %d binaries" % (sum(1 for v in out.values() if v[0]), len(out)))
    sys.exit(rc)
