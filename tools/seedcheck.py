#!/usr/bin/env python3
"""seedcheck.py [--demo-only] ID... : confirms planted bugs in a scratch copy of /repo and runs this property's check on them.
Never run by a check; prints one line per bug."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrepo"
args = sys.argv[1:]
demo_only = "--demo-only" in args
all_checks = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    sh("cp -a /repo/_build %s/ 2>/dev/null" % W)


def demo(d):
    t = "/tmp/seeddemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    # the demo is run with cwd /repo in real life; a bind to the copy is not possible, so demos use $PWD
    r = sh("bash /tmp/seeddemo/demo.sh", cwd=W, timeout=300)
    shutil.rmtree(t, ignore_errors=True)
    return r


for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    fresh()
    r0 = demo(d)
    a = sh("git apply %s/patch.diff" % d, cwd=W)
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout.decode()); continue
    r1 = demo(d)
    line = "%s %s demo clean=%d patched=%d" % (i, meta["property"], r0.returncode, r1.returncode)
    if r0.returncode: print(r0.stdout.decode()[-1500:])
    if not r1.returncode: print(r1.stdout.decode()[-1500:])
    if not demo_only:
        env = dict(os.environ, VP_REPO=W, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        import time
        t0 = time.time()
        r = sh("python3 tools/run_check.py %s" % meta["property"], cwd=V, env=env, timeout=1000)
        v = [l for l in r.stdout.decode(errors="replace").split("\n") if l.startswith("VIOLATION")]
        ok = r.returncode == 1 and any(("property=%s " % meta["property"]) in l for l in v)
        line += " check rc=%d %s (%.0f s)" % (r.returncode, "CAUGHT" if ok else "MISSED", time.time() - t0)
        open("/tmp/seed-%s.log" % i, "wb").write(r.stdout)
    print(line, flush=True)
shutil.rmtree(W, ignore_errors=True)
