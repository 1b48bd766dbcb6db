#!/usr/bin/env python3
"""Decides one property: builds its check binaries from /repo's working tree, runs them, writes
evidence/<id>.json.   usage: run_check.py ID quick|thorough | run_check.py --replay FILE
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not run."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402

BUDGET = {"quick": 150.0, "thorough": 780.0}


def known(pid):
    """lines 'finding: property=<id> check=<name> match=<text>  <what>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.strip())
    return out


def main():
    if sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2])
        d = dict(l.split(None, 1) for l in open(f) if l.split() and l.split()[0] in ("property", "check", "binary"))
        pid = d["property"].strip()
        out = build.build(build.CHECKS[pid])
        rc = 2
        for n, (exe, err) in out.items():
            if err:
                print(err)
                continue
            lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE).stdout.decode()
            if any(l.split(None, 1)[:2] == [pid, d["check"].strip()] for l in lst.splitlines()):
                return subprocess.call([exe, "--replay", f])
        return rc
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bins = build.CHECKS[pid]
    out = build.build(bins)
    tb = time.time() - t0
    errs = [e for _, e in out.values() if e]
    if errs:
        print("BUILD FAILED for %s\n%s" % (pid, "\n".join(errs)), file=sys.stderr)
        print("BUILD FAILED for %s" % pid)
    print("%s: built in %.1f s" % (pid, tb))
    budget = float(os.environ.get("VP_BUDGET", BUDGET[tier]))
    budget = min(budget, 840 - tb)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    reps, rc, viol = [], 0, []
    good = [n for n in bins if out[n][0]]
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0")
    env.setdefault("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:suppressions=%s/shim/tsan.supp" % VERIF)
    scratch = os.path.join(tmp, "cwd")
    os.mkdir(scratch)
    try:
        for k, n in enumerate(good):
            left = (budget - (time.time() - t0 - tb)) / (len(good) - k)
            rep = os.path.join(tmp, n + ".json")
            r = subprocess.run([out[n][0], "--property", pid, "--tier", tier, "--seed", str(seed), "--report", rep,
                                "--tmp", os.path.join(tmp, n), "--replays", os.path.join(VERIF, "evidence", "replays"),
                                "--budget", "%.1f" % max(5.0, left)] + sys.argv[3:], cwd=scratch, env=env)
            if os.path.exists(rep):
                reps.append((n, json.load(open(rep))))
            elif r.returncode not in (0, 1):
                rc = 2
                print("%s ended with %d and left no report" % (n, r.returncode))
        for n, r in reps:
            viol += r["violations"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evaluations"] for _, r in reps),
                       "discarded": sum(r["discarded"] for _, r in reps),
                       "distinct_nontrivial": sum(r["distinct_nontrivial"] for _, r in reps),
                       "rule": " | ".join(x for _, r in reps for x in r["rules"]),
                       "samples": [s for _, r in reps for s in r["samples"]][:12],
                       "checks": [dict(c, binary=n) for n, r in reps for c in r["checks"]]},
          "build_s": round(tb, 1), "wall_s": round(time.time() - t0, 1), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".t", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".t", p)
    for l in known(pid):
        print("KNOWN-FINDING: " + l[len("finding: "):])
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (pid, v))
    if viol:
        return 1
    if errs:
        return 2
    if not viol and ev["coverage"]["evaluations"] == 0:
        print("nothing was evaluated")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
