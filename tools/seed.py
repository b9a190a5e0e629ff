#!/usr/bin/env python3
"""Try planted bugs: tools/seed.py [--no-tests] [--checks C01,C05|own|all] ID...
Applies seeded/ID/patch.diff to /repo, builds, runs the repository's tests, the demonstration (also on the clean tree)
and the checks, and undoes the patch."""
import json
import os
import re
import subprocess
import sys

V = "/verif"
ALL = [f"C{i:02d}" for i in range(1, 17)]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(["git", "-C", "/repo", "checkout", "--", "."])


def demo(i):
    try:
        r = sh(["bash", f"{V}/seeded/{i}/demo.sh"], cwd="/repo", timeout=300)
        return r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def main():
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    checks = "own"
    if "--checks" in a:
        checks = a[a.index("--checks") + 1]
        del a[a.index("--checks"):a.index("--checks") + 2]
    ids = [x for x in a if not x.startswith("--")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    for i in ids:
        meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
        clean()
        out = [i, meta["property"]]
        if tests:
            rc, log = demo(i)
            out.append("demo-clean:" + ("ok" if rc == 0 else f"BAD({rc}) {log}"))
        r = sh(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"])
        if r.returncode:
            print(*out, "DOES NOT APPLY", r.stdout)
            continue
        try:
            if tests:
                r = sh(["bash", "/opt/vp/build.sh"], timeout=900)
                out.append("build:" + ("ok" if r.returncode == 0 else "BAD " + r.stdout[-800:]))
                r = sh(["bash", "/opt/vp/test.sh", "/tmp/seed-out.json"], timeout=900)
                res = json.load(open("/tmp/seed-out.json"))
                names = lambda d: set(d) if isinstance(d, list) else {k for k, v in d.items() if v in ("passed", "pass", "ok", True)}
                got = names(res.get("passed", res.get("tests", res)))
                want = names(stable)
                out.append(f"tests:{len(want & got)}/{len(want)}" + ("" if want <= got else " BAD " + str(sorted(want - got)[:3])))
                rc, log = demo(i)
                out.append("demo-patched:" + (f"fails({rc})" if rc not in (0, -1) else f"BAD({rc}) {log}"))
            for c in ALL if checks == "all" else [meta["property"]] if checks == "own" else checks.split(","):
                r = sh(["python3", f"{V}/check.py", c], cwd=V)
                v = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
                m = re.search(r"([0-9.]+) s(;|$)", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "")
                out.append(f"{c}:" + ("CAUGHT" if v else "quiet" if r.returncode == 0 else f"ERROR({r.returncode}) {r.stdout[-600:]}") + (f"[{m.group(1)}s]" if m else ""))
        finally:
            clean()
        print(*out, flush=True)


main()
