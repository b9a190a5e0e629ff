#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet. tools/refactor.py [--checks C01,..] [NAME...]
Applies the named groups of edits (default: all together) to /repo, runs the checks, undoes them."""
import re
import subprocess
import sys

V = "/verif"
ALL = [f"C{i:02d}" for i in range(1, 17)]
GROUPS = {}


def group(name, *edits):
    GROUPS[name] = edits


exec(open(f"{V}/tools/refactor/edits.py").read())


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh(["git", "-C", "/repo", "checkout", "--", "."])


def apply(names):
    for n in names:
        for e in GROUPS[n]:
            f, old, new = e[:3]
            p = f"/repo/src/{f}"
            s = open(p).read()
            if callable(new):
                t = new(s)
            else:
                k = s.count(old)
                want = e[3] if len(e) > 3 else 1
                assert k == want, (n, f, old, k)
                t = s.replace(old, new)
            assert t != s, (n, f)
            open(p, "w").write(t)


def main():
    a = sys.argv[1:]
    checks = ALL
    if "--checks" in a:
        checks = a[a.index("--checks") + 1].split(",")
        del a[a.index("--checks"):a.index("--checks") + 2]
    apart = "--apart" in a
    a = [x for x in a if x != "--apart"]
    names = a or list(GROUPS)
    for ns in [[n] for n in names] if apart else [names]:
        clean()
        try:
            apply(ns)
            r = sh(["bash", "/opt/vp/build.sh"])
            print(*ns, "build", r.returncode, r.stdout[-1500:] if r.returncode else "", flush=True)
            r = sh(["bash", "/opt/vp/test.sh", "/tmp/refactor.json"])
            print("tests", r.returncode, re.findall(r"\d+ passed[^\n]*", r.stdout)[-1:], flush=True)
            for c in checks:
                r = sh(["python3", f"{V}/check.py", c], cwd=V)
                last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
                print(c, "quiet" if r.returncode == 0 else f"ALARM({r.returncode})\n{r.stdout[-2500:]}", last[:150], flush=True)
                for x in re.findall(r"note: [^\n]*", r.stdout):
                    print("  ", x[:300], flush=True)
        finally:
            clean()


main()
