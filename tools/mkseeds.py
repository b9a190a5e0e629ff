#!/usr/bin/env python3
"""Write planted bugs into seeded/ID/ from tools/seeds_*.py (run by hand: tools/mkseeds.py [ID...]).
Each seed: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<main.rs>, config=..., args=[...])."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''#!/bin/bash
# Exit 0: the library behaves as documented here; anything else: it does not. Run with the library's checkout as cwd.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf -- "$work"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER=
mkdir "$work/src" && cp "$here"/*.rs "$work/src/" || exit 3
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
aes_crypto = { path = "$repo", features = [@FEATURES@] }
[profile.release]
panic = "@PANIC@"
[profile.dev]
panic = "@PANIC@"
TOML
cd "$work" || exit 3
'''
CONFIGS = {
    # name: (features, environment and cargo command)
    "software": ("", "RUSTFLAGS= timeout 250 cargo +1.99.1 run -q --offline @ARGS@"),
    "constant-time": ('"constant-time"', "RUSTFLAGS= timeout 250 cargo +1.99.1 run -q --offline @ARGS@"),
    "aesni": ("", 'RUSTFLAGS="-C target-feature=+sse4.1,+aes" CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER="qemu-x86_64 -cpu max" '
              "timeout 250 cargo +1.99.1 run -q --offline --target x86_64-unknown-linux-gnu @ARGS@"),
    "vaes": ('"nightly"', 'RUSTFLAGS="-C target-feature=+vaes" CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUNNER="qemu-x86_64 -cpu max" '
             "timeout 250 cargo +nightly run -q --offline --target x86_64-unknown-linux-gnu @ARGS@"),
    "avx512": ('"nightly"', 'RUSTFLAGS="-C target-feature=+vaes,+avx512f" '
               "timeout 250 cargo +nightly run -q --offline --target x86_64-unknown-linux-gnu @ARGS@"),
    "neon": ("", 'RUSTFLAGS="-C target-feature=+aes" CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER=aarch64-linux-gnu-gcc '
             'CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_RUNNER="qemu-aarch64 -L /usr/aarch64-linux-gnu" '
             "timeout 250 cargo +1.99.1 run -q --offline --target aarch64-unknown-linux-gnu @ARGS@"),
    "i686": ("", 'RUSTC_BOOTSTRAP=1 CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUNNER="qemu-i386 -cpu max" '
             'RUSTFLAGS="-C linker=rust-lld -C linker-flavor=ld.lld -C relocation-model=static @RF@" '
             "timeout 250 cargo +stable run -q --offline -Zbuild-std=core --target i686-unknown-linux-gnu @ARGS@"),
}


def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds_*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        seeds += ns["SEEDS"]
    assert len({s["id"] for s in seeds}) == len(seeds)
    for s in seeds:
        if sys.argv[1:] and s["id"] not in sys.argv[1:]:
            continue
        d = os.path.join(V, "seeded", s["id"])
        w = tempfile.mkdtemp()
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x",
                       shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if old is None:
                open(p, "w").write(new(t))
                continue
            assert t.count(old) >= 1, (s["id"], f, old)
            n = s.get("nth", 0)
            if t.count(old) > 1:
                assert "nth" in s, (s["id"], f, t.count(old), old)
                at = -1
                for _ in range(n + 1):
                    at = t.index(old, at + 1)
                t = t[:at] + new + t[at + len(old):]
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        shutil.rmtree(w)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "main.rs"), "w").write(s["demo"].strip() + "\n")
        feats, cmd = CONFIGS[s.get("config", "software")]
        cmd = cmd.replace("@ARGS@", s.get("args", "")).replace("@RF@", s.get("rustflags", ""))
        if "shell" in s:
            cmd = s["shell"].strip()
        sh = HEAD.replace("@FEATURES@", s.get("features", feats)).replace("@PANIC@", s.get("panic", "unwind")) + cmd + "\n"
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        for e, c in s.get("extra", {}).items():
            open(os.path.join(d, e), "w").write(c)


main()
