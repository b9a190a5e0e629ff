"""C16: the whole lattice of configurations - toolchain x cargo features x target x target features - is enumerated; in
each the probe crate (one exported function per public operation) is compiled and what every operation was compiled to
(its instructions and those of everything it calls, the constant tables they refer to) is compared with the decision
table of README.md."""
import concurrent.futures as cf
import glob
import itertools
import os
import re
import shutil
import subprocess

WIDTHS = (1, 2, 4)
KEYS = ("128", "192", "256")
ROUND_OPS = [f"probe_{o}_{w}" for o in ("enc", "dec", "enc_last", "dec_last", "chain_enc", "chain_dec") for w in WIDTHS]
CIPHER_OPS = [f"probe_{d}{k}_{w}" for d in "ed" for k in KEYS for w in WIDTHS]
OTHER_OPS = ["probe_mc_1", "probe_imc_1"] + [f"probe_key_{d}{k}_1" for d in "ed" for k in KEYS]
OPS = ROUND_OPS + CIPHER_OPS + OTHER_OPS
TABLE = 256  # the smallest lookup table that makes sense: an S-box

AES_INSN = {
    "x86": re.compile(r"^v?aes(enc|dec|enclast|declast|imc|keygenassist)$"),
    "arm": re.compile(r"^aes(e|d|mc|imc)(\.8)?$"),
    "riscv": re.compile(r"^aes(32|64)[a-z0-9]+$"),
}


class Point:
    """one configuration"""

    def __init__(self, tc, target, tfs, feats, std=True, checked=False, unwind=False):
        self.tc, self.target, self.tfs, self.feats, self.std = tc, target, tfs, feats, std
        self.checked, self.unwind, self.optional = checked, unwind, False

    @property
    def name(self):
        return f"{self.tc}/{self.target}/{'+'.join(self.tfs) or 'baseline'}/{'+'.join(self.feats) or 'default'}" + (
            "/debug-assertions" if self.checked else "") + ("/panic-unwind" if self.unwind else "")

    @property
    def group(self):
        return re.sub(r"[^A-Za-z0-9]+", "-", f"{self.tc}-{self.target}-{'-'.join(self.tfs)}" + "-d" * self.checked + "-u" * self.unwind)

    @property
    def flags(self):
        return " ".join(["-C target-feature=" + ",".join("+" + x for x in self.tfs)] * bool(self.tfs)
                        + ["-C debug-assertions=on"] * self.checked)

    # as lattice.py wants it
    kind = "probe"

    @property
    def features(self):
        return ",".join(self.feats)

    @property
    def profile(self):
        return "checked" if self.checked else "release"

    @property
    def arch(self):
        t = self.target
        return "x86" if t[:4] in ("x86_", "i686") else "riscv" if t.startswith("riscv") else "arm"

    @property
    def expected(self):
        """per width: the documented implementation. README.md, "The implementations and their requirements" """
        tf, nightly, t = set(self.tfs), "nightly" in self.feats, self.target
        soft = "constant-time" if "constant-time" in self.feats else "software"
        # what the compiler adds to these
        if "vaes" in tf:
            tf |= {"avx2", "aes", "sse4.1"}
        if "avx512f" in tf:
            tf |= {"avx2", "sse4.1"}
        if self.arch == "x86":
            if not {"sse4.1", "aes"} <= tf:
                return {w: soft for w in WIDTHS}
            x2 = "ymm" if nightly and "vaes" in tf else "xmm"
            x4 = "zmm" if nightly and {"vaes", "avx512f"} <= tf else "xmm or ymm" if x2 == "ymm" else "xmm"
            return {1: "xmm", 2: x2, 4: x4}
        if self.arch == "riscv":
            hw = nightly and {"zkne", "zknd"} <= tf
        elif t.startswith(("aarch64_be", "armeb")):
            hw = False
        elif t.startswith(("aarch64", "arm64ec")):
            hw = "aes" in tf
        else:
            hw = nightly and {"v8", "aes"} <= tf
        return {w: "hardware" if hw else soft for w in WIDTHS}


def points(stable, tier):
    out = []
    ct = [(), ("constant-time",)]
    both = [(), ("constant-time",), ("nightly",), ("nightly", "constant-time")]
    x86 = [(), ("sse4.1",), ("aes",), ("sse4.1", "aes"), ("vaes",), ("vaes", "avx512f")]
    if tier == "thorough":
        x86 += [("avx2",), ("avx512f",), ("avx512f", "aes"), ("avx2", "aes"), ("sse4.2",), ("sse4.2", "aes"),
                ("ssse3", "aes"), ("vaes", "avx512f", "avx512vl"), ("avx",), ("avx", "aes"), ("pclmulqdq",)]
    for tf in x86:
        out += [Point(stable, "x86_64-unknown-linux-gnu", tf, f) for f in ct]
        out += [Point("nightly", "x86_64-unknown-linux-gnu", tf, f) for f in both]
    for tf in [(), ("aes",)]:
        out += [Point(stable, "aarch64-unknown-linux-gnu", tf, f) for f in ct]
        out += [Point("stable", t, tf, f, False) for f in ct
                for t in ("aarch64_be-unknown-linux-gnu", "arm64ec-pc-windows-msvc")]
    for tf in [(), ("aes",), ("sse4.1", "aes"), ("vaes",), ("vaes", "avx512f")]:
        fs = both if tier == "thorough" else [("nightly",)] if "vaes" in tf else ct
        out += [Point("nightly", "i686-unknown-linux-gnu", tf, f, False) for f in fs]
    for tf in [(), ("v8", "aes", "neon"), ("v8", "neon")]:
        out += [Point("nightly", "armv7a-none-eabihf", tf, f, False) for f in both]
    for t in ("riscv64gc-unknown-none-elf", "riscv32imac-unknown-none-elf"):
        for tf in [(), ("zkne", "zknd"), ("zkne",), ("zknd",)]:
            out += [Point("stable", t, tf, f, False) for f in both]
    return out


def told_apart(ps, preds, env_of, stable):
    """further points whose source text differs from that of all of `ps`"""
    def sig(p):
        env = env_of(p)
        return tuple(sorted((str(q), holds(q, env)) for q in preds))
    from lattice import atoms, holds
    names = set().union(*[{(a[1], a[2]) for a in atoms(q)} for q in preds] or [set()])
    both = [(), ("constant-time",), ("nightly",), ("nightly", "constant-time")]
    out = points(stable, "thorough")
    known = {f for p in out for f in p.tfs} | {"sse2", "sse", "fxsr", "x87", "v8", "neon"}
    for f in sorted(v for k, v in names if k == "target_feature" and v and v not in known):
        for tf in [(f,), ("sse4.1", "aes", f), ("vaes", f), ("vaes", "avx512f", f)]:
            out += [Point("nightly", "x86_64-unknown-linux-gnu", tf, x) for x in both]
        for tf in [(f,), ("aes", f)]:
            out += [Point(stable, "aarch64-unknown-linux-gnu", tf, x) for x in both[:2]]
    if names & {("debug_assertions", None), ("overflow_checks", None)}:
        out += [Point(p.tc, p.target, p.tfs, p.feats, p.std, True) for p in ps if "linux" in p.target and p.std]
    if any(k == "panic" for k, _ in names):
        out += [Point(p.tc, p.target, p.tfs, p.feats, p.std, unwind=True) for p in ps if "linux" in p.target and p.std]
    if any(k in ("target_os", "target_env", "target_vendor", "target_family", "windows", "unix", "target_abi",
                 "target_pointer_width", "target_has_atomic", "panic") for k, _ in names):
        for t in ("x86_64-pc-windows-msvc", "x86_64-unknown-none", "x86_64-unknown-linux-musl", "x86_64-apple-darwin",
                  "x86_64-pc-windows-gnu", "x86_64-unknown-freebsd", "x86_64-linux-android", "x86_64-unknown-uefi",
                  "x86_64-unknown-linux-gnux32", "i686-pc-windows-msvc", "i686-unknown-linux-musl"):
            for tf in [(), ("sse4.1", "aes"), ("vaes", "avx512f")]:
                out += [Point("nightly", t, tf, x, False) for x in both]
        for t in ("aarch64-unknown-none", "aarch64-pc-windows-msvc", "aarch64-apple-darwin", "aarch64-linux-android",
                  "aarch64-unknown-linux-musl", "aarch64-apple-ios", "aarch64-unknown-linux-gnu_ilp32"):
            for tf in [(), ("aes",)]:
                out += [Point("nightly", t, tf, x, False) for x in both]
    seen = {sig(p) for p in ps}
    new = []
    for p in out:
        s = sig(p)
        # (what the compiler does not define anything for it does not know)
        if s not in seen and env_of(p):
            seen.add(s)
            p.optional = True
            new.append(p)
    return new[:60]


SYM = re.compile(r"[A-Za-z_.$][A-Za-z0-9_.$@]*|\"[^\"]+\"")


def parse(path):
    """functions: name -> (instructions, symbols referred to); data: name -> size; aliases"""
    funcs, data, alias = {}, {}, {}
    cur, sizes, text = None, {}, True
    for line in open(path, errors="replace"):
        line = line.split("//")[0].rstrip() if "\t//" in line else line.rstrip()
        m = re.match(r'^("[^"]+"|[A-Za-z_.$#][\w.$@#]*):', line)
        if m:
            n = m.group(1).strip('"')
            # labels within functions do not begin anything
            if n.startswith("$") or n.startswith(".L") and (text or n.startswith((".LBB", ".Ltmp", ".Lfunc_"))):
                continue
            cur = n
            funcs.setdefault(cur, ([], set()))
            continue
        s = line.strip()
        if s.startswith((".section", ".text", ".data", ".bss")):
            text = ".text" in s or '"xr"' in s
            cur = None
            continue
        m = re.match(r'^\.(?:set|equ)\s+("[^"]+"|[^,\s]+)\s*,\s*("[^"]+"|\S+)', s)
        if m:
            alias[m.group(1).strip('"')] = m.group(2).strip('"')
            continue
        m = re.match(r'^\.size\s+("[^"]+"|[^,\s]+)\s*,\s*(\d+)$', s)
        if m:
            data[m.group(1).strip('"')] = int(m.group(2))
            continue
        if not s or s[0] in ".#@/" or cur is None:
            if s.startswith((".long", ".quad", ".word", ".xword", ".asciz", ".ascii", ".byte", ".short", ".zero", ".p2align")) \
                    and cur is not None:
                # sizes where the format has no .size (COFF)
                k = {".long": 4, ".quad": 8, ".word": 4, ".xword": 8, ".byte": 1, ".short": 2, ".hword": 2}.get(s.split()[0])
                if k:
                    sizes[cur] = sizes.get(cur, 0) + k * (s.count(",") + 1)
                elif s.startswith((".asciz", ".ascii")):
                    # escapes count once
                    body = s.split(None, 1)[1].strip('"')
                    sizes[cur] = sizes.get(cur, 0) + len(re.sub(r"\\[0-7]{1,3}|\\.", "x", body))
            continue
        ins, refs = funcs[cur]
        parts = s.split(None, 1)
        ins.append((parts[0].lower(), parts[1] if len(parts) > 1 else ""))
        if len(parts) > 1:
            for t in SYM.findall(parts[1]):
                refs.add(t.strip('"'))
    for n, k in sizes.items():
        if n not in data and not funcs.get(n, ([],))[0]:
            data[n] = k
    return funcs, data, alias


def closure(f, funcs, alias):
    seen, todo = set(), [f]
    while todo:
        n = todo.pop()
        while n in alias:
            n = alias[n]
        if n in seen or "panicking" in n or "4core3fmt" in n:
            continue
        seen.add(n)
        if n in funcs:
            for r in funcs[n][1]:
                for c in (r, r.split("@")[0], "#" + r):
                    if c in funcs or c in alias:
                        todo.append(c)
                        break
                else:
                    seen.add(r)
    return seen


def judge(p, path):
    """(what each width was compiled to, violations)"""
    funcs, data, alias = parse(path)
    want, bad, got = p.expected, [], {}
    rx = AES_INSN[p.arch]
    for op in OPS:
        name = op
        for c in (op, "#" + op, "_" + op):
            if c in funcs or c in alias:
                name = c
                break
        else:
            raise ValueError(f"{p.name}: no code for {op}")
        syms = closure(name, funcs, alias)
        units, tables = set(), set()
        for s in syms:
            for mn, args in funcs.get(s, ((), ()))[0]:
                if rx.match(mn):
                    if p.arch == "x86":
                        kind = mn.lstrip("v")
                        r = {x for x in ("xmm", "ymm", "zmm") if "%" + x in args}
                        # conversions and schedules are made of single blocks everywhere
                        units |= r if kind not in ("aesimc", "aeskeygenassist") else {"xmm"}
                    else:
                        units.add("hardware")
            if data.get(s, 0) >= TABLE and not funcs.get(s, ((), ()))[0]:
                tables.add(s)
        w = int(op[-1])
        e = want[w]
        if e == "software":
            ok = not units and (tables or op in ("probe_mc_1",) or False)
            # MixColumns needs no S-box
            ok = ok or (op in ("probe_mc_1", "probe_imc_1") and not units)
        elif e == "constant-time":
            ok = not units and not tables
        elif e == "xmm or ymm":
            ok = bool(units) and units <= {"xmm", "ymm"} and not tables
        else:
            ok = not tables and units <= {e} and (bool(units) or op in ("probe_mc_1", "probe_imc_1") and e == "hardware")
        is_ = "+".join(sorted(units)) or ("software" if tables else "no tables, no AES instructions")
        if units and tables:
            is_ += "+tables"
        got.setdefault(w, set()).add(is_)
        if not ok:
            bad.append({"kind": "selection", "config": p.name, "op": op, "note": f"expected {e}, compiled to {is_}"})
    return {w: sorted(v) for w, v in got.items()}, bad


def run_group(ps, target_root, probe_dir, base_env):
    """the points of one group share a target directory; one after the other"""
    out = []
    for p in ps:
        tdir = os.path.join(target_root, "probe", p.group)
        env = dict(base_env)
        env.update(RUSTUP_TOOLCHAIN=p.tc, CARGO_TARGET_DIR=tdir,
                   RUSTFLAGS=p.flags)
        if p.unwind:
            env["CARGO_PROFILE_RELEASE_PANIC"] = "unwind"
        if p.tc != "nightly" and (not p.std or p.unwind):
            env["RUSTC_BOOTSTRAP"] = "1"
        else:
            env.pop("RUSTC_BOOTSTRAP", None)
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint"), recursive=True):
            for pat in ("aes_crypto-*", "probe-*"):
                for x in glob.glob(os.path.join(d, pat)):
                    shutil.rmtree(x, ignore_errors=True)
        for x in glob.glob(os.path.join(tdir, "**", "probe-*.s"), recursive=True):
            os.remove(x)
        # newer cargo keeps its fingerprints elsewhere
        for x in glob.glob(os.path.join(tdir, "*", "release", "build", "*")):
            if os.path.basename(x) in ("probe", "aes_crypto"):
                shutil.rmtree(x, ignore_errors=True)
        cmd = ["cargo", "rustc", "--offline", "--release", "--lib", "--target", p.target]
        if p.feats:
            cmd += ["--features", ",".join(p.feats)]
        if not p.std:
            cmd += ["-Zbuild-std=core"]
        cmd += ["--", "--emit=asm"]
        r = subprocess.run(cmd, cwd=probe_dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600)
        log = r.stdout
        asm = glob.glob(os.path.join(tdir, "**", "probe-*.s"), recursive=True)
        if r.returncode != 0 or len(asm) != 1:
            out.append((p, None, log, "could not compile `aes_crypto`" in log))
        else:
            try:
                out.append((p, judge(p, asm[0]), log, False))
            except ValueError as e:
                if not p.optional:
                    raise
                out.append((p, None, f"error: {e}", False))
    return out


def run(ps, target_root, probe_dir, base_env, jobs):
    groups = {}
    for p in ps:
        groups.setdefault(p.group, []).append(p)
    order = sorted(groups.values(), key=lambda g: (g[0].std, -len(g)))
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(itertools.chain(*ex.map(lambda g: run_group(g, target_root, probe_dir, base_env), order)))
