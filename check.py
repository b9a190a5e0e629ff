#!/usr/bin/env python3
"""Decide one property:  check.py <property> [--tier quick|thorough]
Set up the build caches: check.py --setup
Replay a recorded violation: check.py --replay <file>

Builds the explorer (harness/) against /repo's working tree once per configuration (backend x target x profile),
runs the property's exhaustive suites in each, aggregates what they covered, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
X86 = "x86_64-unknown-linux-gnu"
STABLE = "1.99.1"
START = time.time()
NCPU = os.cpu_count() or 8


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()
if os.environ.get("MC_NO_CPU"):  # for testing the emulator fall-backs
    CPU -= set(os.environ["MC_NO_CPU"].split(","))

LLD = "-C linker=rust-lld -C linker-flavor=ld.lld -C relocation-model=static"


class Cfg:
    def __init__(self, name, tc, target=None, flags="", features="", kind="native", need=(), runner="", mandatory=True,
                 profile="release"):
        self.name, self.tc, self.target, self.flags = name, tc, target, flags
        self.features, self.kind, self.need, self.runner = features, kind, need, runner
        self.mandatory, self.profile = mandatory, profile

    def with_(self, **kw):
        c = Cfg(self.name, self.tc, self.target, self.flags, self.features, self.kind, self.need, self.runner,
                self.mandatory, self.profile)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


def configs():
    cs = [
        Cfg("software", STABLE),
        Cfg("constant-time", STABLE, features="constant-time"),
        Cfg("aesni", STABLE, X86, "-C target-feature=+sse4.1,+aes", need=("aes", "sse4_1")),
        Cfg("vaes", "nightly", X86, "-C target-feature=+vaes", "nightly", need=("vaes", "avx2", "aes")),
        Cfg("avx512", "nightly", X86, "-C target-feature=+vaes,+avx512f", "nightly",
            need=("vaes", "avx512f", "avx2", "aes")),
        Cfg("neon", STABLE, "aarch64-unknown-linux-gnu", "-C target-feature=+aes", kind="qemu",
            runner="qemu-aarch64 -L /usr/aarch64-linux-gnu"),
        # no std for these: freestanding binaries, core built from source
        Cfg("riscv64", "stable", "riscv64gc-unknown-none-elf", "-C target-feature=+zkne,+zknd", "nightly", "bare",
            runner="qemu-riscv64 -cpu rv64,zkne=true,zknd=true", mandatory=False),
        Cfg("riscv32", "stable", "riscv32imac-unknown-none-elf", "-C target-feature=+zkne,+zknd", "nightly", "bare",
            runner="qemu-riscv32 -cpu rv32,zkne=true,zknd=true", mandatory=False),
        Cfg("armv8-32", "nightly", "armv7a-none-eabihf", "-C target-feature=+v8,+aes,+neon", "nightly", "bare",
            runner="qemu-arm -cpu max", mandatory=False),
        Cfg("i686-aesni", "stable", "i686-unknown-linux-gnu", LLD + " -C target-feature=+sse4.1,+aes", "", "bare",
            runner="qemu-i386 -cpu max", mandatory=False),
        Cfg("s390x-software", "stable", "s390x-unknown-none-softfloat", "", "", "bare", runner="qemu-s390x",
            mandatory=False),
        Cfg("ppc-constant-time", "stable", "powerpc-unknown-linux-gnu", LLD, "constant-time", "bare",
            runner="qemu-ppc", mandatory=False),
        Cfg("aarch64be-constant-time", "stable", "aarch64_be-unknown-none-softfloat", "", "constant-time", "bare",
            runner="qemu-aarch64_be -cpu max", mandatory=False),
    ]
    b = dict(kind="bare", mandatory=False)
    v8 = "qemu-aarch64_be -cpu max"
    more = [
        # the same sources again under other features and on other word sizes and byte orders
        Cfg("software-nightly", "nightly", features="nightly"),
        Cfg("constant-time-nightly", "nightly", features="nightly,constant-time"),
        Cfg("i686-software", "stable", "i686-unknown-linux-gnu", LLD, runner="qemu-i386", **b),
        Cfg("i686-constant-time", "stable", "i686-unknown-linux-gnu", LLD, "constant-time", runner="qemu-i386", **b),
        Cfg("ppc-software", "stable", "powerpc-unknown-linux-gnu", LLD, runner="qemu-ppc", **b),
        Cfg("s390x-constant-time", "stable", "s390x-unknown-none-softfloat", features="constant-time",
            runner="qemu-s390x", **b),
        Cfg("aarch64be-software", "stable", "aarch64_be-unknown-none-softfloat", runner=v8, **b),
        Cfg("riscv32-software", "stable", "riscv32imac-unknown-none-elf", runner="qemu-riscv32", **b),
        Cfg("riscv32-constant-time", "stable", "riscv32imac-unknown-none-elf", features="constant-time",
            runner="qemu-riscv32", **b),
        Cfg("riscv64-software", "stable", "riscv64gc-unknown-none-elf", runner="qemu-riscv64", **b),
        Cfg("riscv64-constant-time", "stable", "riscv64gc-unknown-none-elf", features="constant-time",
            runner="qemu-riscv64", **b),
        Cfg("armv7-software", "stable", "armv7a-none-eabihf", runner="qemu-arm -cpu max", **b),
        Cfg("armv7-constant-time", "stable", "armv7a-none-eabihf", features="constant-time",
            runner="qemu-arm -cpu max", **b),
    ]
    for i, c in enumerate(cs):
        if c.kind == "native" and not all(f in CPU for f in c.need):
            if "avx512f" in c.need or "avx2" in c.need and shutil.which("qemu-x86_64") is None:
                # no emulator for AVX512: interpret the compiler's intermediate representation instead
                cs[i] = c.with_(kind="miri")
            else:
                cs[i] = c.with_(kind="qemu", runner="qemu-x86_64 -cpu max")
    return {c.name: c for c in cs + more}


CONFIGS = configs()
CORE6 = ["software", "constant-time", "aesni", "vaes", "avx512", "neon"]
OTHER = [n for n, c in CONFIGS.items() if c.kind == "bare" and ("software" in n or "constant-time" in n)] + [
    "software-nightly", "constant-time-nightly"]
EXOTIC = ["riscv64", "riscv32", "armv8-32", "i686-aesni", "s390x-software", "ppc-constant-time",
          "aarch64be-constant-time"]


def pool(unknown):
    """configurations that can be run here beyond the listed ones; `unknown`: target features the sources mention that
    no listed configuration knows of"""
    out = []
    x86 = [("sse4.1", "+sse4.1", "sse4_1"), ("aes-avx", "+sse4.1,+aes,+avx", "aes avx"),
           ("aes-avx2", "+sse4.1,+aes,+avx2", "aes avx2"), ("vaes-stable", "+vaes", "vaes avx2 aes"),
           ("aes-avx512f", "+aes,+avx512f", "aes avx512f"), ("vaes-avx512", "+vaes,+avx512f,+avx512vl,+avx512bw",
                                                            "vaes avx512f avx512vl avx512bw"),
           ("aes-only", "+aes", "aes"), ("aes-sse4.1", "+aes,+sse4.1", "aes sse4_1"), ("base", "", "")]
    x86 += [(f"{n}-{u}", ",".join(x for x in (f, "+" + u) if x), f"{need} {u.replace('.', '_').replace('sse4a', 'no')}")
            for n, f, need in x86 for u in unknown]
    for fs in ("", "constant-time", "nightly", "nightly,constant-time"):
        tc = "nightly" if "nightly" in fs else STABLE
        short = {"": "", "constant-time": "-ct", "nightly": "-nightly"}.get(fs, "-nightly-ct")
        for n, f, need in x86:
            out.append(Cfg(f"x86-{n}{short}", tc, X86 if f else None, "-C target-feature=" + f if f else "", fs,
                           need=need.split(), mandatory=False))
        for n, f in (("native", "-C target-cpu=native"), ("native-without-aes", "-C target-cpu=native -C target-feature=-aes")):
            out.append(Cfg(f"x86-{n}{short}", tc, X86, f, fs, mandatory=False))
        for n in ("neon", "riscv64", "riscv32", "armv8-32", "i686-aesni"):
            c = CONFIGS[n]
            if fs != c.features:
                tc = c.tc if n.startswith("risc") else "nightly" if "nightly" in fs else c.tc
                out.append(c.with_(name=n + (short or "-plain"), features=fs, tc=tc, mandatory=False))
    out = [c for c in out if c.kind != "native" or all(f in CPU for f in c.need)]
    out += [CONFIGS[n] for n in OTHER]
    out += [variant(CONFIGS[n], "checked") for n in CORE6 if CONFIGS[n].kind != "miri"]
    return out


def classes(listed):
    """configurations whose source text differs from that of every listed one"""
    import lattice
    preds = set()
    for s in sources().values():
        preds |= lattice.predicates(s)
    known = set()
    for c in CONFIGS.values():
        known |= {v for k, v in lattice.env_of(c, base_env) if k == "target_feature"}
    mentioned = {a[2] for p in preds for a in lattice.atoms(p) if a[1] == "target_feature" and a[2]}
    seen = {}

    def sig(c):
        env = lattice.env_of(c, base_env)
        return tuple(sorted((str(p), lattice.holds(p, env)) for p in preds))
    for c in listed:
        seen.setdefault(sig(c), key(c))
    new = []
    for c in pool(sorted(mentioned - known)):
        s = sig(c)
        if s not in seen:
            seen[s] = key(c)
            new.append(c)
    return new


# on the reviewed tree these classes differ from listed configurations only in which of the listed backends is chosen;
# they are emulated, and left to the thorough tier
FAMILIAR = {"riscv64-plain", "armv8-32-plain", "riscv64-ct", "armv8-32-ct", "i686-aesni-ct", "riscv64-nightly-ct",
            "riscv32-nightly-ct", "armv8-32-nightly-ct", "i686-software", "i686-constant-time", "riscv32-plain"}


def extras(tier, listed, only_new=False):
    """configurations to be explored besides the listed ones"""
    try:
        cs = classes(listed)
    except (OSError, subprocess.SubprocessError, RecursionError):
        return []
    skip = set() if tier == "thorough" else set(FAMILIAR)
    if only_new:
        skip |= FAMILIAR | {"x86-aes-avx-ct", "neon-ct", "x86-vaes-stable-nightly-ct", "x86-vaes-avx512-nightly-ct"}
    cs = [c for c in cs if key(c) not in skip]
    cs.sort(key=lambda c: ("native", "qemu", "bare").index(c.kind))
    return cs[:24 if tier == "thorough" else 10]


class Broken(Exception):
    """The check could not be carried out."""


class Skip(Exception):
    """An optional configuration cannot be built here."""

    def __init__(self, why, in_crate=False):
        super().__init__(why)
        self.in_crate = in_crate


def repo_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src"), os.path.join(VERIF, "ctrt", "src"), os.path.join(VERIF, "probe", "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md"), os.path.join(HARNESS, "Cargo.toml")):
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


REPO_HASH = None
NUMBER = (r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*?)(?:_?[ui](?:8|16|32|64|128|size))?"
          r"(?![\w]|\.[0-9])")


def sources():
    """the crate's sources without comments and tests"""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".rs") and f != "tests.rs":
                s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
                out[os.path.join(d, f)] = re.sub(r"//[^\n]*", "", s)
    return out


def value(t):
    t = t.replace("_", "")
    return int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t or "0")


def constants():
    """Constants spelled out in the sources join the alphabets of the explorer: values that code treats specially tend to
    be among them. Large tables are left out. Returns (byte strings, bytes compared with, numbers that may be lengths)."""
    seqs, small, lens = [], [], []
    for s in sources().values():
        lists = [m.group(1) for m in re.finditer(r"\[([^\[\]]*)\]", s)]
        for l in lists:
            if len(re.findall(NUMBER, l)) > 40:
                s = s.replace(l, "")
                continue
            items = [re.fullmatch(NUMBER, x.strip()) for x in l.strip().rstrip(",").split(",")]
            if len(items) > 1 and all(items):
                vs = [value(x.group(1)) for x in items]
                if max(vs) < 256 and len(vs) <= 64 and max(vs) >= len(vs):
                    seqs.append(bytes(vs))
        for m in re.finditer(r'\bb"((?:[^"\\]|\\.)*)"', s):
            try:
                b = m.group(1).encode().decode("unicode_escape").encode("latin-1")
            except (UnicodeError, ValueError):
                continue
            if 2 <= len(b) <= 64:
                seqs.append(b)
        compared = {value(m.group(1)) for m in re.finditer(r"(?:[=!]=|<=?|>=?)\s*\(?\s*(?:" + NUMBER + ")", s)}
        compared |= {value(m.group(1)) for m in re.finditer("(?:" + NUMBER + r")\s*(?:=>|\.\.|[=!]=)", s)}
        compared |= {value(m.group(1)) for m in re.finditer(r"\bconst\s+\w+\s*:\s*u\d+\s*=\s*(?:" + NUMBER + ")", s)}
        for m in re.finditer(NUMBER, s):
            v = value(m.group(1))
            if v >= 1 << 128:
                continue
            if 66 < v <= 1 << 26 and (v > 255 or v in compared or m.group(1).isdigit()):
                lens.append(v)
            if v in compared and v < 256:
                small.append(v)
            if v > 255 or v in compared and bin(v).count("1") > 1:
                seqs.append(v.to_bytes(next(w for w in (4, 8, 16) if v < 1 << 8 * w), "big"))
                if 255 < v < 1 << 16:
                    seqs.append(v.to_bytes(2, "big"))
    seqs = sorted(set(seqs), key=lambda b: (len(b), b))[:96]
    # those that every suite tries at pairs of places anyway are left out, and what looks like an index
    small = sorted(x for x in set(small) if x > 32 and x not in (0x40, 0x80, 0xff))
    lens = sorted(set(lens))
    return (",".join(b.hex() for b in seqs), ",".join(map(str, small[:32])), ",".join(map(str, lens[:48])))


CONSTANTS = None


def base_env(cfg):
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN=cfg.tc,
               RUSTFLAGS=cfg.flags, CARGO_INCREMENTAL="0",
               CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER="aarch64-linux-gnu-gcc")
    # the kernel writes to a thread's rseq area, which C13 makes read-only
    env["GLIBC_TUNABLES"] = "glibc.pthread.rseq=0"
    if cfg.kind == "bare":
        env["RUSTC_BOOTSTRAP"] = "1"
    global CONSTANTS
    CONSTANTS = CONSTANTS or constants()
    env["MC_DICT"], env["MC_BYTES"], env["MC_LENS"] = CONSTANTS
    return env


def features(cfg):
    fs = [f for f in cfg.features.split(",") if f]
    if cfg.kind != "bare":
        fs.append("hosted")
    if cfg.profile == "ct":
        fs.append("ct")
    return ["--features", ",".join(fs)] if fs else []


def target_dir(cfg):
    return os.path.join(TARGET, cfg.name + ("" if cfg.profile == "release" else "." + cfg.profile))


def freshen(tdir):
    """cargo decides by time stamps; make it decide by content: forget the crates whose sources changed"""
    stamp = os.path.join(tdir, ".repo-hash")
    try:
        if open(stamp).read() == REPO_HASH:
            return
    except OSError:
        pass
    for d in glob.glob(os.path.join(tdir, "**", ".fingerprint"), recursive=True):
        for pat in ("aes_crypto-*", "mc-*", "probe-*", "ctrt-*"):
            for x in glob.glob(os.path.join(d, pat)):
                shutil.rmtree(x, ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(REPO_HASH)


def build(cfg):
    """returns the command prefix that runs the explorer in this configuration"""
    tdir = target_dir(cfg)
    env = base_env(cfg)
    env["CARGO_TARGET_DIR"] = tdir
    freshen(tdir)
    if cfg.kind == "miri":
        cmd = ["cargo", "miri", "run", "--offline", "-q"] + features(cfg)
        if cfg.target:
            cmd += ["--target", cfg.target]
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        # build it now, so that a failure to compile is not taken for a failure to run
        r = subprocess.run(cmd + ["--", "run", "nothing", "0", "1"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if "DONE" not in r.stdout:
            raise Broken(f"miri build of {cfg.name} failed:\n" + r.stdout[-3000:])
        return cmd + ["--"], env
    profile = cfg.profile
    cmd = ["cargo", "build", "--offline"]
    if profile == "ct":
        profile = "release"
        env["RUSTC_BOOTSTRAP"] = "1"
        cmd += ["-Zprofile-rustflags"]
        fl = json.dumps(["-Cpasses=sancov-module"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in (
            "level=3", "trace-pc-guard", "trace-loads", "trace-stores", "prune-blocks=0")])
        for p in ("aes_crypto", "mc"):
            for pr in ("release", "bare"):
                cmd += ["--config", f"profile.{pr}.package.{p}.rustflags={fl}"]
    if cfg.kind == "bare":
        profile = {"release": "bare", "checked": "barechecked"}[profile]
    cmd += ["--profile", profile] + features(cfg)
    if cfg.target:
        cmd += ["--target", cfg.target]
    if cfg.kind == "bare":
        cmd += ["-Zbuild-std=core", "-Zbuild-std-features=compiler-builtins-mem"]
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=700)
    if r.returncode != 0:
        in_crate = "could not compile `aes_crypto`" in r.stdout
        msg = f"build of configuration {cfg.name} failed:\n" + r.stdout[-3000:]
        if cfg.mandatory:
            raise Broken(msg)
        raise Skip(msg, in_crate)
    d = os.path.join(tdir, cfg.target or "", profile)
    exe = os.path.join(d, "mc")
    return cfg.runner.split() + [exe], env


def mem_limit():
    import resource
    # keep a runaway explorer from taking the sandbox down
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def parse_kv(line):
    out = {}
    for tok in line.split():
        k, sep, v = tok.partition("=")
        if sep:
            out[k] = v
    return out


class Result:
    def __init__(self, cfg, suite, level):
        self.cfg, self.suite, self.level = cfg, suite, level
        self.viol, self.samples, self.notes = [], [], []
        self.evals = self.distinct = self.states = self.transitions = 0
        self.digest = 0
        self.extra = {}
        self.wall = 0.0
        self.skipped = None


HUNG = []


def run(cfg, cmd, env, args, timeout, level=None):
    """one explorer process"""
    suite = args[1]
    res = Result(cfg, suite, level)
    t = time.time()
    p = subprocess.Popen(cmd + [str(a) for a in args], env=env, cwd=HARNESS, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=mem_limit, start_new_session=True)
    while True:
        try:
            stdout, stderr = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            # after a hang has been reported the others are given a little more time to report theirs
            if time.time() - t > timeout or HUNG and time.time() - HUNG[0] > 20:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise Broken(f"{cfg.name}: {' '.join(map(str, args))} did not end within {int(time.time() - t)} s")
    res.wall = time.time() - t
    out = stdout.decode("utf-8", "replace")
    done = False
    for line in out.splitlines():
        tag, _, rest = line.partition(" ")
        if tag == "VIOL":
            v = parse_kv(rest)
            m = re.search(r" note=(.*)$", line)
            if m:
                v["note"] = m.group(1)
            v["config"] = key(cfg)
            v["suite"] = suite
            v["level"] = level
            res.viol.append(v)
            if v.get("kind") == "hang" or " (hang" in v.get("note", ""):
                HUNG.append(time.time())
        elif tag == "STAT":
            v = parse_kv(rest)
            res.evals += int(v.get("evals", 0))
            res.distinct += int(v.get("distinct", 0))
            res.states += int(v.get("states", 0))
            res.transitions += int(v.get("transitions", 0))
            res.digest = (res.digest + int(v.get("digest", "0"), 16)) & (2 ** 64 - 1)
            for k in v:
                if k not in ("shard", "evals", "distinct", "states", "transitions", "fails", "digest"):
                    res.extra[k] = res.extra.get(k, 0) + int(v[k])
        elif tag == "SAMPLE":
            if len(res.samples) < 3:
                res.samples.append(f"{cfg.name}: {rest[:400]}")
        elif tag == "NOTE":
            res.notes.append(rest)
        elif tag == "DONE":
            done = True
        elif tag == "CRASH":
            raise Broken(f"{cfg.name}: {' '.join(map(str, args))}: {line[:400]}")
    if cfg.kind == "miri" and not done and not res.viol:
        err = stderr.decode("utf-8", "replace")
        m = re.search(r"error: Undefined Behavior: (.*)", err)
        if m and "/repo/src" in err:
            where = re.search(r"/repo/src/[a-z0-9_]+\.rs:\d+", err)
            res.viol.append({"kind": "undefined-behaviour", "config": key(cfg), "suite": suite, "level": level,
                             "note": m.group(1)[:300] + " at " + (where.group(0) if where else "?")})
            return res
        if "unsupported operation" in err:
            m = re.search(r"unsupported operation: (.*)", err)
            res.skipped = "the interpreter cannot run this: " + (m.group(1)[:300] if m else "?")
            return res
    if not done and not res.viol:
        raise Broken(f"{cfg.name}: {' '.join(map(str, args))} ended without finishing (status {p.returncode})\n"
                     + out[-500:] + stderr.decode("utf-8", "replace")[-1500:])
    return res


# ------------------------------------------------------------------------------------------------ properties

class Plan:
    """suites: (suite name, cap) run in every configuration; cap limits the level"""

    def __init__(self, suites, configs=None, level="exploration", rule="", custom=None, exhaustive=False):
        self.suites, self.configs, self.level, self.rule, self.custom = suites, configs, level, rule, custom
        self.exhaustive = exhaustive


PROPS = {}


# suites that are cheap enough for a deeper level than their tier's in general
DEEPER = {"native": {"prim", "rel.convert", "bounds"},
          "emulated": {"rel.wide", "prim", "rel.chain", "rel.widerounds", "conv", "fmt", "bounds"}}


def level_for(cfg, tier, suite=""):
    if cfg.kind == "miri":
        return 0
    if tier == "quick" and suite in DEEPER["native" if cfg.kind == "native" else "emulated"]:
        return 3 if cfg.kind == "native" else 2
    if cfg.kind in ("qemu", "bare"):
        return 2 if tier == "thorough" else 1
    return 3 if tier == "thorough" else 2


def shards_for(cfg):
    return {"native": NCPU, "qemu": 4, "bare": 1, "miri": 1}[cfg.kind]


def variant(cfg, profile):
    """the same configuration built another way: "checked", "miri", "O0".."Oz", "ct" """
    if profile == "miri":
        return cfg.with_(kind="miri", profile="miri", target=cfg.target or X86, runner="")
    return cfg.with_(profile=profile)


def key(cfg):
    return cfg.name + ("" if cfg.profile == "release" else "/" + cfg.profile)


def explore(plan, tier, results, skipped):
    """plan: (configuration, suites, level or None). Build every configuration (in parallel), then run the suites."""
    cfgs = {key(c): c for c, _, _ in plan}
    # start the expensive builds first
    order = sorted(cfgs, key=lambda n: (cfgs[n].kind != "bare", n))
    built = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(build, cfgs[n]): n for n in order}
        for f in cf.as_completed(futs):
            n = futs[f]
            try:
                built[n] = f.result()
            except Skip as e:
                skipped[n] = str(e)
                print(f"note: {n} skipped: {str(e)[:300]}", file=sys.stderr)
    jobs = []
    for cfg, suites, lv in plan:
        if key(cfg) not in built:
            continue
        for s in suites:
            n = level_for(cfg, tier, s) if lv is None else lv
            if cfg.kind == "miri":
                k = MIRI_SPLIT.get(s.split(".")[-1], 1)
                jobs += [(cfg, s, n, k, i) for i in range(k)]
            elif ":" in s or s in PROCESS:
                # trace recorders and forking suites are single threaded
                k = {"native": NCPU, "qemu": 2, "bare": 2}[cfg.kind]
                jobs += [(cfg, s, n, k, i) for i in range(k)]
            elif cfg.kind == "bare" and n >= 2 and not s.startswith("digest."):
                # single threaded, and the longest to run
                k = 4 if "ppc" in cfg.name else 2
                jobs += [(cfg, s, n, k, i) for i in range(k)]
            else:
                jobs.append((cfg, s, n, shards_for(cfg), None))
    # emulated ones side by side (single threaded), native ones after each other (they use all cores)
    slow = [j for j in jobs if j[0].kind != "native" or j[4] is not None]
    fast = [j for j in jobs if j[0].kind == "native" and j[4] is None]
    slow.sort(key=lambda j: j[0].kind != "miri")
    end = START + 840 if tier == "quick" else time.time() + 6 * 3600

    def one(j):
        cfg, s, lv, n, only = j
        tmo = max(1, int(end - time.time()))
        cmd, env = built[key(cfg)]
        return run(cfg, cmd, env, ["run", s, lv, n] + ([] if only is None else [only]), tmo, lv)

    with cf.ThreadPoolExecutor(NCPU) as ex, cf.ThreadPoolExecutor(2) as ex2:
        futs = [ex.submit(one, j) for j in slow] + [ex2.submit(one, j) for j in fast]
        broken = None
        for f in futs:
            try:
                r = f.result()
            except Broken as e:
                broken = broken or e
                continue
            if r.skipped:
                skipped[key(r.cfg)] = r.skipped
            else:
                results.append(r)
        # a violation found elsewhere stands on its own
        if broken:
            if not any(r.viol for r in results):
                raise broken
            print(f"note: {broken}", file=sys.stderr)


# the interpreter is single threaded: deal its longer suites to several processes
MIRI_SPLIT = {"enc": 4, "dec": 8, "convert": 2, "wide": 1, "prim": 1, "chain": 2, "widerounds": 2, "bits": 5, "conv": 2,
              "fmt": 3, "bounds": 3}
# the interpreter knows the x86 AES instructions, not the ARM and RISC-V ones
MIRI = ["software", "constant-time", "aesni", "vaes", "avx512"]


PROCESS = {"histories", "walk", "first", "monitor", "preempt", "watch"}


def functional(suites, level="exploration", rule="", configs=None, miri=(), miri_thorough=None):
    def go(tier):
        results, skipped = [], {}
        listed = [CONFIGS[n] for n in configs or CORE6 + EXOTIC]
        plan = [(c, suites, None) for c in listed]
        more = extras(tier, listed)
        plan += [(c, suites, 2 if c.kind == "native" else 1) for c in more]
        # wherever the operands lie
        ps = ["placed:" + s for s in suites if s.split(".")[-1] not in ("columns", "empty", "bounds", "fmt")]
        if ps:
            plan += [(c, ps, 1 if tier == "thorough" and c.kind == "native" else 0) for c in listed + more if c.kind != "miri"]
        ms = list(miri if tier == "quick" or miri_thorough is None else miri_thorough)
        if ms:
            plan += [(variant(CONFIGS[n], "miri"), ms, 0) for n in MIRI if CONFIGS[n].kind != "miri"]
        explore(plan, tier, results, skipped)
        return results, skipped, {}
    return dict(go=go, level=level, rule=rule)


RULES = ("Cases are enumerated, never drawn at random: all byte values at every position of every operand, full or "
         "boundary-value products of two positions, all two-valued blocks, all word/lane assignments over small "
         "alphabets, and inputs computed by inverting the model so that each listed round state or key-schedule "
         "window is reached. A case counts once per configuration (hash bitmap, a lower bound) and is non-trivial: "
         "its result is compared byte for byte with the model's. ")

PROPS["C01"] = functional(["enc"], "model_checking", RULES)
PROPS["C02"] = functional(["dec"], "model_checking", RULES)
PROPS["C03"] = functional(["rel.convert"], "exploration", RULES)
PROPS["C04"] = functional(["rel.wide"], "exploration", RULES)
PROPS["C05"] = functional(["prim", "columns"], "exploration", RULES)
PROPS["C06"] = functional(["rel.chain", "empty"], "exploration", RULES)
PROPS["C07"] = functional(["rel.widerounds"], "exploration", RULES)
PROPS["C08"] = functional(["bits"], "exploration", RULES)
PROPS["C09"] = functional(["conv"], "exploration", RULES)
PROPS["C10"] = functional(["bounds"], "exploration", RULES, miri=["bounds"])
PROPS["C14"] = functional(["fmt"], "exploration", RULES)




def first_mismatch(cfg, suite, level):
    """a concrete case in which this configuration differs from the model, as a hint where to look"""
    try:
        cmd, env = build(cfg)
        r = run(cfg, cmd, env, ["run", suite.replace("digest.", ""), level, shards_for(cfg)], 300, level)
        for v in r.viol:
            return {k: v[k] for k in ("op", "w", "p", "route", "data", "expected", "got") if k in v}
    except (Broken, Skip):
        pass
    return {}


def merged(results):
    """one result per suite where it was dealt to several processes"""
    out, by = [], {}
    for r in results:
        k = (key(r.cfg), r.suite, r.level)
        if r.cfg.kind == "miri" and k in by:
            m = by[k]
            m.digest = (m.digest + r.digest) & (2 ** 64 - 1)
            m.viol = m.viol + r.viol
        else:
            if r.cfg.kind == "miri":
                m = Result(r.cfg, r.suite, r.level)
                m.digest, m.viol = r.digest, list(r.viol)
                by[k] = m
                out.append(m)
            else:
                out.append(r)
    return out


def same_digests(results, what, within_backend=False):
    """every exploration of the same space must have seen exactly the same results"""
    seen = {}

    def group(r):
        return (r.cfg.name if within_backend else "", r.suite, r.level)
    for r in results:
        if r.suite.startswith("digest.") and not r.viol:
            seen.setdefault(group(r), {}).setdefault(r.digest, set()).add(key(r.cfg))
    for g, ds in seen.items():
        order = sorted(ds.items(), key=lambda x: (-len(x[1]), min(x[1])))
        for d, names in order[1:]:
            done = set()
            for r in results:
                if group(r) != g or r.digest != d or r.viol or key(r.cfg) in done:
                    continue
                done.add(key(r.cfg))
                v = {"kind": "disagreement", "config": key(r.cfg), "suite": r.suite, "level": r.level}
                if r.cfg.kind != "miri":
                    v |= first_mismatch(r.cfg, r.suite, r.level)
                v["note"] = f"{what}: the results differ from those of {', '.join(sorted(order[0][1]))[:200]}"
                r.viol.append(v)
    return {"agreeing": [{"space": "/".join(map(str, g)), "digest": f"{d:016x}", "configurations": sorted(names)}
                         for g, ds in seen.items() for d, names in ds.items()]}


def c11(tier):
    results, skipped = [], {}
    names = CORE6 + EXOTIC + (OTHER if tier == "thorough" else [])
    listed = [CONFIGS[n] for n in dict.fromkeys(names)]
    listed += extras(tier, listed)
    plan = [(c, ["digest.all"], 1) for c in listed if c.kind != "miri"]
    explore(plan, tier, results, skipped)
    if results and all(r.viol for r in results):
        for r in results:  # they all fail: they agree
            r.viol = []
    return results, skipped, same_digests(results, "backends")


PROPS["C11"] = dict(go=c11, level="exploration", rule=RULES + "The digests of all results over the identical space must "
                    "also be equal across configurations.")



C12_QUICK = ["constant-time", "aesni", "vaes", "avx512", "neon", "riscv64", "riscv32", "armv8-32", "ppc-constant-time",
             "aarch64be-constant-time"]


def promises(cfg):
    """does this configuration promise constant time? (as far as the compiler's own account of it tells)"""
    import lattice
    env = lattice.env_of(cfg, base_env)
    f = {v for k, v in env if k == "target_feature"}
    arch = {v for k, v in env if k == "target_arch"}
    if ("feature", "constant-time") in env:
        return True
    nightly = ("feature", "nightly") in env
    return bool(arch & {"x86", "x86_64"} and {"aes", "sse4.1"} <= f or "aarch64" in arch and "aes" in f
                or nightly and ({"zkne", "zknd"} <= f or "arm" in arch and {"v8", "aes"} <= f)) and cfg.profile == "release"


def c12(tier):
    results, skipped = [], {}
    names = list(C12_QUICK)
    if tier == "thorough":
        names += ["i686-aesni", "s390x-constant-time", "i686-constant-time", "riscv32-constant-time",
                  "riscv64-constant-time", "armv7-constant-time"]
    plan = []
    listed = [CONFIGS[n] for n in names]
    # (without hardware support and unless asked for, table lookups are fine)
    listed += [c for c in extras(tier, listed + [CONFIGS["software"]]) if promises(c)]
    for cfg in listed:
        n = cfg.name
        if cfg.kind == "miri":
            skipped[n] = "this processor cannot run it and there is no emulator"
            continue
        ct = variant(cfg, "ct")
        if cfg.kind == "native":
            if tier == "thorough":
                plan.append((ct, ["trace:" + s for s in ("enc", "dec", "convert", "wide", "prim", "chain", "widerounds",
                                                         "bits", "conv")], 2))
            else:
                plan.append((ct, ["trace:all"], 1))
            plan.append((cfg, ["step:machine"], 3 if tier == "thorough" else 1 if n == "constant-time" else 2))
        else:
            plan.append((ct, ["trace:all"], 1 if tier == "thorough" or cfg.kind == "qemu" else 0))
            plan.append((ct, ["trace:machine"], 2))
    explore(plan, tier, results, skipped)
    return results, skipped, {"recorders": {
        "trace": "edges, load and store addresses (up to 16 bytes) of the instrumented build",
        "step": "program counter and memory operand of every machine instruction of the uninstrumented release build"}}


PROPS["C12"] = dict(go=c12, level="exploration", rule=RULES + "Instead of its result, the trace of each execution is "
                    "compared with that of the same operation on fixed operands; they must be identical.")


CHECKED_BARE = ["i686-aesni", "s390x-software", "ppc-constant-time"]


def c15(tier):
    results, skipped = [], {}
    suites = ["digest.all", "digest.empty", "digest.bounds"]
    checked = CORE6 + CHECKED_BARE
    if tier == "thorough":
        checked += EXOTIC + OTHER
    plan = []
    for n in dict.fromkeys(checked):
        if CONFIGS[n].kind != "miri":
            plan.append((variant(CONFIGS[n], "checked"), suites, 1))
            if CONFIGS[n].kind == "native":
                plan.append((variant(CONFIGS[n], "checked"), ["digest.longchain"], 2))
                plan.append((CONFIGS[n], ["digest.longchain"], 2))
    for n in CORE6:
        if CONFIGS[n].kind == "miri":
            continue
        plan.append((CONFIGS[n], suites, 1))
        for o in ("o0", "o1", "o2", "os", "oz", "lto") if tier == "thorough" else ("o0", "oz"):
            if o == "o0" and tier == "quick" and CONFIGS[n].kind != "native":
                continue
            plan.append((variant(CONFIGS[n], o), ["digest.all"], 1))
    for cfg in extras(tier, [CONFIGS[n] for n in CORE6 + EXOTIC] + [p[0] for p in plan], True):
        plan.append((cfg, suites, 1))
        plan.append((variant(cfg, "checked"), suites, 1))
        if cfg.kind == "native":
            plan.append((variant(cfg, "o0"), ["digest.all"], 1))
            plan.append((variant(cfg, "oz"), ["digest.all"], 1))
    # these three contain every source file the interpreter can run
    for n in MIRI if tier == "thorough" else ["software", "constant-time", "avx512"]:
        ms = ["convert", "wide", "prim", "conv"]
        if tier == "thorough":
            ms += ["enc", "dec", "chain", "widerounds", "bits", "fmt", "bounds", "empty"]
        plan.append((variant(CONFIGS[n], "miri"), ["digest." + s for s in ms], 0))
        if CONFIGS[n].kind != "miri":
            plan.append((CONFIGS[n], ["digest." + s for s in ms if s != "bounds"], 0))
    explore(plan, tier, results, skipped)
    # the interpreter's share of a suite comes from several processes
    ms = merged(results)
    extra = same_digests(ms, "build profiles", True)
    for m in ms:
        if m not in results and any(v["kind"] == "disagreement" for v in m.viol):
            results.append(m)
    return results, skipped, extra


PROPS["C15"] = dict(go=c15, level="exploration", rule=RULES + "The same space is explored under each build profile, with "
                    "overflow checks and debug assertions on and off, and (smaller) in the Miri interpreter, which "
                    "reports undefined behaviour; results must be equal in all.")


def share_violations():
    """the compile-time half of C13: every public type can be sent to and shared between threads"""
    out = []

    def one(n):
        cfg = CONFIGS[n]
        if cfg.kind == "bare":
            return None
        env = base_env(cfg)
        tdir = os.path.join(TARGET, "share", n)
        env["CARGO_TARGET_DIR"] = tdir
        freshen(tdir)
        fs = ",".join(x for x in [cfg.features, "share"] if x)
        r = subprocess.run(["cargo", "check", "--offline", "--release", "--lib", "--features", fs,
                            "--target", cfg.target or X86], cwd=os.path.join(VERIF, "probe"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            m = re.search(r"error\[E0277\]: (.*cannot be (?:sent|shared).*)", r.stdout)
            if not m:
                raise Broken(f"share probe in {n}: " + r.stdout[-1500:])
            return {"kind": "not-shareable", "config": n, "note": m.group(1)[:200]}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for v in ex.map(one, CORE6):
            if v:
                out.append(v)
    return out


def c13(tier):
    results, skipped = [], {}
    plan = []
    for n in CORE6:
        cfg = CONFIGS[n]
        if cfg.kind == "native":
            t = tier == "thorough"
            plan.append((cfg, ["monitor"], 1))
            plan.append((cfg, ["watch"], 1 if t else 0))
            plan.append((cfg, ["histories"], 2 if t else 1))
            plan.append((cfg, ["walk"], 3 if t else 2))
            plan.append((cfg, ["first"], 3 if t else 1))
            plan.append((cfg, ["preempt"], 3 if t else 1))
        elif cfg.kind == "qemu":
            plan.append((cfg, ["monitor", "first"], 1))
            plan.append((cfg, ["walk"], 1 if tier == "thorough" else 0))
    listed = [CONFIGS[n] for n in CORE6 + EXOTIC + (OTHER if tier == "thorough" else [])]
    for cfg in listed:
        if cfg.kind != "miri":
            plan.append((cfg, ["ambient:all"], 1))
            plan.append((cfg, ["moved:most"], 0))
    for cfg in extras(tier, listed, True):
        plan.append((cfg, ["ambient:all"], 1))
        plan.append((cfg, ["moved:most"], 0))
        if cfg.kind == "native":
            plan.append((cfg, ["monitor", "histories", "walk", "preempt"], 1))
            plan.append((cfg, ["watch"], 0))
    explore(plan, tier, results, skipped)
    r = Result(CONFIGS["software"], "share", 0)
    r.viol = share_violations()
    r.evals = len(CORE6)
    results.append(r)
    return results, skipped, {}


PROPS["C13"] = dict(go=c13, level="model_checking", rule=(
    "An evaluation is one execution of a history or schedule: a sequence of operations, or two operations with one or two "
    "preemptions at given machine instructions, each execution in a process of its own forked from the initial state; "
    "every operation's result is compared with the model's. Each is enumerated once, so all are distinct; it is "
    "non-trivial if at least two operations take part or stores to shared memory are trapped. In the ambient suite an "
    "evaluation is a pair of executions of one operation that find different leftovers in registers and on the stack; in "
    "the moved suite it is one execution with the operands at one of 256 offsets within a page. "))


def c16(tier):
    import selection
    ps = selection.points(STABLE, tier)
    import lattice
    preds = set()
    for text in sources().values():
        preds |= lattice.predicates(text)
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:  # ask the compiler for each target's definitions once
            list(ex.map(lambda p: lattice.env_of(p, lambda c: base_env(CONFIGS["software"]) | {"RUSTUP_TOOLCHAIN": c.tc}), ps))
        ps += selection.told_apart(ps, preds, lambda p: lattice.env_of(
            p, lambda c: base_env(CONFIGS["software"]) | {"RUSTUP_TOOLCHAIN": c.tc}), STABLE)
    except (OSError, subprocess.SubprocessError, RecursionError) as e:
        print(f"note: {e}", file=sys.stderr)
    rs = selection.run(ps, TARGET, os.path.join(VERIF, "probe"), base_env(CONFIGS["software"]), NCPU)
    r = Result(CONFIGS["software"], "selection", 0)
    skipped, table = {}, {}
    for p, got, log, in_crate in rs:
        r.evals += 1
        if got is None:
            err = "\n".join(x for x in log.splitlines() if x.startswith("error"))[:400]
            if in_crate:
                r.viol.append({"kind": "build", "config": p.name, "note": "the crate does not build: " + err.replace("\n", "; ")})
            else:
                skipped[p.name] = err or log[-400:]
            continue
        r.distinct += 1
        table[p.name] = {"documented": {str(w): e for w, e in p.expected.items()},
                         "found": {str(w): x for w, x in got[0].items()}}
        if got[1]:
            v = got[1][0]
            v["note"] += f" (and {len(got[1]) - 1} other operations)" if len(got[1]) > 1 else ""
            r.viol.append(v)
        r.transitions += len(selection.OPS)
    r.samples = [f"{n}: {v}" for n, v in list(table.items())[:6]]
    if not table:
        raise Broken("no configuration of the probe could be built: " + str(list(skipped.items())[:1]))
    return [r], skipped, {"exhaustive": not skipped, "operations_classified": r.transitions, "lattice": table}


PROPS["C16"] = dict(go=c16, level="exploration", rule=(
    "One case per point of the configuration lattice (toolchain x cargo features x target x relevant target features), all "
    "of them enumerated; non-trivial: the probe built and every public operation in it was classified by the "
    "instructions and tables it and its callees use. "))


# ------------------------------------------------------------------------------------------------ reporting

def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(parse_kv(line) | {"text": line})
    except OSError:
        pass
    return out


def write_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{h}.json")
    v = dict(v)
    v["property"] = prop
    v["replay"] = f"python3 {VERIF}/check.py --replay {p}"
    with open(p, "w") as f:
        json.dump(v, f, indent=1, sort_keys=True)
        f.write("\n")
    return p


def evidence(prop, tier, spec, results, skipped, extra):
    level = spec["level"]
    ev = sum(r.evals for r in results)
    di = sum(r.distinct for r in results)
    st = sum(r.states for r in results)
    tr = sum(r.transitions for r in results)
    samples = []
    for r in results:
        samples += r.samples[:1]
    samples = samples[:12] or [f"{r.cfg.name}/{r.suite}: {r.evals} cases" for r in results[:5]]
    cov = {"evaluations": ev, "distinct_nontrivial": di, "rule": spec["rule"], "samples": samples}
    if level == "model_checking":
        cov |= {"states": st, "transitions": tr, "traces_validated_against_impl": ev}
    cov["configurations"] = {}
    for r in results:
        c = cov["configurations"].setdefault(key(r.cfg), {"kind": r.cfg.kind, "suites": {}})
        old = c["suites"].get(r.suite, {"evaluations": 0, "distinct": 0, "wall_s": 0})
        c["suites"][r.suite] = {"level": r.level, "evaluations": old["evaluations"] + r.evals,
                                "distinct": old["distinct"] + r.distinct, "wall_s": round(old["wall_s"] + r.wall, 2)}
        for k, v in ([("states", r.states), ("transitions", r.transitions)] if r.states else []) + list(r.extra.items()):
            c["suites"][r.suite][k] = old.get(k, 0) + v
        if r.notes:
            c["suites"][r.suite]["notes"] = r.notes[:10]
    cov["skipped_configurations"] = {k: v[:400] for k, v in skipped.items()}
    cov |= extra
    nviol = sum(len(r.viol) for r in results)
    e = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov,
        "assumptions": spec.get("assumptions", []) + [
            "the reference model (harness/src/refmodel.rs) is FIPS-197; it is checked against the standard's vectors "
            "at the start of every run",
            "emulated configurations trust qemu-user's AES instructions",
            "no case is drawn at random; VERIF_SEED has no effect",
        ],
        "wall_s": round(time.time() - START, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def decide(prop, tier):
    spec = PROPS[prop]
    results, skipped, extra = spec["go"](tier)
    evidence(prop, tier, spec, results, skipped, extra)
    known = [k for k in known_findings() if k.get("property") == prop]
    new = []
    for r in results:
        for v in r.viol:
            hit = None
            for k in known:
                if all(v.get(f) == k[f] for f in ("config", "op", "w", "p", "route", "data", "kind") if f in k):
                    hit = k
            if hit:
                print(f"KNOWN-FINDING: property={prop} {hit['text']}")
            else:
                new.append(v)
    for v in new[:6]:
        p = write_replay(prop, v)
        print("  " + " ".join(f"{k}={str(x)[:160]}" for k, x in v.items()))
        print(f"VIOLATION property={prop} replay={p}")
    tot = sum(r.evals for r in results)
    print(f"{prop} {tier}: {tot} cases in {len({key(r.cfg) for r in results})} configurations, "
          f"{len(new)} violations, {time.time() - START:.1f} s" + (f"; skipped: {', '.join(skipped)}" if skipped else ""))
    return 1 if new else 0


def replay(path):
    v = json.load(open(path))
    name, _, profile = v.get("config", "").partition("/")
    for c in [] if name in CONFIGS else extras("thorough", [CONFIGS[n] for n in CORE6 + EXOTIC]):
        CONFIGS[c.name] = c
    if name not in CONFIGS:
        print(json.dumps(v, indent=1))
        print("rerun:", f"python3 {VERIF}/check.py {v['property']}")
        return 0
    cfg = variant(CONFIGS[name], profile) if profile else CONFIGS[name]
    cmd, env = build(cfg)
    if "data" in v and v.get("kind") in ("mismatch", "crash", "panic") and "expected" in v:
        args = ["replay", v["op"], v["w"], v["p"], v["route"], v["data"]]
    else:
        args = ["run", v["suite"], v["level"], shards_for(cfg)]
    p = subprocess.run(cmd + [str(a) for a in args], env=env, cwd=HARNESS, stdout=subprocess.PIPE, text=True)
    print(p.stdout)
    return 1 if ("DIFFERENT" in p.stdout or "VIOL" in p.stdout) else 0


def setup():
    """build everything the quick checks use, so that they only have to rebuild what changed"""
    cs = [CONFIGS[n] for n in EXOTIC + CORE6]
    cs += [variant(CONFIGS[n], p) for n in CORE6 for p in ("checked", "o0", "oz") if CONFIGS[n].kind != "miri"]
    cs += [variant(CONFIGS[n], "checked") for n in CHECKED_BARE]
    cs += [variant(CONFIGS[n], "miri") for n in MIRI]
    cs += [variant(CONFIGS[n], "ct") for n in C12_QUICK if CONFIGS[n].kind != "miri"]
    ex = extras("quick", [CONFIGS[n] for n in CORE6 + EXOTIC])
    cs += ex + [variant(c, "ct") for c in ex]
    cs = list({key(c): c for c in cs}.values())
    with cf.ThreadPoolExecutor(NCPU) as ex:
        def b(c):
            try:
                build(c)
                return key(c), "ok"
            except Skip as e:
                return key(c), "skipped: " + str(e)[:500]
        for n, s in ex.map(b, cs):
            print(n, s)
    share_violations()
    try:
        c16("quick")
    except Broken as e:
        print(e)
    return 0


def main():
    global REPO_HASH
    REPO_HASH = repo_hash()
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            return setup()
        if a and a[0] == "--replay":
            return replay(a[1])
        tier = "quick"
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return decide(a[0], tier)
    except Broken as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 3
    except subprocess.TimeoutExpired as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
