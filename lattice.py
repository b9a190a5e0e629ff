"""Configurations that the sources tell apart. Every `cfg(...)` predicate of /repo/src is evaluated in every point of a
pool of configurations that can be run here; points in which all predicates have the same values compile the same source
text. One point of each class joins the explored configurations."""
import itertools
import re
import subprocess

CFG = re.compile(r"\bcfg(?:_attr)?\s*!?\s*\(")
TOK = re.compile(r'\s*(?:([A-Za-z_]\w*)|("(?:[^"\\]|\\.)*")|([(),=]))')


def predicates(text):
    """the predicates of cfg(...), cfg!(...), cfg_attr(..., ...) as nested tuples"""
    out = set()
    for m in CFG.finditer(text):
        try:
            out.add(parse(text, m.end())[0])
        except (ValueError, IndexError):
            pass
    return out


def parse(s, i):
    def tok(i):
        m = TOK.match(s, i)
        if not m:
            raise ValueError
        return m.group(1) or m.group(2) or m.group(3), m.end()
    name, i = tok(i)
    if not re.match(r"[A-Za-z_]", name):
        raise ValueError
    t, j = tok(i)
    if t == "=":
        v, i = tok(j)
        return ("is", name, v.strip('"')), i
    if t == "(":
        args, i = [], j
        while True:
            t, j = tok(i)
            if t == ")":
                return (name, *args), j
            if t == ",":
                i = j
                continue
            a, i = parse(s, i)
            args.append(a)
    return ("is", name, None), i


def atoms(p):
    if p[0] == "is":
        return {p}
    return set().union(*[atoms(q) for q in p[1:] if isinstance(q, tuple)] or [set()])


def holds(p, env):
    if p[0] == "is":
        return (p[1], p[2]) in env
    if p[0] == "not":
        return not holds(p[1], env)
    if p[0] == "all":
        return all(holds(q, env) for q in p[1:])
    if p[0] == "any":
        return any(holds(q, env) for q in p[1:])
    return False


PRINTED = {}


def env_of(cfg, envf):
    """what the compiler defines in this configuration"""
    k = (cfg.tc, cfg.target, cfg.flags)
    if k not in PRINTED:
        e = envf(cfg)
        e["RUSTC_BOOTSTRAP"] = "1"
        cmd = ["rustc", "--print", "cfg"] + (["--target", cfg.target] if cfg.target else []) + cfg.flags.split()
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        if r.returncode != 0:
            raise OSError(f"rustc --print cfg: {r.stderr[:200]}")
        s = set()
        for l in r.stdout.splitlines():
            n, eq, v = l.partition("=")
            s.add((n, v.strip('"') if eq else None))
        PRINTED[k] = {x for x in s if x[0] not in ("debug_assertions", "overflow_checks", "panic", "test")}
    s = set(PRINTED[k])
    s |= {("feature", f) for f in cfg.features.split(",") if f}
    if cfg.profile in ("checked", "o0", "barechecked"):
        s |= {("debug_assertions", None), ("overflow_checks", None)}
    s.add(("panic", "abort" if cfg.kind == "bare" or cfg.kind == "probe" and not cfg.unwind else "unwind"))
    return frozenset(s)
