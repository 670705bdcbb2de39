"""Monitors written in Rust: each drives one interface of the library with inputs of
its own and compares every step with an independent oracle.

Output, one line each:  `V text` a violation, `N name count` a counter,
`S text` a sample, `D key` an abstract state which was reached."""
import os
import signal
import subprocess
from collections import Counter

from . import build as B
from . import core

SRC = os.path.join(B.HARNESS, "special")
MAIN = """#![allow(warnings)]
#[global_allocator]
static METER: rt::Meter = rt::Meter;
include!("%s");
include!("%s");
"""


def build(names, variant="std", ws="special", **kw):
    w = B.Workspace(ws, variant)
    for n in names:
        w.add("special_" + n, {"src/main.rs": MAIN % (os.path.join(SRC, "common.rs"), os.path.join(SRC, n + ".rs"))})
    w.finish()
    return w.build(**kw)


def run_one(v, t, path, args, what, cpu=60, wall=300, env=None, runner=None, cwd="/"):
    import resource

    def lim():
        if runner is None or cpu != 60:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run((runner or []) + [path] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=B.env(env), preexec_fn=lim, timeout=wall, cwd=cwd)
        code, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        code, out, err = "timeout", e.stdout or b"", e.stderr or b""
    out = out.decode("utf-8", "replace")
    c = Counter()
    n = 0
    for l in out.splitlines():
        k, _, rest = l.partition(" ")
        if k == "V":
            n += 1
            if n <= 5:
                v.violation("[%s] %s" % (what, rest[:600]), l)
        elif k == "N":
            a, _, b = rest.rpartition(" ")
            c[a] += int(b)
        elif k == "S" and len(t.samples) < 6:
            t.samples.append(rest[:300])
        elif k == "D":
            t.sigs.add((what, rest))
    if code != 0:
        v.violation("[%s] the monitor died: %s %s" % (what, code, err.decode("utf-8", "replace")[-1500:]), out[-3000:])
    elif not c:
        raise B.BuildError("monitor %s observed nothing" % what)
    t.evals += c.get("evaluations", 0)
    t.nontrivial_evals += c.get("evaluations", 0)
    t.extra.setdefault("monitors", {}).setdefault(what, {})
    for k, x in c.items():
        m = t.extra["monitors"][what]
        m[k] = m.get(k, 0) + x
    return c


def special(names, variants=("std",), scale=1):
    """An `extra` step of a check."""
    def f(v, t, rnd):
        for variant in variants:
            errors, bins = build(names, variant, ws=v.prop + "-special")
            for n in names:
                k = "special_" + n
                if errors.get(k):
                    v.violation("[%s] the monitor %s does not compile against the library" % (variant, n),
                                "\n".join(m.get("rendered", "") for m in errors[k])[:3000])
                    continue
                run_one(v, t, bins[k], [core.seed() * 1000 + rnd, scale * (4 if core.tier() == "thorough" else 1)], "%s/%s" % (n, variant))
    return f


def chain(*fs):
    def f(v, t, rnd):
        for g in fs:
            g(v, t, rnd)
    return f
