"""C19 (without the standard library), C21 (const generics)."""
from . import build as B
from . import core
from . import gen as G
from . import run as R
from . import spec as S
from .checks import ASSUME, standard
from .special import chain, special
from .sweep import *


# ------------------------------------------------------------------ C19
def lockstep(v, t, rnd):
    """The same programs on the same inputs in both configurations, observation against observation."""
    rng = sub_rng(v.prop, "pairs", rnd)
    n = 150 * (2 if core.tier() == "thorough" else 1)
    prof = mix(modes={"try": 1.5}, bias=.7)
    progs = core.programs(rng, prof, n)
    o = dict(offsets=1, fault=.25, fault_name=lambda k: str(k), intr=.5, short=.4, inner=.5, truncate=.25, mutate=.2)
    cs = make_all(progs, rng, 40, o)
    # inputs which the reference leaves open count here as well
    for c in list(cs):
        if rng.random() < .4:
            d = bytearray(c["data"])
            for _ in range(rng.randrange(1, 6)):
                if d:
                    d[rng.randrange(len(d))] = rng.choice((0, 1, 127, 128, 255, rng.randrange(256)))
            w = dict(c, data=bytes(d), limit=20000)
            w.pop("expect")
            cs.append(w)
    got = {}
    for variant in ("std", "nostd"):
        exe, gone = core.build_programs("%s-pairs" % v.prop, progs, variant=variant)
        for n_, msg in list(gone.items())[:3]:
            v.violation("a program is rejected (%s): %s" % (variant, first_line(msg)), msg)
        got[variant] = core.execute(exe, cs)
    by = {p.name: p for p in progs}
    same = 0
    for c, a, b in zip(cs, got["std"], got["nostd"]):
        if a is None or b is None or a.crash and a.crash.startswith("skipped") or b.crash and b.crash.startswith("skipped"):
            continue
        t.evals += 2
        t.nontrivial_evals += 2
        d = differ(a, b)
        if d is None:
            same += 1
            t.sigs.add((c["prog"], c["sig"], a.kind, "expect" in c))
        elif len(v.violations) < 20:
            v.violation("with std and without differ: " + d, core.replay_text(by[c["prog"]], c, d))
    t.extra["pairs_equal"] = t.extra.get("pairs_equal", 0) + same


import re
_tok = re.compile(r"#\d+")


def differ(a, b):
    if bool(a.crash) != bool(b.crash):
        return "%s / %s" % (a.brief()[:300], b.brief()[:300])
    if a.crash:
        return None
    if a.kind != b.kind:
        return "%s / %s" % (a.brief()[:300], b.brief()[:300])
    x, y = _tok.sub("", core.norm(a.text)), _tok.sub("", core.norm(b.text))
    if a.kind == "P":
        return None if x.split(" at ")[0][:40] == y.split(" at ")[0][:40] else "panics %s / %s" % (x, y)
    if x != y:
        return "%s / %s" % (x[:300], y[:300])
    if a.kind == "K" and a.pos != b.pos:
        return "final position %d / %d" % (a.pos, b.pos)
    if a.events != b.events:
        return "callbacks %s / %s" % (a.events[:20], b.events[:20])
    return None


standard("C19", mix(bias=.7), None, plan=[("nostd", 200)], ncase=50,
         opts=dict(inner=.6, intr=.5, fault=.15, truncate=.25),
         extra=chain(lockstep, special(["io"], ("std", "nostd", "nostd-cg"))))


# ------------------------------------------------------------------ C21
def c21_pairs(v, t, rnd):
    """Programs which both implementations can read, observation against observation."""
    rng = sub_rng(v.prop, "pairs", rnd)
    prof = mix(tys={"arr": 12, "tracked": 3, "prim": 6, "tup": 3, "spy": 1.5, "ptr": 0}, depth=3, bias=.7)
    progs = core.programs(rng, prof, 150 * (2 if core.tier() == "thorough" else 1),
                          accept=lambda p: "; " in S.Render(p).source().replace(S.Render.PRELUDE, ""))
    cs = make_all(progs, rng, 40, dict(offsets=1, fault=.2, fault_name=fault_name("std"), truncate=.25, mutate=.2))
    got = {}
    for variant in ("std", "cg"):
        exe, gone = core.build_programs("%s-pairs" % v.prop, progs, variant=variant)
        for n_, msg in list(gone.items())[:3]:
            v.violation("a program is rejected (%s): %s" % (variant, first_line(msg)), msg)
        got[variant] = core.execute(exe, cs)
    by = {p.name: p for p in progs}
    for c, a, b in zip(cs, got["std"], got["cg"]):
        if a is None or b is None or a.crash and a.crash.startswith("skipped") or b.crash and b.crash.startswith("skipped"):
            continue
        t.evals += 2
        d = differ(a, b)
        if d is None and a.req != b.req:
            d = "bytes asked for: %s / %s" % (a.req[:20], b.req[:20])
        if d is None and (a.extra or b.extra):
            d = "after the case: %s / %s" % (a.extra, b.extra)
        if d is None:
            t.extra["pairs_equal"] = t.extra.get("pairs_equal", 0) + 1
            t.sigs.add((c["prog"], c["sig"], a.kind))
        elif len(v.violations) < 20:
            v.violation("with const generics and without differ: " + d, core.replay_text(by[c["prog"]], c, d))


standard("C21", mix(tys={"arr": 14, "tracked": 4, "prim": 6, "tup": 3, "spy": 2, "ptr": 2, "pos": 2, "def": 5, "nstr": 1.5}, depth=3,
                    arr_n=(0, 1, 2, 3, 5, 17, 32, 33, 34, 48, 64, 65, 100, 130), bias=.75),
         ["struct", "variant_*"], src=r"; \d+\]", plan=[("cg", 250), ("nostd-cg", 80), ("all", 80)], opts=dict(truncate=.25, fault=.2),
         extra=chain(c21_pairs, special(["drops_cg", "nested_cg"], ("cg", "nostd-cg", "all"))))
