"""The common loop of the checks: programs x inputs, each execution compared with
the reference semantics."""
import copy
import hashlib
import multiprocessing as mp
import random
import re
import time
from collections import Counter

from . import build as B
from . import core
from . import gen as G
from . import model as M
from . import run as R
from . import spec as S

EVERYTHING = {"value", "error", "pos", "events", "display", "foot", "rewind"}

ALLTYS = {"prim": 8, "arr": 2, "tup": 2, "box": 1, "opt": 1, "def": 3, "unit": .3, "phantom": .3, "nstr": .7, "nwstr": .7,
          "ptr": 1.5, "pos": 1, "spy": 1}
ALLMODES = {"read": 9, "vec": 2, "try": .8, "map": 1.2, "calc": 1, "default": .8, "custom": .4, "closure": .4, "until": .4,
            "until_exclusive": .4, "count": .4, "until_eof": .2, "read_bytes": .4, "separated": .2, "separated_trailing": .2,
            "ptrparse": .4}

# every feature at a low rate, so that the one a check is about meets all others
BROAD = dict(
    tys=ALLTYS, prims=S.INTS + ["f32", "f64", "char"], modes=ALLMODES,
    forms={"struct": 10, "enum": 3, "uenum": 2, "topmap": 1.5}, kinds={"named": 6, "tuple": 3, "unit": .6},
    field_endian=.08, cond_endian=.4, field_magic=.05, offset=.06, offset_after=.05, deref_now=.06, restore=.06,
    pad_before=.05, pad_after=.05, align_before=.04, align_after=.04, pad_size_to=.04, seek_before=.03,
    field_assert=.07, temp=.05, once=.3, top_endian=.15, top_magic=.12, pre_assert=.08, imports=.25, import_tuple=.3, spyargs=1,
    variant_magic=.4, variant_endian=.15, variant_assert=.15, variant_pre=.15, enum_assert=.12, uenum_imports=.4,
    root_args=1, attr_macro=.1, generic=.12, bias=.85, parse_try=.1, map_try=.2, custom_map=.25, hostile=.12, many_variants=.04)
BROAD["if"] = .06
BROAD["assert"] = .08


def mix(**over):
    p = copy.deepcopy(BROAD)
    for k, v in over.items():
        k = k.rstrip("_")
        if isinstance(v, dict) and isinstance(p.get(k), dict) and not v.get("only"):
            p[k] = dict(p[k], **v)
        else:
            p[k] = {a: b for a, b in v.items() if a != "only"} if isinstance(v, dict) else v
    return p


_G = {}


def _work(a):
    i, sd, n = a
    try:
        cs = G.make_cases(_G["progs"][i], random.Random(sd), n, _G["opts"])
    except Exception as e:      # a bug of the harness
        import traceback
        return i, traceback.format_exc()
    return i, cs


def make_all(progs, rng, n, opts):
    _G["progs"], _G["opts"] = progs, opts
    jobs = [(i, rng.randrange(1 << 60), n) for i in range(len(progs))]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(_work, jobs, chunksize=max(1, len(jobs) // 64))
    out = []
    for i, cs in res:
        if isinstance(cs, str):
            raise RuntimeError("case generation failed for %s\n%s" % (progs[i].name, cs))
        out += cs
    return out


class Tally:
    """What a check observed."""

    def __init__(self, v, focus=None, rule=None):
        self.v = v
        self.focus = set(focus or ())
        self.rule = rule
        self.evals = self.programs = self.dropped = self.events = self.nontrivial_evals = 0
        self.sigs = set()
        self.notes, self.outcomes, self.variants = Counter(), Counter(), Counter()
        self.samples = []
        self.extra = {}

    def focused(self, c):
        x = c["expect"]
        if not self.focus:
            return bool(x.seen) or len(x.req) > 0
        for n in self.focus:
            if n in x.seen:
                return True
            if n.endswith("*") and any(s.startswith(n[:-1]) for s in x.seen):
                return True
        return False

    def add(self, prog_hash, c, o, variant):
        x = c["expect"]
        self.evals += 1
        self.variants[variant] += 1
        self.notes.update(x.seen.keys())
        self.outcomes["ok" if x.ok is not None else x.err.kind] += 1
        self.events += len(x.events)
        if self.focused(c):
            self.nontrivial_evals += 1
            before = len(self.sigs)
            self.sigs.add((prog_hash, c["sig"]))
            if len(self.sigs) > before and len(self.samples) < 3 and len(self.sigs) % 97 == 1:
                self.samples.append({"case": R.case_line(0, c)[:400], "observed": o.brief()[:300]})

    def write(self, assumptions=()):
        v = self.v
        if not self.samples:
            self.samples = self.extra.pop("samples", []) or ["none"]
        v.cov = dict({
            "evaluations": self.evals, "distinct_nontrivial": len(self.sigs),
            "rule": self.rule or ("An execution of a generated program on generated bytes; it counts when the run passes through %s, "
                                  "and is distinct by program text and by the sequence of decisions which the reference takes." %
                                  (", ".join(sorted(self.focus)) or "at least one directive")),
            "samples": self.samples, "programs": self.programs, "programs_per_configuration": dict(self.variants),
            "nontrivial_executions": self.nontrivial_evals, "callback_events_compared": self.events,
            "outcomes": dict(self.outcomes), "passed_through": dict(self.notes.most_common(60)),
        }, **self.extra)
        v.assumptions += list(assumptions)


def sub_rng(prop, what, rnd=0):
    return random.Random("%d/%s/%s/%d" % (core.seed(), prop, what, rnd))


def fault_name(variant):
    if variant.startswith("nostd"):
        return lambda k: R.KINDS[k]
    return lambda k: "%s#%d" % (R.KINDS[k], k)


def sweep(t, what, profile, nprog, ncase, opts=None, variant="std", src=None, check=EVERYTHING, rnd=0, progs=None,
          cases=None, on_obs=None, render=None, shards=6, post=None, args=(), decide=None):
    """Run one batch. Programs whose text does not match `src` are passed over."""
    v = t.v
    rng = sub_rng(v.prop, what + variant, rnd)
    o_ = dict(offsets=1, fault=.08, fault_name=fault_name(variant))
    o_.update(opts or {})
    if progs is None:
        prof = dict(profile)
        if "cg" in variant or variant == "all":
            prof["cg"] = True
        pat = re.compile(src) if src else None
        progs = core.programs(rng, prof, nprog, accept=(lambda p: pat.search(S.Render(p).source().replace(S.Render.PRELUDE, ""))) if pat else None)
    name = "%s-%s" % (v.prop, what)
    if cases is None:
        from concurrent.futures import ThreadPoolExecutor
        cs = make_all(progs, rng, ncase, o_)
    else:
        cs = cases
    exe, gone = core.build_programs(name, progs, variant=variant, render=render, shards=shards)
    by = {p.name: p for p in progs}
    for n, msg in list(gone.items())[:5]:
        v.violation("a program of documented directives is rejected by the compiler (%s): %s" % (variant, first_line(msg)),
                    msg + "\n" + (render(by[n]) if render else S.Render(by[n]).source()))
    hashes = {p.name: hashlib.sha256((render(p) if render else S.Render(p).source()).encode()).hexdigest()[:12] for p in progs}
    obs = core.execute(exe, cs, args=args)
    t.programs += len(exe)
    bad = Counter()
    for c, o in zip(cs, obs):
        if o is None:
            continue
        if o.crash and o.crash.startswith("skipped"):
            continue
        t.add(hashes[c["prog"]], c, o, variant)
        d = (decide or (lambda c, o: core.compare(c, o, c["expect"], check)))(c, o)
        if d is None and getattr(o, "extra", ""):
            d = "after the case: " + o.extra
        if d is None and post:
            d = post(c, o)
        if d:
            bad[c["prog"]] += 1
            if bad[c["prog"]] <= 2 and len(v.violations) < 40:
                v.violation("[%s] %s" % (variant, d), core.replay_text(by.get(c["prog"]), c, d, render))
    return progs, cs, obs, exe


def first_line(msg):
    for l in msg.splitlines():
        if l.strip():
            return l.strip()[:200]
    return ""


def rounds(budget):
    """1 round in the quick tier; as many as fit into the budget in the thorough one."""
    if core.tier() != "thorough":
        yield 0
        return
    t0 = time.time()
    i = 0
    longest = 0
    while i == 0 or time.time() - t0 + longest < budget:
        a = time.time()
        yield i
        longest = max(longest, time.time() - a)
        i += 1
