"""C18: undefined behaviour, leaks, lives of elements."""
import os
import random
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import core
from . import miri
from . import run as R
from . import spec as S
from . import special as SP
from .checks import ASSUME, BUDGET, CHECKS
from .special import special
from .sweep import *

# types with heap contents, counted lives and unsafe parts below
HEAVY = dict(tys={"arr": 8, "tracked": 5, "nstr": 4, "nwstr": 4, "box": 3, "opt": 2, "ptr": 3, "tup": 3, "pos": 2, "spy": 1.5, "prim": 6},
             depth=3, bias=.6, modes={"vec": 6, "try": 3, "separated": 2, "until": 2, "until_eof": 1.5, "count": 1.5, "map": 2},
             temp=.15)


def memory(c, o):
    """What an execution says about memory; a wrong value is the other checks' concern."""
    if o.crash:
        return "executor died: " + (miri.ub(o.crash) or o.crash)
    return ("after the case: " + o.extra) if getattr(o, "extra", "") else None


def native(v, t, rnd):
    """Everything which a read allocates is gone when its result is."""
    big = 2 if core.tier() == "thorough" else 1
    for variant, n in (("std", 110), ("nostd", 40), ("cg", 70), ("all", 50)):
        sweep(t, "leaks", mix(**HEAVY), n * big, 30, dict(offsets=1, fault=.35, truncate=.35, mutate=.2, fault_name=fault_name(variant)),
              variant=variant, rnd=rnd, args=["leak"], decide=memory)


def asan(v, t, rnd):
    big = 2 if core.tier() == "thorough" else 1
    for variant, n in (("std", 90), ("cg", 50)):
        rng = sub_rng(v.prop, "asan" + variant, rnd)
        prof = mix(**HEAVY)
        if variant == "cg":
            prof["cg"] = True
        progs = core.programs(rng, prof, n * big)
        cs = make_all(progs, rng, 40, dict(offsets=1, fault=.3, truncate=.35, mutate=.25, fault_name=fault_name(variant)))
        ws, by = miri.workspace(v.prop + "-asan", variant, progs, 6)
        errors, bins = miri.asan_build(ws, variant)
        for m in errors:
            v.violation("programs are rejected under ASan: " + errors[m][0].get("rendered", "")[:500], "")
        exe = {p: bins[g] for g, ps in by.items() for p in ps if g in bins}
        obs = core.execute(exe, cs, extra_env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:allocator_may_return_null=1"})
        texts = {p.name: p for p in progs}
        t.programs += len(exe)
        for c, o in zip(cs, obs):
            if o is None or o.crash and o.crash.startswith("skipped"):
                continue
            t.add("asan" + c["prog"], c, o, "asan-" + variant)
            d = memory(c, o)
            if d and len(v.violations) < 20:
                v.violation("[asan/%s] %s" % (variant, d[:900]), core.replay_text(texts[c["prog"]], c, d))
        t.extra["asan_executions"] = t.extra.get("asan_executions", 0) + len(obs)


def asan_special(v, t, rnd):
    for variant, names in (("std", ["drops", "liars", "strings", "ptrapi"]), ("cg", ["drops_cg", "liars"])):
        ws = workspace_special(v.prop + "-asans", variant, names)
        errors, bins = miri.asan_build(ws, variant)
        for n in names:
            k = "special_" + n
            if errors.get(k):
                v.violation("[asan/%s] the monitor %s does not compile" % (variant, n), errors[k][0].get("rendered", "")[:3000])
                continue
            SP.run_one(v, t, bins[k], [core.seed() * 1000 + rnd, 1, 4], "asan/%s/%s" % (n, variant),
                       env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=86:allocator_may_return_null=1"})


def workspace_special(name, variant, names):
    w = B.Workspace(name, variant)
    for n in names:
        w.add("special_" + n, {"src/main.rs": SP.MAIN % (os.path.join(SP.SRC, "common.rs"), os.path.join(SP.SRC, n + ".rs"))})
    w.finish()
    return w


def miri_all(v, t, rnd, seconds=150):
    """Miri on generated programs and on the monitors, as many at a time as there are cores."""
    jobs = []
    quick = core.tier() != "thorough"
    # generated programs: the runs of a job stop when its time is over
    plan = (("std", 4), ("cg", 2), ("all", 1), ("nostd", 1)) if not quick else (("std", 3), ("cg", 2))
    for variant, shards in plan:
        rng = sub_rng(v.prop, "miri" + variant, rnd)
        prof = mix(**HEAVY)
        if variant in ("cg", "all"):
            prof["cg"] = True
        prof["arr_n"] = (0, 1, 2, 3, 5, 33) if variant in ("cg", "all") else (0, 1, 2, 3, 5)
        per = 14 if quick else 40
        progs = core.programs(rng, prof, per * shards)
        ws, by = miri.workspace(v.prop + "-miri", variant, progs, shards)
        warm = miri.warm(ws, "g0", variant)
        if warm.returncode:
            text = warm.stderr.decode("utf-8", "replace")
            if miri.ub(text):
                v.violation("[miri/%s] %s" % (variant, miri.ub(text)[:600]), text[-5000:])
                continue
            raise B.BuildError("miri does not run:\n" + text[-3000:])
        cs = make_all(progs, rng, 60, dict(offsets=1, fault=.4, truncate=.4, mutate=.2, fault_name=fault_name(variant)))
        texts = {p.name: p for p in progs}
        for g, ps in by.items():
            mine = [c for c in cs if c["prog"] in ps and len(c["data"]) < 200 and len(c["expect"].req) < 150]
            # one case of each decision sequence first
            seen, a, b = set(), [], []
            for c in mine:
                (b if c["sig"] in seen else a).append(c)
                seen.add(c["sig"])
            rng.shuffle(a)
            mine = (a + b)[:110 if quick else 100000]
            jobs.append(("gen", variant, ws, g, mine, texts))
        # a few of them on several threads: data races
        few = rng.sample(mine, min(len(mine), 14))
        jobs.append(("threads", variant, ws, g, few, texts))
    mons = [("std", "drops", 8), ("cg", "drops_cg", 10), ("std", "liars", 24), ("cg", "liars", 24), ("std", "strings", 600), ("std", "posval", 120),
            ("std", "errors", 30), ("std", "entry", 60), ("std", "ptrapi", 400)]
    if not quick:
        mons = [(a, b, max(1, c // 4)) for a, b, c in mons] + [("nostd", "drops", 4), ("nostd", "liars", 10), ("nostd", "io", 60), ("all", "drops_cg", 4),
                                                             ("nostd-cg", "drops_cg", 4)]
    for variant in sorted({m[0] for m in mons}):
        names = [m[1] for m in mons if m[0] == variant]
        ws = workspace_special(v.prop + "-miris", variant, names)
        if not [p for p in plan if p[0] == variant]:
            miri.warm(ws, "special_" + names[0], variant)
        for m in mons:
            if m[0] == variant:
                jobs.append(("mon", variant, ws, m[1], m[2], None))
    jobs.sort(key=lambda j: {"gen": 0, "mon": 1, "threads": 2}[j[0]])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: one(v, t, rnd, j, time.time() + seconds), jobs):
            pass


def one(v, t, rnd, job, end):
    kind, variant, ws, member, arg, texts = job
    if kind == "mon":
        cmd, e = miri.miri_cmd(ws, "special_" + member, variant, [core.seed() * 1000 + rnd, 1, arg])
        SP.run_one(v, t, cmd[0], cmd[1:], "miri/%s/%s" % (member, variant), env=e, wall=800, runner=[], cpu=800, cwd=ws.dir)
        return
    if kind == "threads":
        cmd, e = miri.miri_cmd(ws, member, variant, ["threads", 3, 1], "-Zmiri-seed=%d" % (core.seed() + rnd))
        text = "".join(R.case_line(i, c) + "\n" for i, c in enumerate(arg))
        p = subprocess.run(cmd, env=B.env(e), cwd=ws.dir, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
        err = p.stderr.decode("utf-8", "replace")
        if p.returncode:
            v.violation("[miri/%s, 3 threads] %s" % (variant, (miri.ub(err) or err[-600:])[:600]), text + err[-4000:])
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            f = l.split("\t")
            if f[0].isdigit() and len(f) > 3:
                judge(v, t, texts, arg[int(f[0])], R.Obs(f[1:]), "miri/%s, 3 threads" % variant)
        return
    # in pieces, so that the time can be kept
    i = 0
    cmd, e = miri.miri_cmd(ws, member, variant, ["lean"])
    x = R.Exec(cmd, (), e, cpu=700, wall=750)
    size = 55
    while i < len(arg) and time.time() < end:
        part = arg[i:i + size]
        i += size
        for c, o in zip(part, x.run(part, cwd=ws.dir)):
            if o is None or o.crash and o.crash.startswith("skipped"):
                continue
            judge(v, t, texts, c, o, "miri/" + variant)


def judge(v, t, texts, c, o, what):
    t.add(what + c["prog"], c, o, what)
    t.extra["miri_executions"] = t.extra.get("miri_executions", 0) + 1
    d = memory(c, o)
    if d and len(v.violations) < 20:
        v.violation("[%s] %s" % (what, d[:900]), core.replay_text(texts[c["prog"]], c, d))


def c18(v):
    t = Tally(v, None, "An execution of a generated program under Miri, AddressSanitizer or the allocation and life counters, distinct by tool, "
                       "program and decisions of the reference; or a distinct abstract state of one of the monitors.")
    for rnd in rounds(BUDGET):
        native(v, t, rnd)
        special(["drops", "liars"], ("std", "nostd", "dbg"))(v, t, rnd)
        special(["drops_cg", "liars"], ("cg", "nostd-cg"))(v, t, rnd)
        asan(v, t, rnd)
        asan_special(v, t, rnd)
        if not v.violations:
            miri_all(v, t, rnd)
        if v.violations:
            break
    t.write(ASSUME + ["Miri's and AddressSanitizer's notions of undefined behaviour are the language's."])


CHECKS["C18"] = (c18, "exploration")
