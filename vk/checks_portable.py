"""C32: machines with the other byte order and with narrower pointers."""
import time
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import core
from . import miri
from . import model as M
from . import run as R
from . import special as SP
from .checks import ASSUME, BUDGET, CHECKS
from .checks_memory import workspace_special
from .sweep import *

BIG64, LITTLE32, BIG32 = "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu", "powerpc-unknown-linux-gnu"
ORDER = {BIG64: "big", LITTLE32: "little", BIG32: "big"}
PROFILE = dict(top_endian=.2, field_endian=.12, counts=1, generic=0)


def judge(v, t, texts, c, o, what):
    if o is None or o.crash and o.crash.startswith("skipped"):
        return
    t.add(what + c["prog"], c, o, what)
    d = core.compare(c, o, c["expect"], EVERYTHING)
    if d and len(v.violations) < 20:
        v.violation("[%s] %s" % (what, d[:900]), core.replay_text(texts[c["prog"]], c, d))


def generated(job):
    v, t, target, variant, ws, g, cases, texts, end = job
    cmd, e = miri.miri_cmd(ws, g, variant, ["lean"], target=target)
    x = R.Exec(cmd, (), e, cpu=700, wall=700)
    i, size = 0, 60
    while i < len(cases) and time.time() < end:
        part = cases[i:i + size]
        i += size
        for c, o in zip(part, x.run(part, cwd=ws.dir)):
            judge(v, t, texts, c, o, "%s/%s" % (target.split("-")[0], variant))


def monitor(job):
    v, t, target, variant, ws, name, div, rnd = job
    cmd, e = miri.miri_cmd(ws, "special_" + name, variant, [core.seed() * 1000 + rnd, 1, div], target=target)
    SP.run_one(v, t, cmd[0], cmd[1:], "%s/%s/%s" % (target.split("-")[0], name, variant), env=e, wall=700, runner=[], cpu=700, cwd=ws.dir)


def c32(v):
    t = Tally(v, [], "An execution of a generated program on generated bytes under an interpreter of another machine, compared with the reference in "
                     "everything; distinct by machine, program and decisions of the reference; or a distinct abstract state of one of the monitors.")
    quick = core.tier() != "thorough"
    for rnd in rounds(BUDGET):
        jobs, mons = [], []
        end = time.time() + (200 if quick else 400)
        for target in (BIG64, LITTLE32) if quick else (BIG64, LITTLE32, BIG32):
            M.NATIVE = ORDER[target]
            try:
                for variant, shards, per in (("std", 3, 22), ("nostd", 1, 18)):
                    rng = sub_rng(v.prop, target + variant, rnd)
                    progs = core.programs(rng, mix(**PROFILE), per * shards)
                    cs = make_all(progs, rng, 24, dict(offsets=1, counts=.3, fault=.1, truncate=.2, mutate=.2, fault_name=fault_name(variant)))
                    ws, by = miri.workspace("%s-%s" % (v.prop, target.split("-")[0]), variant, progs, shards)
                    warm = miri.warm(ws, "g0", variant, target)
                    if warm.returncode:
                        raise B.BuildError("miri does not run for %s:\n%s" % (target, warm.stderr.decode("utf-8", "replace")[-3000:]))
                    texts = {p.name: p for p in progs}
                    t.programs += len(progs)
                    for g, ps in by.items():
                        mine = [c for c in cs if c["prog"] in ps and len(c["data"]) < 300 and len(c["expect"].req) < 200]
                        seen, a, b = set(), [], []
                        for c in mine:
                            (b if c["sig"] in seen else a).append(c)
                            seen.add(c["sig"])
                        rng.shuffle(a)
                        jobs.append((v, t, target, variant, ws, g, (a + b)[:260 if quick else 100000], texts, end))
            finally:
                M.NATIVE = "little"
            for variant, names in MONITORS:
                ws = workspace_special("%s-%s-mon" % (v.prop, target.split("-")[0]), variant, [n for n, _ in names])
                for n, div in names:
                    mons.append((v, t, target, variant, ws, n, div if quick else max(1, div // 4), rnd))
        with ThreadPoolExecutor(8) as ex:
            a = [ex.submit(generated, j) for j in jobs] + [ex.submit(monitor, j) for j in mons]
            for f in a:
                f.result()
        if v.violations:
            break
    t.write(ASSUME + ["Miri interprets other machines as they are."])


MONITORS = (("std", (("strings", 600), ("posval", 120), ("errors", 60), ("entry", 80), ("ptrapi", 400), ("counts", 8), ("edges", 8), ("nested", 20))),
            ("nostd", (("io", 800), ("counts", 8))))

CHECKS["C32"] = (c32, "exploration")
