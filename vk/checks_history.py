"""C25: earlier reads and concurrent ones do not matter."""
import random
import re
import subprocess
from collections import Counter

from . import build as B
from . import core
from . import gen as G

from . import run as R
from . import spec as S
from .checks import ASSUME, BUDGET, CHECKS
from .special import special
from .sweep import *


# automatic names and colours are drawn from counters of the process
_auto = re.compile(r"\bvar\d+(?=[<\[;])|bgcolor=\w+|(?<=_)\d+(?= \{)")


def sig(o):
    if o.crash:
        return ("crash", o.crash[:200])
    return (o.kind, o.text, o.pos, tuple(o.events), tuple(o.req), o.display, _auto.sub("*", o.template))


def judge(v, t, by, c, o, first, what):
    """An observation against the reference and against the first one of the same case."""
    d = core.compare(c, o, c["expect"], EVERYTHING) if "expect" in c else None
    if d is None and sig(o) != first:
        a, b = first, sig(o)
        k = [i for i in range(min(len(a), len(b))) if a[i] != b[i]][:1]
        d = "the same read gave %s and then %s" % (str(a[k[0]] if k else a)[:300], str(b[k[0]] if k else b)[:300])
    if d and len(v.violations) < 20:
        v.violation("[%s] %s" % (what, d), core.replay_text(by.get(c["prog"]), c, d))
    return d is None


def threads(v, t, exe, cs, by, first, what, n=8, rounds_=2, cpu=400):
    groups = {}
    for i, c in enumerate(cs):
        if c["prog"] in exe and i in first:
            groups.setdefault(exe[c["prog"]], []).append(i)
    for path, idx in groups.items():
        text = "".join(R.case_line(i, cs[i]) + "\n" for i in idx)
        p = subprocess.run([path, "threads", str(n), str(rounds_)], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=B.env(), timeout=600, cwd="/")
        if p.returncode:
            v.violation("[%s] %d threads: the process died with %s: %s" % (what, n, p.returncode, p.stderr.decode("utf-8", "replace")[-500:]), text[:20000])
            continue
        seen = Counter()
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            f = l.split("\t")
            i = int(f[0])
            seen[i] += 1
            o = R.Obs(f[1:])
            t.evals += 1
            t.nontrivial_evals += 1
            judge(v, t, by, cs[i], o, first[i], what + "/%d threads" % n)
        if sorted(seen) != sorted(idx) or set(seen.values()) != {n * rounds_}:
            v.violation("[%s] reads were lost" % what, str(seen)[:2000])
        t.extra["concurrent_reads"] = t.extra.get("concurrent_reads", 0) + sum(seen.values())


def c25(v):
    t = Tally(v, None, "A read repeated within a history (other reads and failures before it) or concurrently with others, compared with "
                       "the reference and with the same read elsewhere; distinct by program, decisions of the reference, and kind of history.")
    big = 2 if core.tier() == "thorough" else 1
    for rnd in rounds(BUDGET):
        for variant, nprog, modes in (("std", 140 * big, ()), ("nostd", 50 * big, ()), ("dbg", 60 * big, ("0", "1"))):
            rng = sub_rng(v.prop, "history" + variant, rnd)
            prof = mix(bias=.6)
            if variant == "dbg":
                # every program asks for template output where the profile says so
                prof["nested_bias"] = 1
            progs = core.programs(rng, prof, nprog)
            by = {p.name: p for p in progs}
            cs = make_all(progs, rng, 30, dict(offsets=1, fault=.2, fault_name=fault_name(variant), truncate=.3, mutate=.2))
            exe, gone = core.build_programs("%s-history" % v.prop, progs, variant=variant)
            t.programs += len(exe)
            for n_, msg in list(gone.items())[:3]:
                v.violation("a program is rejected (%s): %s" % (variant, first_line(msg)), msg)
            # every case in the order of its program, then shuffled over all programs,
            # repeated directly after itself, and backwards
            first = {}
            orders = [list(range(len(cs)))]
            o = list(range(len(cs)))
            rng.shuffle(o)
            orders.append(o)
            orders.append([i for i in o[:len(o) // 2] for _ in range(3)])
            orders.append(list(reversed(range(len(cs)))))
            ags = ["template", "1"] if variant == "dbg" else []
            for k, order in enumerate(orders):
                obs = core.execute(exe, [cs[i] for i in order], args=ags)
                for i, ob in zip(order, obs):
                    if ob is None or ob.crash and ob.crash.startswith("skipped"):
                        continue
                    t.evals += 1
                    t.nontrivial_evals += 1
                    t.sigs.add((variant, k, cs[i]["prog"], cs[i]["sig"]))
                    if i not in first:
                        first[i] = sig(ob)
                    if judge(v, t, by, cs[i], ob, first[i], "%s/order %d" % (variant, k)) and len(t.samples) < 3 and len(t.sigs) % 1999 == 1:
                        t.samples.append({"case": R.case_line(0, cs[i])[:300], "observed": ob.brief()[:200]})
            if not ags:
                threads(v, t, exe, cs, by, first, variant)
            else:
                # the template goes to a place which the threads share: only the reads are compared
                plain = {}
                for i, ob in zip(orders[0], core.execute(exe, cs)):
                    if ob is not None and not ob.crash:
                        plain[i] = sig(ob)
                threads(v, t, exe, cs, by, plain, variant)
            # alone in a new process
            some = rng.sample(sorted(first), min(12, len(first)))
            for i in some:
                ob = R.Exec(exe[cs[i]["prog"]], ags).run([cs[i]])[0]
                t.evals += 1
                judge(v, t, by, cs[i], ob, first[i], variant + "/alone")
            t.extra["histories"] = t.extra.get("histories", 0) + len(orders)
        special(["history"], ("std", "nostd", "nostd-cg"))(v, t, rnd)
        if v.violations:
            break
    t.write(ASSUME)


CHECKS["C25"] = (c25, "exploration")
