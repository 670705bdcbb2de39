"""C16 (faults of the reader) and C17 (hostile data)."""
import random
from collections import Counter

from . import build as B
from . import core
from . import gen as G
from . import model as M
from . import run as R
from . import spec as S
from .checks import ASSUME, BUDGET, CHECKS
from .special import special
from .sweep import *

# ------------------------------------------------------------------ C16
CHUNK = dict(short=.85, intr=.7, fault=.35, truncate=.15)


def absorbing(p):
    """May the program turn a reader's error into something else than this error?"""
    for d in p.defs:
        if isinstance(d, S.Enum):
            return True
        if isinstance(d, S.UnitEnum) and not d.repr:
            return True
        if any(f.try_ for f in G.all_fields(d)):
            return True
    return False


def to_eof(p):
    return any(f.parser and f.parser[0] == "until_eof" for d in p.defs for f in G.all_fields(d))


def fault_points(t, v, progs, cs, obs, exe, variant, rng, per_case=24):
    """Fail every read and seek operation of reads that succeed, one at a time."""
    by = {p.name: p for p in progs}
    seen = Counter()
    cases = []
    for c, o in zip(cs, obs):
        if o is None or o.crash or o.kind != "K" or c.get("fault_kind") is not None or seen[c["prog"]] >= 3 or o.ops == 0:
            continue
        seen[c["prog"]] += 1
        ks = list(range(1, o.ops + 1))
        if len(ks) > per_case:
            ks = sorted(rng.sample(ks, per_case))
        for k in ks:
            for once in (0, 1):
                n = dict(c, fault_op=k, fault_once=once, fault_kind=rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 9, 10) + (8, 8) * once))
                n.pop("expect")
                n["baseline"] = o.ops
                cases.append(n)
    res = core.execute(exe, cases)
    name = {"": None}
    bad = Counter()
    for c, o in zip(cases, res):
        if o is None or o.crash and o.crash.startswith("skipped"):
            continue
        p = by[c["prog"]]
        t.evals += 1
        t.extra["faulted_operations"] = t.extra.get("faulted_operations", 0) + 1
        t.extra["operations_in_baselines"] = t.extra.get("operations_in_baselines", 0) + (1 if c["fault_op"] == 1 and c["fault_once"] else 0)
        d = judge(p, c, o, variant)
        key = (c["prog"], "op", c["fault_op"], c["fault_once"], o.kind)
        t.sigs.add(key)
        t.nontrivial_evals += 1
        if d:
            bad[c["prog"]] += 1
            if bad[c["prog"]] <= 2:
                v.violation("[%s] fault at operation %d of %d (%s): %s" % (variant, c["fault_op"], c["baseline"], "once" if c["fault_once"] else "lasting", d),
                            core.replay_text(p, c, d))


def judge(p, c, o, variant):
    if o.crash:
        return "executor died: " + o.crash
    if o.kind == "P":
        return "panicked: " + o.text
    if o.extra:
        return o.extra
    if not o.faulted:
        return "operation %d was not reached, although the same read makes %d" % (c["fault_op"], c["baseline"])
    k = c["fault_kind"]
    if k == 8 and o.faulted & 1:
        k = 0
    token = R.KINDS[k] if variant.startswith("nostd") else "%s#%d" % (R.KINDS[k], k)
    if not (absorbing(p) or k == 9 and to_eof(p)):
        if o.kind == "K":
            return "the read succeeded, although its operation failed: " + o.brief()
        if o.text != "Io:" + token:
            return "expected error Io:%s, observed %s" % (token, o.brief())
        if o.ops > c["fault_op"] + 400:
            return "went on for %d operations after the failure" % (o.ops - c["fault_op"])
    if o.kind == "E" and c["fault_once"] and isinstance(p.root, (S.Ref, S.Prim)) and o.pos != c["start"]:
        return "the reader is at %d after the error, not back at %d" % (o.pos, c["start"])


def c16(v):
    t = Tally(v, ["fail_*"], rule="A read of a generated program whose reader splits its data, is interrupted, or fails: at an address (judged by the "
              "reference), or at one of the read and seek operations which the same read makes when nothing fails (judged by the propagation monitor). "
              "Distinct by program and decisions, or by program, operation and outcome.")
    for rnd in rounds(BUDGET):
        for variant, n in (("std", 260), ("dbg", 80), ("nostd", 120), ("cg", 40)):
            prof = mix(tys={"nstr": 2, "nwstr": 2, "ptr": 3}, restore=.12, pad_size_to=.08, seek_before=.06,
                       modes={"read_bytes": 1, "until_eof": .6, "until": .8, "separated": .5})
            if rnd % 2 == 0:
                # mostly such that nothing may absorb an error
                prof["forms"] = {"struct": 10, "uenum": 1, "enum": .5, "topmap": 1.5}
                prof["modes"] = dict(prof["modes"], **{"try": .15})
            for i, o in enumerate((dict(CHUNK), )):
                progs, cs, obs, exe = sweep(t, "faults%d" % i, prof, n, 40, o, variant, rnd=rnd)
                fault_points(t, v, progs, cs, obs, exe, variant, sub_rng(v.prop, "points" + variant, rnd))
        if v.violations:
            break
    t.write(ASSUME + ["An optional field, a tried variant and a magic of a unit enum may absorb a reader's error."])


CHECKS["C16"] = (c16, "fault_enumeration")


# ------------------------------------------------------------------ C17
EXTREME = [b"\xff" * 8, b"\xff\xff\xff\x7f", b"\x7f\xff\xff\xff", b"\x7f" + b"\xff" * 7, b"\xff" * 7 + b"\x7f", b"\x80" + bytes(7), bytes(7) + b"\x80",
           b"\x00\x00\x00\x80", b"\x80\x00\x00\x00", b"\xff\xff", b"\x00\xff", b"\xff\x00", b"\x40\x00\x00\x00", b"\x00\x00\x00\x40", bytes(8), b"\xfe" + b"\xff" * 7,
           b"\xff" * 16, b"\x10\x00\x00\x00\x00\x00\x00\x00", b"\x00\x00\x00\x00\x00\x00\x00\x10"]


def hostile(progs, rng, n):
    out = []
    for p in progs:
        for i in range(n):
            base = 0
            c = {"prog": p.name, "endian": rng.randrange(3), "base": base, "start": base + rng.choice((0, 0, 1, 7)), "mode": 0,
                 "offset": rng.choice((0, 0, 3, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)), "limit": 300000, "short": rng.choice((0, 0, 0, 1, 255))}
            style = rng.randrange(8)
            if style == 0:
                data = bytes(rng.randrange(256) for _ in range(rng.randrange(100)))
            elif style == 1:
                data = bytes([rng.choice((0, 1, 255, 0x7f, 0x80))]) * rng.randrange(100)
            else:
                mem = M.LazyMem(base, rng, 100)
                rd_limit, M.Reader.LIMIT = M.Reader.LIMIT, 3000
                try:
                    M.run(p, dict(c, offset=0), mem)
                except (M.Unspecified, OverflowError, RecursionError, MemoryError, ValueError):
                    pass
                finally:
                    M.Reader.LIMIT = rd_limit
                data = bytearray(mem.freeze()[:150])
                for _ in range(rng.choice((0, 1, 1, 2, 3))):
                    e = rng.choice(EXTREME)
                    at = rng.randrange(len(data) + 1)
                    data[at:at + len(e)] = e
                data = bytes(data[:160])
            c["data"] = data
            out.append(c)
    return out


# what a single value may hold, per byte of input: the largest generated item
PER_BYTE = 6000
FLAT = 1 << 17


def judge_hostile(p, c, o):
    if o.crash:
        return "executor died: " + o.crash
    if o.kind == "P":
        if o.text == "?":
            return "more than %d reader operations for %d bytes of input" % (c["limit"], len(c["data"]))
        return "panicked: " + o.text
    bound = FLAT + PER_BYTE * (len(c["data"]) + 1) + 200 * o.ops
    if o.peak > bound:
        return "allocated %d bytes for %d bytes of input and %d operations" % (o.peak, len(c["data"]), o.ops)


RAW_COUNTS = dict(raw=.75, modes={"vec": 7, "count": 4, "read_bytes": 5, "separated": 3, "separated_trailing": 3, "read": 8, "until": .5, "until_exclusive": .5,
                                  "until_eof": .5, "ptrparse": 0, "try": .5},
                  tys={"ptr": .3, "spy": 0, "nstr": .5, "nwstr": .5, "arr": .7, "prim": 9, "unit": 0, "phantom": 0}, depth=2, nfields=(1, 4), restore=0, seek_before=0,
                  pad_before=0, pad_after=0, align_before=0, align_after=0, pad_size_to=0, if_=0, offset=0, offset_after=0, arr_n=(0, 1, 2, 3, 4, 8),
                  prims=["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128"], generic=0)
RAW_MOVES = dict(raw=.7, modes={"vec": 0, "count": 0, "read_bytes": .5, "separated": 0, "separated_trailing": 0, "until": 0, "until_exclusive": 0, "until_eof": 0},
                 pad_before=.25, pad_after=.25, align_before=.15, align_after=.15, pad_size_to=.25, seek_before=.2, offset=.2, offset_after=.15, restore=.1,
                 tys={"ptr": 3, "spy": 0})


def c17(v):
    t = Tally(v, [], rule="A generated program whose counts, paddings, alignments, offsets and seeks come straight from the data, on random, constant and "
              "well-formed but then corrupted data with extreme values; distinct by program, outcome, and size class of operations and allocation.")
    worst = 0
    for rnd in rounds(BUDGET):
        for what, over, variant, n in (("counts", RAW_COUNTS, "std", 260), ("counts", RAW_COUNTS, "nostd", 80), ("counts", RAW_COUNTS, "all", 60),
                                       ("moves", RAW_MOVES, "std", 200), ("moves", RAW_MOVES, "dbg", 60)):
            rng = sub_rng(v.prop, what + variant, rnd)
            prof = mix(**over)
            if "cg" in variant or variant == "all":
                prof["cg"] = True
            progs = core.programs(rng, prof, n, accept=(lambda p: not any(
                isinstance(f.ty, (S.Vec, S.Punct)) and G.Gen(rng, prof, "x").zero_sized(f.ty.t) for d in p.defs for f in G.all_fields(d))))
            cs = hostile(progs, rng, 40)
            exe, gone = core.build_programs("C17-" + what, progs, variant=variant)
            by = {p.name: p for p in progs}
            for name, msg in list(gone.items())[:5]:
                v.violation("a program of documented directives is rejected by the compiler (%s): %s" % (variant, first_line(msg)), msg)
            obs = core.execute(exe, cs)
            t.programs += len(exe)
            bad = Counter()
            for c, o in zip(cs, obs):
                if o is None or o.crash and o.crash.startswith("skipped"):
                    continue
                t.evals += 1
                t.nontrivial_evals += 1
                t.variants[variant] += 1
                d = judge_hostile(by[c["prog"]], c, o)
                if not o.crash:
                    worst = max(worst, o.peak)
                    t.outcomes[{"K": "ok", "E": o.text.split(":")[0].split("@")[0][:12], "P": "panic"}[o.kind]] += 1
                    t.sigs.add((what, c["prog"], o.kind, o.text[:12], o.ops.bit_length(), o.peak.bit_length()))
                    if len(t.samples) < 3 and o.ops > 60:
                        t.samples.append({"case": R.case_line(0, c)[:300], "observed": o.brief()[:200], "operations": o.ops, "peak": o.peak})
                if d:
                    bad[c["prog"]] += 1
                    if bad[c["prog"]] <= 2:
                        v.violation("[%s] %s" % (variant, d), core.replay_text(by[c["prog"]], c, d))
        special(["work"], ("std", "nostd"))(v, t, rnd)
        if v.violations:
            break
    t.extra["largest_allocation"] = worst
    t.write(["Items of counted collections occupy input, and types do not contain themselves through pointers.",
             "The bound on memory is %d + %d per byte of input + 200 per reader operation." % (FLAT, PER_BYTE)])


CHECKS["C17"] = (c17, "exploration")
