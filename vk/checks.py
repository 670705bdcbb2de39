"""The checks, one per property."""
import os
import random
import sys
import traceback

from . import build as B
from . import core
from . import gen as G
from . import model as M
from . import run as R
from . import spec as S
from .special import chain, special
from .sweep import *

CHECKS = {}
BUDGET = 690     # seconds of the thorough tier


def check(prop, level="exploration"):
    def deco(f):
        CHECKS[prop] = (f, level)
        return f
    return deco


def standard(prop, profile, focus, src=None, opts=None, plan=None, ncase=40, extra=None, assumptions=()):
    """A property which is decided by comparing executions with the reference."""
    plan = plan or [("std", 700), ("dbg", 150), ("nostd", 150)]

    def f(v):
        t = Tally(v, focus)
        for rnd in rounds(BUDGET):
            for variant, n in plan:
                sweep(t, "main", profile, n * (2 if core.tier() == "thorough" else 1), ncase, opts, variant, src, rnd=rnd)
            if extra:
                extra(v, t, rnd)
            if v.violations:
                break
        t.write(assumptions or ASSUME)
    CHECKS[prop] = (f, "exploration")
    return f


ASSUME = [
    "The reference semantics in vk/model.py, written from the documentation, is what the directives mean.",
    "The generated programs are representative of users' types; their number is finite.",
]

F_READS = ["struct", "variant_*"]

standard("C01", mix(field_assert=.2, assert_=.25, field_magic=.15, top_magic=.2, pre_assert=.15, pad_after=.12, seek_before=.08, restore=.12,
                    offset=.1, deref_now=.1, modes={"try": 1.5, "until_eof": .6, "until": .8, "ptrparse": 1}, bias=.65),
         ["fail_after_progress"], opts=dict(truncate=.35, mutate=.3, fault=.25), ncase=50
         )

standard("C03", mix(tys={"prim": 12, "spy": 2, "nwstr": 1.5, "def": 5, "nstr": .1},
                    prims=[p for p in S.INTS if p[1:] != "8"] + ["f32", "f64"],
                    field_endian=.4, cond_endian=.5, top_endian=.5, variant_endian=.5, field_magic=.2, top_magic=.25,
                    magics={"int": 6, "f32": 1, "f64": 1}),
         ["struct", "variant_*", "uvariant", "mapped", "cond_endian_*"], src=r"\b(big|little|is_big|is_little)\b")

standard("C04", mix(field_magic=.45, top_magic=.6, variant_magic=.7, modes={"calc": 1.5, "default": 1.5}, uenum=1,
                    forms={"uenum": 2.5, "enum": 4, "topmap": 2}),
         ["magic_ok", "magic_bad", "uvariant", "no_uvariant"], src=r"\bmagic\b", opts=dict(mutate=.2, truncate=.2))


def c05_known(v, t, rnd):
    if rnd:
        return
    src = S.Render.PRELUDE + """
#[derive(BinRead)]
#[br(assert(rt::evb(1, 1u8 > 2u8), "never"))]
pub enum E { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B(u8) }
impl rt::Dump for E { fn dump(&self, o: &mut String) { match self { E::A => o.push_str("V0"), E::B(x) => { o.push_str("V1"); rt::parts!(o; x) } } } }
pub fn run(c: &rt::Case) -> rt::Obs { rt::run::<E>(c, ()) }
"""
    p = S.Program("known", [], S.Unit(), [])
    exe, gone = core.build_programs("C05-known", [p], render=lambda p: src)
    if gone:
        v.violation("the assertion probe does not compile", list(gone.values())[0])
        return
    o = core.execute(exe, [{"prog": "known", "endian": 0, "base": 0, "start": 0, "data": b"\x01\x07"}, 
                           {"prog": "known", "endian": 0, "base": 0, "start": 0, "data": b"\x02\x07"}])
    t.evals += 2
    known = core.known_findings("C05")
    if o[0].kind == "K" and o[0].text == "V0":
        k = "enum-level assert on a unit variant of a data enum"
        if k in known:
            v.known.append(k + " is not checked: bytes 01 give E::A although the enum's assertion is false")
        else:
            v.violation(k + " is not checked", src)
    elif o[0].kind != "E":
        v.violation("enum-level assertion: " + o[0].brief(), src)
    if o[1].kind != "E" or "Enum@0[A:Magic@0<u8:2>;B:Assert@0" not in o[1].text:
        v.violation("enum-level assertion on a data variant: " + o[1].brief(), src)


def c05_extra(v, t, rnd):
    c05_known(v, t, rnd)
    special(["asserts"], ("std", "nostd"))(v, t, rnd)


standard("C05", mix(field_assert=.45, nasserts=2, assert_=.6, pre_assert=.4, variant_assert=.6, variant_pre=.4, enum_assert=.5,
                    kinds={"unit": 1.5}),
         ["assert_ok", "assert_fail_*"], src=r"\b(assert|pre_assert)\(", extra=c05_extra)

standard("C06", mix(many_variants=.08, forms={"enum": 14, "struct": 4, "uenum": 1, "topmap": .5}, nvariants=(1, 5), variant_magic=.6, variant_pre=.35,
                    variant_assert=.35, nfields=(1, 3), tys={"def": 4}),
         ["variant_*", "no_variant"], src=r"pub enum .*\{", opts=dict(mutate=.25, truncate=.2))

standard("C09", mix(modes={"try": 14, "read": 5, "map": 2, "closure": 2, "custom": 4, "until": 1}, map_try=.7, parse_try=.6, custom_map=.5, field_magic=.1, tys={"def": 8, "ptr": 7, "opt": 1.5}, field_assert=.25, top_magic=.3, assert_=.4,
                    restore=.1, pad_after=.12, nfields=(1, 4), deref_now=.1),
         ["try_some", "try_none", "try_none_moved"], src=r"\btry\b", opts=dict(offsets=.6, truncate=.3, mutate=.25, fault=.15))

standard("C10", mix(huge=.05, pad_before=.3, pad_after=.3, align_before=.3, align_after=.3, pad_size_to=.3, seek_before=.25, pad_negative=.2,
                    restore=.15, prims=S.INTS, tys={"prim": 12, "nstr": 2}, modes={"read_bytes": 1.5}),
         ["pad_*", "align_*", "seek_*"], src=r"\b(pad_|align_|seek_before)", opts=dict(truncate=.1, fault=.05))

standard("C11", mix(if_=.4, temp=.25, restore=.3, modes={"calc": 6, "default": 4, "read": 8, "vec": 1.5}, default_types=.5, calc_try=.2,
                    attr_macro=.2),
         ["if_*", "calc", "default", "restore_*"], src=r"\b(if\(|calc|default|ignore|temp|restore_position)\b|if\(",
         opts=dict(truncate=.1))

standard("C12", mix(imports=.95, hostile=.5, root_args=1, tys={"def": 8, "spy": 3, "prim": 5, "arr": 3, "box": 2, "opt": 2, "ptr": 2.5, "pos": 2},
                    modes={"vec": 4, "try": 1.5, "closure": 1, "ptrparse": 1, "count": 1, "until": 1}, depth=3, uenum_imports=.9),
         ["struct", "variant_*", "uvariant", "mapped"], src=r"\b(args|args_tuple)\b", opts=dict(truncate=.1))

standard("C13", mix(modes={"map": 12, "custom": 2, "closure": 2, "read": 5}, forms={"topmap": 6}),
         ["mapped", "try_map_fail", "custom", "parse_closure"], src=r"\b(map|try_map|parse_with)\b", opts=dict(truncate=.1), extra=special(["maps"], ("std", "nostd")))

standard("C26", mix(tys={"spy": 9, "prim": 5, "def": 5, "arr": 3, "tup": 3, "box": 2, "opt": 2, "ptr": 2, "pos": 2},
                    modes={"vec": 4, "count": 1.5, "until_eof": .5, "separated": 1, "ptrparse": 1, "closure": 1, "read": 8, "try": 1.5},
                    field_endian=.3, offset=.3, offset_after=.1, deref_now=.15, top_endian=.3, variant_endian=.3, spy_count=.4, depth=3),
         ["struct", "variant_*"], src=r"Spy", opts=dict(counts=1, offsets=1, truncate=.1), extra=special(["nested"], ("std", "nostd")))

standard("C27", mix(tys={"pos": 10, "prim": 6, "def": 4, "nstr": 1, "ptr": 2}, seek_before=.15, pad_before=.15, restore=.15, align_before=.1),
         ["struct", "variant_*"], src=r"PosValue", opts=dict(truncate=.1), extra=special(["posval"], ("std", "nostd")))

standard("C28", mix(truncate=0), ["struct", "variant_*"], opts=dict(truncate=.0, mutate=.05, fault=0), extra=special(["edges"], ("std", "nostd")))

standard("C29", mix(bias=.5, many_variants=.12, field_assert=.25, assert_=.3, forms={"enum": 6}, variant_magic=.6, top_magic=.3, field_magic=.2, tys={"def": 5}),
         ["assert_fail_*", "magic_bad", "no_variant", "no_uvariant", "try_map_fail", "fail_*"],
         opts=dict(mutate=.35, truncate=.25, fault=.2), extra=special(["errors"], ("std", "nostd")))



# ------------------------------------------------------------------ C02
def fixed_cases(progs, datas, endians=(0, 1, 2), **kw):
    """The same inputs for every program: datas(prog) gives (data, extra keys)."""
    out = []
    M.Reader.LIMIT = 200000
    for p in progs:
        for data, more in datas(p):
            for e in endians:
                c = dict({"prog": p.name, "endian": e, "base": 0, "start": 0, "data": data, "mode": 0}, **dict(kw, **more))
                try:
                    x = M.run(p, c)
                except (M.Unspecified, OverflowError, RecursionError):
                    continue
                c["expect"], c["sig"] = x, (tuple(x.path), e, x.err.kind if x.err else "", len(data), more.get("count"))
                out.append(c)
    M.Reader.LIMIT = 20000
    return out


def size_of(t):
    if isinstance(t, S.Prim):
        return S.PRIMS[t.n][0]
    if isinstance(t, S.Arr):
        return t.n * size_of(t.t)
    if isinstance(t, S.Tup):
        return sum(size_of(x) for x in t.ts)
    if isinstance(t, (S.Box, S.Opt, S.Pos, S.Tracked)):
        return size_of(t.t)
    if isinstance(t, S.Spy):
        return 1
    return 0


def prim_patterns(rng, n):
    out = [bytes(range(1, n + 1)), bytes(n), b"\xff" * n]
    for i in range(n):
        out += [bytes(0x80 if j == i else 0 for j in range(n)), bytes(1 if j == i else 0 for j in range(n)),
                bytes(0x7f if j == i else 0xff for j in range(n))]
    return out + [bytes(rng.randrange(256) for _ in range(n)) for _ in range(12)]


def c02_systematic(v, t, rnd):
    rng = sub_rng(v.prop, "systematic", rnd)
    progs, n = [], [0]

    def add(root):
        n[0] += 1
        progs.append(S.Program("s%d" % n[0], [], root, []))
    allp = S.INTS + ["f32", "f64", "char"]
    for q in allp:
        add(S.Prim(q))
    k = n[0]
    for q in allp:
        for w in (S.Box, S.Opt, S.Pos, S.Vec):
            add(w(S.Prim(q)))
    for q in ("u8", "u16", "i32", "u64", "f32", "char"):
        add(S.Arr(S.Prim(q), rng.randrange(1, 32)))
    for i in range(33):
        add(S.Arr(S.Prim(rng.choice(("u8", "u16", "i16", "u32"))), i))
    for i in range(1, 33):
        add(S.Tup([S.Prim(rng.choice(allp)) for _ in range(i)]))
    add(S.Tup([S.Prim("u8")] * 32))
    add(S.Unit())
    add(S.Phantom())
    add(S.NZ8())
    add(S.NZ16())
    for root in (S.Vec(S.Arr(S.Prim("u16"), 3)), S.Vec(S.Box(S.Opt(S.Prim("u8")))), S.Arr(S.Tup([S.Prim("u8"), S.Prim("u32")]), 5),
                 S.Box(S.Box(S.Prim("u32"))), S.Opt(S.Opt(S.Prim("u8"))), S.Arr(S.Arr(S.Prim("u16"), 4), 4), S.Vec(S.Unit()),
                 S.Tup([S.Tup([S.Prim("u8"), S.Prim("u16")]), S.Arr(S.Prim("u32"), 2)]), S.Vec(S.Tup([S.Prim("i8"), S.Prim("f64")]))):
        add(root)

    def rnd_bytes(n):
        return bytes(rng.randrange(256) for _ in range(n))

    def datas(p):
        root = p.root
        if isinstance(root, S.Prim):
            m = size_of(root)
            if m == 1:
                for b in range(256):
                    yield bytes([b, 0x55]), {}
            if root.n in ("u16", "i16") and rnd == 0:
                for b in range(0, 65536, 251):
                    yield b.to_bytes(2, "big"), {}
            for d in prim_patterns(rng, m):
                yield d, {}
                yield d + b"\x99", {"base": 3, "start": 4, "short": 1}
            for i in range(m):
                yield bytes(range(i)), {"short": rng.choice((0, 1, 255))}
            return
        if isinstance(root, S.Vec):
            m = size_of(root.t)
            for c in (0, 1, 2, 3, 15, 16, 17, 255, 256, 257, 300, 1000, 4096, 4097):
                if c * m < 9000:
                    yield rnd_bytes(c * m + rng.choice((0, 3))), {"count": c, "short": rng.choice((0, 255))}
                    if c * m:
                        yield rnd_bytes(rng.randrange(c * m)), {"count": c}
            if isinstance(root.t, S.Prim) and root.t.n in ("u8", "i16", "u16", "char"):
                yield rnd_bytes(70000 * m), {"count": 70000, "endian": 1, "limit": 1000000}
            return
        if isinstance(root, (S.NZ8, S.NZ16)):
            for m in (0, 1, 2, 7, 300, 5000):
                d = bytes(rng.randrange(1, 256) for _ in range(2 * m))
                yield d + b"\0\0", {"short": rng.choice((0, 1, 255))}
                yield d, {}
                yield d + b"\0", {}
            return
        m = size_of(root)
        for _ in range(6):
            yield rnd_bytes(m + rng.choice((0, 1, 9))), {"short": rng.choice((0, 0, 1, 2, 255)), "intr": rng.choice((0, 0, 2))}
        for _ in range(2):
            if m:
                yield rnd_bytes(rng.randrange(m)), {}
    for variant in ("std", "nostd", "all"):
        cs = fixed_cases(progs, datas)
        sweep(t, "systematic", None, 0, 0, variant=variant, progs=progs, cases=cs, rnd=rnd)
    big = [S.Program("b%d" % i, [], S.Arr(S.Prim(q), m), []) for i, (q, m) in enumerate(
        (("u8", 33), ("u16", 64), ("u32", 100), ("u8", 257), ("u8", 1000), ("i128", 40), ("f64", 33), ("char", 50)))]
    cs = fixed_cases(big, datas)
    sweep(t, "large", None, 0, 0, variant="cg", progs=big, cases=cs, rnd=rnd)


standard("C02", mix(tys={"prim": 14, "arr": 5, "tup": 5, "box": 3, "opt": 3, "def": 5, "nz8": .5, "nz16": .5, "pos": 1}, depth=4,
                    modes={"vec": 5, "read": 12}, roots={"def": 3, "ty": 2}, nfields=(1, 6), count_hi=12),
         ["struct", "variant_*", "read_*"], extra=c02_systematic, plan=[("std", 300), ("cg", 120), ("nostd", 60)],
         opts=dict(counts=1, count_hi=12))


# ------------------------------------------------------------------ C07
def c07_exhaustive(v, t, rnd):
    rng = sub_rng(v.prop, "exhaustive", rnd)
    progs = []
    for i, r in enumerate(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u8", "i8", "u128", "i128"] * 3):
        size, signed = S.PRIMS[r]
        lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
        if size == 16:
            # discriminants are of the type isize
            lo, hi = max(lo, -1 << 63), (1 << 63) - 1
        d = S.UnitEnum("U", [], r)
        vals = set()
        cur = -1
        for j in range(rng.randint(1, 40 if size == 1 else 12)):
            disc = None
            if rng.random() < .5 or not lo <= cur + 1 <= hi or cur + 1 in vals:
                disc = rng.choice((lo, hi, 0, 1, hi - 1, rng.randint(lo, hi)))
                if disc in vals:
                    continue
            val = cur + 1 if disc is None else disc
            vals.add(val)
            cur = val
            x = S.UVariant("V%d" % j, disc)
            x.value = val
            d.variants.append(x)
        progs.append(S.Program("x%d" % i, [d], S.Ref(d), []))

    def datas(p):
        d = p.root.d
        size = S.PRIMS[d.repr][0]
        if size == 1:
            for b in range(256):
                yield bytes([b]), {}
            return
        for x in d.variants:
            for w in [x.value, x.value + 1, x.value - 1, x.value & 0xFF, x.value + (1 << 8 * size - 8)] + [x.value ^ 1 << k for k in range(8 * size)]:
                for order in ("big", "little"):
                    yield (w & (1 << 8 * size) - 1).to_bytes(size, order), {}
        for i in range(size):
            yield bytes(i), {}
    for variant in ("std", "nostd"):
        sweep(t, "exhaustive", None, 0, 0, variant=variant, progs=progs, cases=fixed_cases(progs, datas), rnd=rnd)


standard("C07", mix(forms={"uenum": 14, "struct": 4, "enum": 2, "topmap": .3}, tys={"def": 8}, uenum_imports=.4, variant_pre=.25,
                    top_magic=.35, top_endian=.35),
         ["uvariant", "no_uvariant"], src=r"pub enum U", opts=dict(mutate=.3, truncate=.2), extra=c07_exhaustive)


# ------------------------------------------------------------------ C08
standard("C08", mix(tys={"ptr": 10, "prim": 8, "def": 5, "spy": 3, "arr": 3, "tup": 2, "box": 2, "opt": 2, "pos": 1.5},
                    modes={"ptrparse": 3, "vec": 4, "read": 9, "closure": .5, "until": .6, "separated": .8, "count": .8, "try": 1.5},
                    offset=.3, offset_after=.25, deref_now=.25, depth=3, spy_count=.2, if_=.1, restore=.1),
         ["deref", "struct"], src=r"FilePtr|Spy", opts=dict(offsets=1, counts=.5, truncate=.12), extra=special(["ptrapi"], ("std", "nostd")))

# ------------------------------------------------------------------ C14
standard("C14", mix(modes={"vec": 5, "count": 5, "until": 4, "until_exclusive": 4, "until_eof": 3, "read_bytes": 4, "separated": 2.5,
                           "separated_trailing": 2.5, "read": 8}, count_hi=9, bytes_hi=40, tys={"def": 5, "spy": 2, "ptr": 2}, depth=3,
                    field_endian=.12, spyargs=1),
         ["until*", "count", "read_bytes", "separated*", "vec"], src=r"helpers|count|separated|Punctuated|Vec", opts=dict(counts=.8, truncate=.2),
         extra=chain(special(["ptrapi"]), special(["counts"], ("std", "nostd"))))

standard("C15", mix(tys={"nstr": 9, "nwstr": 9, "prim": 4, "def": 4, "arr": 2, "tup": 2, "box": 1, "opt": 1, "ptr": 1.5, "pos": 1},
                    field_endian=.2, top_endian=.2, modes={"vec": 3, "try": 2}),
         ["struct", "variant_*"], src=r"Null(Wide)?String", opts=dict(truncate=.3), extra=special(["strings"], ("std", "nostd", "dbg")))

standard("C22", mix(roots={"def": 6, "ty": 6}, tys={"prim": 8, "ptr": 5, "def": 3, "pos": 2, "nstr": 1}), None, opts=dict(mode_choices=list(range(12))), plan=[("std", 300), ("dbg", 100), ("cg", 100), ("nostd", 200)], ncase=60,
         extra=special(["entry"], ("std", "nostd")))


def main(argv):
    prop = argv[1]
    from . import every
    f, level = CHECKS[prop]
    v = core.Verdict(prop, level)
    try:
        f(v)
    except B.BuildError as e:
        v.inconclusive = "build: " + str(e)[:1500]
    return v.finish()
