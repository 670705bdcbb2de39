"""C20: debug templates."""
import os
import re
import subprocess
import tempfile

from . import build as B
from . import core
from . import model as M
from . import run as R
from . import spec as S
from .checks import ASSUME, BUDGET, CHECKS, fixed_cases
from .sweep import *

ENTRY = re.compile(r"(.*) (\S+?)(?:\[(\d+)\])?<bgcolor=0x[0-9A-Fa-f]{6}>;")
START = re.compile(r"struct (\w+)_(\d+) \{")
END = re.compile(r"\} (\S+);")
AUTO = re.compile(r"var\d+")


TYPEDEF = re.compile(r"typedef +((?:unsigned +)?\w+) +(\w+);")
# the number types of 010 Editor, and those which a template has to declare itself
BUILTIN = dict((n, k) for k, names in {
    "i8": "char byte CHAR BYTE", "u8": "uchar ubyte UCHAR UBYTE", "i16": "short int16 SHORT INT16",
    "u16": "ushort uint16 USHORT UINT16 WORD", "i32": "int int32 long INT INT32 LONG",
    "u32": "uint uint32 ulong UINT UINT32 ULONG DWORD", "i64": "int64 __int64 quad QUAD INT64 __int64",
    "u64": "uint64 uquad UQUAD UINT64 QWORD __uint64", "f32": "float FLOAT", "f64": "double DOUBLE"}.items()
    for n in names.split())
BUILTIN.update({"unsigned char": "u8", "unsigned short": "u16", "unsigned int": "u32", "unsigned __int64": "u64"})
NUMBER = {k: k for k in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64")}


def parse(text, strict):
    """The entries of a template: (kind, order, position, type, name, count)."""
    lines = text.split("\n")
    out = []
    i = 0
    order = None
    while i < len(lines):
        l = lines[i]
        i += 1
        if l == "BigEndian();":
            order = "big"
        elif l == "LittleEndian();":
            order = "little"
        elif l.startswith("FSeek(0x") and l.endswith(");"):
            pos = int(l[8:-2], 16)
            m = ENTRY.fullmatch(lines[i]) if i < len(lines) else None
            if not m:
                return None, "no declaration behind %r" % l
            i += 1
            out.append(("array" if m.group(3) is not None else "value", order, pos, m.group(1), m.group(2),
                        int(m.group(3)) if m.group(3) is not None else None))
        elif START.fullmatch(l):
            out.append(("{", None, None, None, START.fullmatch(l).group(1), int(START.fullmatch(l).group(2))))
        elif END.fullmatch(l):
            out.append(("}", None, None, None, END.fullmatch(l).group(1), None))
        elif l == "" or l.startswith("//"):
            pass
        elif strict:
            return None, "line %r" % l
    return out, None


def fits(w, g):
    kind, endian, pos, ty, name, count, _ = w
    if kind != g[0]:
        return False
    if isinstance(name, tuple):
        if g[4] != name[1] and not (g[4] == "root" if kind == "}" else AUTO.fullmatch(g[4])):
            return False
        name = g[4] if kind in "{}" or not AUTO.fullmatch(g[4]) else None
    if kind in "{}":
        return name == g[4]
    if endian == "native":
        endian = "little"
    if g[1] != endian or g[2] != pos or g[5] != count:
        return False
    if ty is not None and g[3] != ty:
        return False
    return g[4] == name if name is not None else AUTO.fullmatch(g[4]) is not None


def match(want, got):
    """None, or the first place where a template cannot be explained by the reads.

    Optional entries (elements of a collection which is itself listed) may be left out."""
    # the places in `got` which are reachable after each wanted entry
    at = {0}
    for n, w in enumerate(want):
        nxt = {i + 1 for i in at if i < len(got) and fits(w, got[i])}
        if w[6]:
            nxt |= at
        if not nxt:
            i = max(at)
            return "entry %d: expected %s, written %s" % (i, w[:6], got[i] if i < len(got) else "nothing")
        at = nxt
    if len(got) not in at:
        i = max(at)
        return "entry %d: written %s, although nothing more was read" % (i, got[i])
    return None


def check_template(t):
    def post(c, o):
        x = c["expect"]
        text = o.template.replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t").replace("\\\\", "\\")
        types, body = {}, text
        while body and (body[:1] == "\n" or body.startswith("typedef ") or (body.startswith("//") and not body.startswith("// Error"))):
            line, _, body = body.partition("\n")
            m = TYPEDEF.fullmatch(line)
            if m:
                types[m.group(2)] = BUILTIN.get(" ".join(m.group(1).split()))
            elif line.startswith("typedef "):
                return "template: the line %r" % line
        clean = x.ok is not None and not x.absorbed
        if x.err is not None and not x.absorbed and o.display.count("|") == 1 and x.in_struct:
            notes = [l[10:] for l in body.split("\n") if l.startswith("// Error: ")]
            dbg = o.display.split("|")[1].replace("\\n", "\n").replace("\\\\", "\\")
            if "\n" not in dbg:
                t.extra["error_notes"] = t.extra.get("error_notes", 0) + len(notes)
                if [n for n in notes if dbg not in (n, "Io(%s)" % n)]:
                    return "the error %r is noted as %r" % (dbg[:200], notes)
        got, why = parse(body, clean)
        if got is None:
            return "template does not parse: %s" % why
        for ty in set(g[3] for g in got if g[0] not in "{}"):
            if ty in NUMBER and ty not in types:
                return "template: the type %s is used and not declared" % ty
            if ty in NUMBER and types[ty] != NUMBER[ty]:
                return "template: the type %s is declared as %s" % (ty, types[ty])
        want = x.template
        if not clean:
            want = [w for w in want if w[0] not in "{}"]
            got = [g for g in got if g[0] not in "{}"]
        else:
            ids = [g[5] for g in got if g[0] == "{"]
            if len(set(ids)) != len(ids):
                return "two structures of the template have the same name"
            t.extra["structures_matched"] = t.extra.get("structures_matched", 0) + len(ids)
        t.extra["templates"] = t.extra.get("templates", 0) + 1
        t.extra["entries_matched"] = t.extra.get("entries_matched", 0) + len(got)
        # one without the other: `1` and `0` of braces
        d = match([w if w[0] not in "{}" else w[:5] + (None, False) for w in want],
                  [g if g[0] not in "{}" else g[:5] + (None,) for g in got])
        if d:
            return "template: " + d + "\n" + body[:1500]
        return None
    return post


def c20_systematic(v, t, rnd):
    """One field of each kind: arrays and tuples of all sizes, each number type, each wrapper."""
    rng = sub_rng(v.prop, "systematic", rnd)
    allp = S.INTS + ["f32", "f64", "char"]
    for variant in ("dbg", "all"):
        progs = []

        def add(*tys):
            d = S.Struct("T", [S.Field("f%d" % i, ty) for i, ty in enumerate(tys)])
            for f in d.fields:
                if S.args_of(f.ty) == ("count",) or isinstance(f.ty, S.Vec):
                    f.count = S.C(rng.choice((0, 1, 2, 31, 32, 33, 70)))
            progs.append(S.Program("s%d" % len(progs), [d], S.Ref(d), []))
            if rng.random() < .4 or isinstance(tys[0], (S.NStr, S.NWStr, S.Arr, S.Vec)):
                # not a field: without a name
                progs.append(S.Program("s%d" % len(progs), [], tys[0], []))
        for q in allp:
            for w in (lambda a: a, S.Box, S.Opt, S.Pos, lambda a: S.Arr(a, 3), lambda a: S.Tup([a, S.Prim("u8"), a]),
                      lambda a: S.Arr(S.Tup([a, S.Prim("u8")]), 2), lambda a: S.Vec(a), lambda a: S.Vec(S.Arr(a, 2))):
                add(w(S.Prim(q)), S.Prim("u8"))
        for n in range(33):
            add(S.Arr(S.Prim(rng.choice(allp)), n), S.Prim(rng.choice(allp)))
        for n in range(1, 33):
            add(S.Tup([S.Prim(rng.choice(allp)) for _ in range(n)]), S.Prim("u8"))
        if variant == "all":
            for n in (33, 64, 65, 127, 128, 255, 256, 257, 1000, 4096):
                add(S.Arr(S.Prim(rng.choice(("u8", "u16", "i8"))), n), S.Prim("u8"))
        for w in (S.NStr, S.NWStr, S.NZ8, S.NZ16):
            add(S.Prim("u16"), w(), S.Prim("u8"), w())
            add(S.Vec(w()), S.Prim("u8"))
            add(S.Arr(w(), 2), S.Prim("u8"))
        for q in S.INTS:
            add(S.Ptr(q, S.Prim(rng.choice(allp))), S.Prim("u8"))

        def datas(p):
            for _ in range(3):
                yield bytes(rng.randrange(256) for _ in range(rng.choice((2, 40, 600, 20000)))), {"count": rng.choice((0, 1, 3, 33))}
            yield bytes(rng.randrange(1, 3) if i % 7 else 0 for i in range(20000)), {"base": 5, "start": 5, "count": 4}
        sweep(t, "each-kind", None, 0, 0, variant=variant, progs=progs, cases=fixed_cases(progs, datas, limit=1000000), rnd=rnd,
              args=["template", "1"], post=check_template(t))


def c20(v):
    t = Tally(v, ["struct", "variant_*"])
    wide = mix(tys={"prim": 10, "arr": 3, "tup": 2, "ptr": 2, "nstr": 1.5, "nwstr": 1.5, "def": 4, "pos": 1}, modes={"vec": 4}, field_magic=.1,
               bias=.85, if_=.1, roots={"def": 9, "ty": 1})
    big = 2 if core.tier() == "thorough" else 1
    for rnd in rounds(BUDGET):
        c20_systematic(v, t, rnd)
        for variant, n in (("dbg", 250), ("all", 80)):
            sweep(t, "text", wide, n * big, 40, dict(truncate=.15, mutate=.1, fault=.1), variant, rnd=rnd, args=["template", "1"],
                  post=check_template(t))
        # a sink that fails and no sink at all: the reads do not notice
        sweep(t, "failing", mix(), 80 * big, 40, None, "dbg", rnd=rnd, args=["template", "2"])
        progs, cs, obs, exe = sweep(t, "none", mix(), 80 * big, 40, None, "dbg", rnd=rnd)
        from_env(v, t, rnd, progs, cs, exe)
        if v.violations:
            break
    t.write(ASSUME)


def from_env(v, t, rnd, progs, cs, exe):
    """DEBUG_TEMPLATE=file: one process, one file, everything that was read."""
    by = {p.name: p for p in progs}
    with tempfile.TemporaryDirectory() as d:
        for n in range(12):
            c = cs[sub_rng(v.prop, "env%d" % n, rnd).randrange(len(cs))]
            if c["prog"] not in exe:
                continue
            path = os.path.join(d, "t%d.bt" % n)
            o = R.Exec(exe[c["prog"]], extra_env={"DEBUG_TEMPLATE": path}).run([c])[0]
            t.evals += 1
            dd = core.compare(c, o, c["expect"], EVERYTHING)
            if dd is None:
                text = open(path, errors="replace").read() if os.path.exists(path) else ""
                want = c["expect"].template
                if not text and not want:
                    continue
                o.template = text.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")
                dd = check_template(t)(c, o)
            if dd:
                v.violation("[DEBUG_TEMPLATE] " + dd, core.replay_text(by[c["prog"]], c, dd))


CHECKS["C20"] = (c20, "exploration")
