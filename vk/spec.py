"""The abstract syntax of generated programs: types, expressions, directives.

A program is a set of type definitions in terms of the documented directives.
It is rendered twice: to Rust source (here), which the real derive macro and
library execute, and to a reference run (model.py), which never looks at the
Rust code.
"""
import random

M64 = (1 << 64) - 1

PRIMS = {
    "u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False), "u128": (16, False),
    "i8": (1, True), "i16": (2, True), "i32": (4, True), "i64": (8, True), "i128": (16, True),
    "f32": (4, None), "f64": (8, None), "char": (1, None),
}
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]


# ------------------------------------------------------------------ types
class Ty:
    pass


class Prim(Ty):
    def __init__(self, n):
        self.n = n

    def rust(self):
        return self.n


class Unit(Ty):
    def rust(self):
        return "()"


class Phantom(Ty):
    def rust(self):
        return "core::marker::PhantomData<u8>"


class Arr(Ty):
    def __init__(self, t, n):
        self.t, self.n = t, n

    def rust(self):
        return "[%s; %d]" % (self.t.rust(), self.n)


class Tup(Ty):
    def __init__(self, ts):
        self.ts = ts

    def rust(self):
        return "(" + "".join(t.rust() + ", " for t in self.ts) + ")"


class Vec(Ty):
    def __init__(self, t, coll="Vec"):
        self.t, self.coll = t, coll

    def rust(self):
        return "%s<%s>" % (self.coll, self.t.rust())


class Box(Ty):
    def __init__(self, t):
        self.t = t

    def rust(self):
        return "Box<%s>" % self.t.rust()


class Opt(Ty):
    def __init__(self, t):
        self.t = t

    def rust(self):
        return "Option<%s>" % self.t.rust()


class Ptr(Ty):
    def __init__(self, p, t, alias=False):
        self.p, self.t, self.alias = p, t, alias

    def rust(self):
        if self.alias and self.p[0] == "u":
            return "FilePtr%s<%s>" % (self.p[1:], self.t.rust())
        return "FilePtr<%s, %s>" % (self.p, self.t.rust())


class Pos(Ty):
    def __init__(self, t):
        self.t = t

    def rust(self):
        return "PosValue<%s>" % self.t.rust()


class NStr(Ty):
    def rust(self):
        return "NullString"


class NWStr(Ty):
    def rust(self):
        return "NullWideString"


class NZ8(Ty):
    def rust(self):
        return "Vec<core::num::NonZeroU8>"


class NZ16(Ty):
    def rust(self):
        return "Vec<core::num::NonZeroU16>"


class Punct(Ty):
    def __init__(self, t, p):
        self.t, self.p = t, p

    def rust(self):
        return "Punctuated<%s, %s>" % (self.t.rust(), self.p.rust())


class Spy(Ty):
    """rt::Spy: records the options it gets. n = number of arguments."""

    def __init__(self, n=0):
        self.nargs = n

    def rust(self):
        return ["rt::Spy", "rt::Spy1", "rt::Spy2"][self.nargs]


class Tracked(Ty):
    def __init__(self, t):
        self.t = t

    def rust(self):
        return "rt::Tracked<%s>" % self.t.rust()


class Ref(Ty):
    def __init__(self, d):
        self.d = d

    def rust(self):
        g = getattr(self.d, "generic", None)
        return "%s<%s>" % (self.d.name, g.rust()) if g else self.d.name


def can_default(t):
    if isinstance(t, (Prim, Unit, Phantom, Opt, NStr, NWStr, Spy, NZ8, NZ16)):
        return True
    if isinstance(t, Vec):
        return True
    if isinstance(t, (Box, Tracked)):
        return can_default(t.t)
    if isinstance(t, Arr):
        return t.n <= 32 and can_default(t.t)
    if isinstance(t, Tup):
        return len(t.ts) <= 12 and all(can_default(x) for x in t.ts)
    if isinstance(t, Ref):
        return t.d.can_default()
    return False


def args_of(t):
    """The import list which reading `t` needs."""
    if isinstance(t, (Arr, Vec, Box, Opt, Ptr, Pos, Tracked)):
        return args_of(t.t)
    if isinstance(t, Punct):
        return args_of(t.t)
    if isinstance(t, Spy):
        return [[], ["u32"], ["u8", "u16"]][t.nargs]
    if isinstance(t, Ref):
        return [ty for _, ty in t.d.imports]
    return []


# ------------------------------------------------------------------ exprs
class Ex:
    pass


class C(Ex):
    def __init__(self, v):
        self.v = v & M64

    def rust(self):
        return "%du64" % self.v

    def ev(self, env):
        return self.v


class V(Ex):
    """An earlier field or an import of an integer or char type."""

    def __init__(self, name, how="as"):
        self.name, self.how = name, how

    def rust(self):
        n = self.name
        return {"as": "(%s as u64)", "pos": "(%s.pos)", "len": "(%s.len() as u64)",
                "val": "(*%s as u64)"}[self.how] % n

    def ev(self, env):
        v = env[self.name]
        if self.how == "pos":
            return v.pos & M64
        if self.how == "len":
            return len(v.items)
        if self.how == "val":
            v = v.val
        if hasattr(v, "as_u64"):
            return v.as_u64()
        return v & M64


class Once(Ex):
    """An expression of a directive which tells that it was evaluated."""
    sink = []

    def __init__(self, eid, e):
        self.eid, self.e = ONCE + eid, e

    def rust(self):
        return "rt::evv(%d, %s)" % (self.eid, self.e.rust())

    def ev(self, env):
        Once.sink.append((self.eid, 0))
        return self.e.ev(env)


ONCE = 1000000


class B(Ex):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def rust(self):
        a, b = self.a.rust(), self.b.rust()
        if self.op in ("add", "sub", "mul"):
            return "%s.wrapping_%s(%s)" % (a, self.op, b)
        return "(%s %s %s)" % (a, {"xor": "^", "and": "&", "or": "|", "mod": "%", "shr": ">>"}[self.op], b)

    def ev(self, env):
        a, b = self.a.ev(env), self.b.ev(env)
        o = self.op
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "xor": lambda: a ^ b,
                "and": lambda: a & b, "or": lambda: a | b, "mod": lambda: a % b,
                "shr": lambda: a >> b}[o]() & M64


class Cmp:
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def rust(self):
        return "%s %s %s" % (self.a.rust(), self.op, self.b.rust())

    def ev(self, env):
        a, b = self.a.ev(env), self.b.ev(env)
        return {"<": a < b, ">": a > b, "==": a == b, "!=": a != b, "<=": a <= b, ">=": a >= b}[self.op]


class BoolC:
    def __init__(self, v):
        self.v = v

    def rust(self):
        return "true" if self.v else "false"

    def ev(self, env):
        return self.v


class Ev:
    """A logged condition."""

    def __init__(self, eid, c):
        self.eid, self.c = eid, c

    def rust(self):
        return "rt::evb(%d, %s)" % (self.eid, self.c.rust())


# ------------------------------------------------------------------ directives
class Assert:
    """kind: plain, msg, fmt, custom, customstr"""

    def __init__(self, cond, kind="plain", eid=0, ex=None, text=""):
        self.cond, self.kind, self.eid, self.ex, self.text = cond, kind, eid, ex, text

    def inner(self):
        c = self.cond.rust()
        if self.kind == "plain":
            return c
        if self.kind == "msg":
            return '%s, "%s"' % (c, self.text)
        if self.kind == "fmt":
            return '%s, "%s {}", rt::evv(%d, %s)' % (c, self.text, self.eid, self.ex.rust())
        if self.kind == "customstr":
            return '%s, rt::evv(%d, String::from("%s"))' % (c, self.eid, self.text)
        return "%s, rt::evv(%d, rt::CustomE(%d, %s))" % (c, self.eid, self.eid, self.ex.rust())


class Field:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.endian = None          # big | little | ("is_big", cond) | ("is_little", cond)
        self.magic = None           # Magic
        self.args = None            # list of Ex
        self.args_tuple = False
        self.mode = "read"          # read | calc | default | parse_with
        self.calc = None            # Ex
        self.parser = None          # (name, ...)
        self.count = None           # Ex
        self.offset = None
        self.offset_after = None
        self.if_ = None             # (Ev, alternate or None)
        self.deref_now = False
        self.restore = False
        self.try_ = False
        self.temp = False
        self.asserts = []
        self.pad_before = self.pad_after = self.align_before = self.align_after = None
        self.seek_before = None     # ("Start"|"Current"|"End", Ex)
        self.pad_size_to = None
        self.map = None             # Map
        self.hint = None            # (lo, hi): preferred values of an int field
        self.gen = False            # its type is written as T


class Map:
    """kind: map | try | tryio. src: type read; fn(value) -> target prim.

    The mapped value is `(x as u64).wrapping_mul(k).wrapping_add(e) as target`
    """

    def __init__(self, kind, src, dst, k, ex, eid, form="closure", cond=None):
        self.kind, self.src, self.dst, self.k, self.ex, self.eid = kind, src, dst, k, ex, eid
        self.form, self.cond = form, cond
        self.opt = False    # the field is tried: fn(Option<value>)

    def src_rust(self):
        return "Option<%s>" % self.src.rust() if self.opt else self.src.rust()

    def prefix(self):
        if not self.opt:
            return ""
        return "let x = x.map_or(7919u64, |x| %s); " % ("x as u64" if isinstance(self.src, Prim) else "{ let _ = x; 3 }")


class Magic:
    def __init__(self, kind, value):
        # kind: bytes | byte | char | int suffix | f32 | f64
        self.kind, self.value = kind, value

    def rust(self):
        k, v = self.kind, self.value
        if k == "bytes":
            return 'b"%s"' % "".join(chr(c) if 48 <= c < 123 and c != 92 else "\\x%02x" % c for c in v)
        if k == "byte":
            return "b'%s'" % (chr(v) if 48 <= v < 123 and v not in (92, 39) else "\\x%02x" % v)
        if k == "char":
            return "'%s'" % (chr(v) if 48 <= v < 123 and v not in (92, 39) else "\\u{%x}" % v)
        if k in ("f32", "f64"):
            return "%r%s" % (v, k)
        return "%d%s" % (v, k)

    def ty(self):
        if self.kind == "bytes":
            return Arr(Prim("u8"), len(self.value))
        return Prim({"byte": "u8"}.get(self.kind, self.kind))

    def typename(self):
        return "[u8;%d]" % len(self.value) if self.kind == "bytes" else self.ty().rust()


def lit(v, ty):
    """A literal of integer value v"""
    return "%d%s" % (v, ty)


# ------------------------------------------------------------------ definitions
class Def:
    def __init__(self, name):
        self.name = name
        self.endian = None
        self.magic = None
        self.imports = []           # [(name, prim)]
        self.import_tuple = None    # name of the tuple
        self.asserts = []
        self.pre_asserts = []
        self.map = None             # TopMap
        self.attr_macro = False     # use #[derive_binread]
        self.generic = None         # the type which its parameter T stands for


class Struct(Def):
    def __init__(self, name, fields, kind="named"):
        super().__init__(name)
        self.fields, self.kind = fields, kind

    def can_default(self):
        return self.map is None and all(can_default(f.ty) for f in self.fields if not f.temp)


class Variant:
    def __init__(self, name, fields, kind="named"):
        self.name, self.fields, self.kind = name, fields, kind
        self.endian = None
        self.magic = None
        self.asserts = []
        self.pre_asserts = []


class Enum(Def):
    def __init__(self, name, variants):
        super().__init__(name)
        self.variants = variants
        self.mode = None            # None | return_all_errors | return_unexpected_error

    def can_default(self):
        return False


class UnitEnum(Def):
    def __init__(self, name, variants, repr_=None):
        super().__init__(name)
        self.variants, self.repr = variants, repr_   # variants: [UVariant]

    def can_default(self):
        return False


class UVariant:
    def __init__(self, name, disc=None, magic=None, pre=None):
        self.name, self.disc, self.magic, self.pre = name, disc, magic, pre or []


class TopMap:
    """A struct which is read through another type. `S { v: x*k+c }`"""

    def __init__(self, kind, src, dst, k, c, eid, cond=None, form="closure"):
        self.kind, self.src, self.dst, self.k, self.c, self.eid, self.cond = kind, src, dst, k, c, eid, cond
        self.form = form
        self.shape = "struct"       # struct | tuple | enum

    def val(self):
        x = "x." + self.src.d.fields[0].name if isinstance(self.src, Ref) else "x"
        return "((%s as u64).wrapping_mul(%du64).wrapping_add(%s)) as %s" % (x, self.k, self.c.rust(), self.dst)

    def make(self, name):
        return {"struct": "%s { v: %s }", "tuple": "%s(%s)", "enum": "%s::VA(%s)"}[self.shape] % (name, self.val())

    def x64(self):
        return "x.%s as u64" % self.src.d.fields[0].name if isinstance(self.src, Ref) else "x as u64"

    def cond_rust(self):
        c = self.cond.rust()
        return c.replace("(x as u64)", "(x.%s as u64)" % self.src.d.fields[0].name) if isinstance(self.src, Ref) else c


class Program:
    def __init__(self, name, defs, root, args=None):
        self.name, self.defs, self.root, self.args = name, defs, root, args or []
        self.tags = set()
        self.next_ev = 1


# ------------------------------------------------------------------ style
class Style:
    """How directives are spelled; every style means the same."""

    def __init__(self, seed=None):
        self.r = random.Random(seed) if seed is not None else None

    def pick(self, n):
        return self.r.randrange(n) if self.r else 0

    def eq(self, k, v):
        return "%s(%s)" % (k, v) if self.pick(2) else "%s = %s" % (k, v)

    def lst(self, k, v):
        return "%s(%s%s)" % (k, v, "," if v and self.pick(2) else "")

    def attrs(self, ds):
        """ds: list of (order class, text). Assertions keep their relative order."""
        if not ds:
            return ""
        ds = list(ds)
        if self.r:
            fixed = {k: iter([d for d in ds if d[0] == k]) for k in (1, 2)}
            self.r.shuffle(ds)
            ds = [next(fixed[d[0]]) if d[0] else d for d in ds]
            groups, i = [], 0
            while i < len(ds):
                n = 1 + self.r.randrange(3)
                groups.append(ds[i:i + n])
                i += n
        else:
            groups = [ds]
        out = ""
        for g in groups:
            x = self.pick(12)
            if x == 9:
                out += "/// about this\n"
            elif x == 10:
                out += "#[allow(unused)]\n"
            elif x == 11:
                out += "#[br()]\n"
            out += "#[%s(%s%s)]\n" % ("binread" if self.pick(3) == 2 else "br", ", ".join(d[1] for d in g),
                                      "," if self.pick(4) == 3 else "")
        return out


class Render:
    def __init__(self, prog, style=None, derive=None):
        self.p, self.s = prog, style or Style()
        self.force_attr_macro = derive

    def magic(self, m):
        return (0, self.s.eq("magic", m.rust()))

    def asserts(self, xs, key="assert"):
        # plain and pre assertions are two lists; only each list keeps its order
        return [(2 if key == "pre_assert" else 1, self.s.lst(key, a.inner())) for a in xs]

    def endian(self, e):
        if e is None:
            return []
        if isinstance(e, tuple):
            if self.s.pick(4) == 3:
                return [(0, self.s.eq("is_little" if e[0] == "is_big" else "is_big", "!(%s)" % e[1].rust()))]
            return [(0, self.s.eq(e[0], e[1].rust()))]
        return [(0, e)]

    def parser(self, f):
        p = f.parser
        k = p[0]
        if k == "until":
            return "binread::until(|x: &%s| rt::evb(%d, %s))" % (p[1].rust(), p[3], p[2])
        if k == "until_exclusive":
            return "binread::until_exclusive(|x: &%s| rt::evb(%d, %s))" % (p[1].rust(), p[3], p[2])
        if k == "until_eof":
            return "binread::until_eof"
        if k == "count":
            return "binread::helpers::count((%s) as usize)" % p[2].rust()
        if k == "read_bytes":
            return "binread::helpers::read_bytes"
        if k == "FilePtr":
            return "FilePtr::<%s, %s>::parse" % (p[1], p[2].rust())
        if k == "separated":
            return "Punctuated::separated"
        if k == "separated_trailing":
            return "Punctuated::separated_trailing"
        if k == "custom":
            return "rt_custom::<_, %d>" % p[1]
        if k == "closure":
            return "|r, o, a| { rt::ev(%d, 0); <%s>::read_options(r, o, a) }" % (p[2], p[1].rust())
        raise ValueError(k)

    def map_(self, m):
        src, dst = m.src_rust(), m.dst
        body = "((x as u64).wrapping_mul(%du64).wrapping_add(%s)) as %s" % (m.k, m.ex.rust(), dst)
        if m.kind == "map":
            if m.form == "fn":
                return "map", "rt_map_%d" % m.eid
            return "map", "|x: %s| { rt::ev(%d, 0); %s%s }" % (src, m.eid, m.prefix(), body)
        if m.form == "fn":
            return "try_map", "rt_map_%d" % m.eid
        c = m.cond.rust()
        if m.kind == "tryio":
            return "try_map", "|x: %s| { rt::ev(%d, 0); %srt::tmap_io(%s, %s) }" % (src, m.eid, m.prefix(), c, body)
        return "try_map", "|x: %s| { rt::ev(%d, 0); %srt::tmap(%s, %d, x as u64, %s) }" % (src, m.eid, m.prefix(), c, m.eid, body)

    def map_fns(self, fields):
        out = ""
        for f in fields:
            m = f.map
            if m and m.form == "fn":
                src, dst = m.src_rust(), m.dst
                body = "((x as u64).wrapping_mul(%du64).wrapping_add(%s)) as %s" % (m.k, m.ex.rust(), dst)
                if m.kind == "map":
                    out += "fn rt_map_%d(x: %s) -> %s { rt::ev(%d, 0); %s%s }\n" % (m.eid, src, dst, m.eid, m.prefix(), body)
                elif m.kind == "try":
                    out += "fn rt_map_%d(x: %s) -> Result<%s, rt::CustomE> { rt::ev(%d, 0); %srt::tmap(%s, %d, x as u64, %s) }\n" % (
                        m.eid, src, dst, m.eid, m.prefix(), m.cond.rust(), m.eid, body)
                else:
                    out += "fn rt_map_%d(x: %s) -> Result<%s, binread::io::Error> { rt::ev(%d, 0); %srt::tmap_io(%s, %s) }\n" % (
                        m.eid, src, dst, m.eid, m.prefix(), m.cond.rust(), body)
        return out

    def field_directives(self, f):
        s = self.s
        ds = []
        ds += self.endian(f.endian)
        if f.magic:
            ds.append(self.magic(f.magic))
        if f.args is not None:
            tys = args_of(f.parser[2] if f.mode == "parse_with" and f.parser[0] == "FilePtr" else
                          f.parser[1] if f.mode == "parse_with" and isinstance(f.parser[1], Ty) else
                          f.map.src if f.map else f.ty)
            vals = ["(%s) as %s" % (a.rust(), t) for a, t in zip(f.args, tys)]
            if f.args_tuple != (s.pick(3) == 2):
                ds.append((0, s.eq("args_tuple", "(" + "".join(v + ", " for v in vals) + ")")))
            else:
                ds.append((0, s.lst("args", ", ".join(vals))))
        if f.mode == "calc":
            ds.append((0, s.eq("calc", f.calc_rust())))
        elif f.mode == "default":
            ds.append((0, ["default", "ignore"][s.pick(2)]))
        elif f.mode == "parse_with":
            ds.append((0, s.eq("parse_with", self.parser(f))))
        if f.count is not None:
            ds.append((0, s.eq("count", f.count.rust())))
        if f.offset is not None:
            ds.append((0, s.eq("offset", f.offset.rust())))
        if f.offset_after is not None:
            ds.append((0, s.eq("offset_after", f.offset_after.rust())))
        if f.if_:
            c, alt = f.if_
            ds.append((0, s.lst("if", c.rust() + (", " + alt.rust(f) if alt else ""))))
        if f.deref_now:
            ds.append((0, ["deref_now", "postprocess_now"][s.pick(2)]))
        if f.restore:
            ds.append((0, "restore_position"))
        if f.try_:
            ds.append((0, "try"))
        if f.temp:
            ds.append((0, "temp"))
        ds += self.asserts(f.asserts)
        for k in ("pad_before", "pad_after"):
            if getattr(f, k) is not None:
                ds.append((0, s.eq(k, "(%s) as i64" % getattr(f, k).rust())))
        for k in ("align_before", "align_after", "pad_size_to"):
            if getattr(f, k) is not None:
                ds.append((0, s.eq(k, getattr(f, k).rust())))
        if f.seek_before is not None:
            k, e = f.seek_before
            ds.append((0, s.eq("seek_before", "binread::io::SeekFrom::%s((%s) as %s)" % (k, e.rust(), "u64" if k == "Start" else "i64"))))
        if f.map:
            k, v = self.map_(f.map)
            ds.append((0, s.eq(k, v)))
        return ds

    def top_directives(self, d, variant=False):
        s = self.s
        ds = self.endian(d.endian)
        if d.magic:
            ds.append(self.magic(d.magic))
        if not variant:
            if d.imports:
                if d.import_tuple:
                    t = "%s: (%s)" % (d.import_tuple, "".join(ty + ", " for _, ty in d.imports))
                    ds.append((0, s.eq("import_tuple", t)))
                else:
                    ds.append((0, s.lst("import", ", ".join("%s: %s" % x for x in d.imports))))
        pre = self.asserts(d.pre_asserts, "pre_assert")
        post = self.asserts(d.asserts)
        return ds, pre, post

    def top_attrs(self, d, extra=(), variant=False):
        ds, pre, post = self.top_directives(d, variant)
        ds += list(extra)
        # interleave the two ordered lists at random
        return self.s.attrs(ds + pre + post)

    def fields(self, fields, kind, vis="pub "):
        out = ""
        for f in fields:
            out += self.s.attrs(self.field_directives(f))
            t = "T" if f.gen else f.ty.rust()
            out += ("%s%s: %s,\n" % (vis, f.name, t)) if kind == "named" else ("%s%s,\n" % (vis, t))
        return out

    def header(self, d, derives=""):
        am = d.attr_macro if self.force_attr_macro is None else (self.force_attr_macro or d.attr_macro)
        out = ""
        if derives:
            out += "#[derive(%s)]\n" % derives
        if am:
            return "#[derive_binread]\n" + out
        return "#[derive(BinRead)]\n" + out

    def top_map(self, d):
        m = d.map
        if m.form == "fn":
            return ("map" if m.kind == "map" else "try_map"), "rt_top_%d" % m.eid
        if m.kind == "map":
            return "map", "|x: %s| { rt::ev(%d, 0); %s }" % (m.src.rust(), m.eid, m.make(d.name))
        return "try_map", "|x: %s| { rt::ev(%d, 0); rt::tmap(%s, %d, %s, %s) }" % (
            m.src.rust(), m.eid, m.cond_rust(), m.eid, m.x64(), m.make(d.name))

    def definition(self, d):
        if isinstance(d, Struct):
            if d.map:
                m = d.map
                k, v = self.top_map(d)
                out = ""
                if m.form == "fn":
                    if m.kind == "map":
                        out += "fn rt_top_%d(x: %s) -> %s { rt::ev(%d, 0); %s }\n" % (m.eid, m.src.rust(), d.name, m.eid, m.make(d.name))
                    else:
                        out += "fn rt_top_%d(x: %s) -> Result<%s, rt::CustomE> { rt::ev(%d, 0); rt::tmap(%s, %d, %s, %s) }\n" % (
                            m.eid, m.src.rust(), d.name, m.eid, m.cond_rust(), m.eid, m.x64(), m.make(d.name))
                out += self.header(d) + self.top_attrs(d, [(0, self.s.eq(k, v))])
                out += {"struct": "pub struct %s { pub v: %s }\n", "tuple": "pub struct %s(pub %s);\n",
                        "enum": "pub enum %s { VA(%s) }\n"}[m.shape] % (d.name, m.dst)
                out += "impl rt::Dump for %s { fn dump(&self, o: &mut String) { %s } }\n" % (d.name, {
                    "struct": "rt::parts!(o; &self.v)", "tuple": "rt::parts!(o; &self.0)",
                    "enum": "match self { Self::VA(v) => { rt::parts!(o; v) } }"}[m.shape])
                return out
            out = self.map_fns(d.fields)
            out += self.header(d, "Default, Clone" if d.can_default() and not any(self.noclone(f.ty) for f in d.fields) else ("Default" if d.can_default() else ""))
            out += self.top_attrs(d)
            perm = [f for f in d.fields if not f.temp]
            par, where = "", ""
            if d.generic:
                bound = "BinRead<Args = ()>" + (" + Default" if d.can_default() or any(f.gen and f.if_ for f in d.fields) else "")
                if self.s.pick(2):
                    par, where = "<T>", " where T: " + bound
                else:
                    par = "<T: %s>" % bound
            if d.kind == "unit":
                out += "pub struct %s;\n" % d.name
            elif d.kind == "tuple":
                out += "pub struct %s%s(\n%s)%s;\n" % (d.name, par, self.fields(d.fields, "tuple"), where)
            else:
                out += "pub struct %s%s%s {\n%s}\n" % (d.name, par, where, self.fields(d.fields, "named"))
            names = ["&self.%s" % (f.name if d.kind == "named" else i) for i, f in enumerate(perm)]
            if d.generic:
                out += "impl<T: rt::Dump + %s> rt::Dump for %s<T>" % (bound, d.name)
            else:
                out += "impl rt::Dump for %s" % d.name
            out += " { fn dump(&self, o: &mut String) { rt::parts!(o; %s) } }\n" % ", ".join(names)
            return out
        if isinstance(d, Enum):
            out = "".join(self.map_fns(v.fields) for v in d.variants)
            out += self.header(d)
            out += self.top_attrs(d, [(0, d.mode)] if d.mode else [])
            out += "pub enum %s {\n" % d.name
            arms = ""
            for i, v in enumerate(d.variants):
                out += self.top_attrs(v, variant=True)
                perm = [f for f in v.fields if not f.temp]
                if v.kind == "unit":
                    out += "%s,\n" % v.name
                    arms += '%s::%s => o.push_str("V%d"),\n' % (d.name, v.name, i)
                elif v.kind == "tuple":
                    out += "%s(\n%s),\n" % (v.name, self.fields(v.fields, "tuple", ""))
                    ns = ["x%d" % j for j in range(len(perm))]
                    arms += '%s::%s(%s) => { o.push_str("V%d"); rt::parts!(o; %s) },\n' % (d.name, v.name, ", ".join(ns), i, ", ".join(ns))
                else:
                    out += "%s {\n%s},\n" % (v.name, self.fields(v.fields, "named", ""))
                    ns = [f.name for f in perm]
                    arms += '%s::%s { %s } => { o.push_str("V%d"); rt::parts!(o; %s) },\n' % (d.name, v.name, ", ".join(ns), i, ", ".join(ns))
            out += "}\n"
            out += "#[allow(unreachable_patterns)]\nimpl rt::Dump for %s { fn dump(&self, o: &mut String) { match self { %s _ => {} } } }\n" % (d.name, arms)
            return out
        if isinstance(d, UnitEnum):
            out = self.header(d)
            extra = [(0, self.s.eq("repr", d.repr))] if d.repr else []
            ds, _, _ = self.top_directives(d)
            out += self.s.attrs(ds + extra)
            if d.repr:
                out += "#[repr(%s)]\n" % d.repr
            out += "pub enum %s {\n" % d.name
            arms = ""
            for i, v in enumerate(d.variants):
                vs = []
                if v.magic:
                    vs.append(self.magic(v.magic))
                vs += self.asserts(v.pre, "pre_assert")
                out += self.s.attrs(vs)
                out += v.name + (" = %d" % v.disc if v.disc is not None else "") + ",\n"
                arms += '%s::%s => o.push_str("V%d"),\n' % (d.name, v.name, i)
            out += "}\n"
            out += "impl rt::Dump for %s { fn dump(&self, o: &mut String) { match self { %s } } }\n" % (d.name, arms)
            return out
        raise TypeError(d)

    def noclone(self, t):
        if isinstance(t, (Ptr, Pos, Punct, Tracked)):
            return True
        if isinstance(t, (Arr, Vec, Box, Opt)):
            return self.noclone(t.t)
        if isinstance(t, Tup):
            return any(self.noclone(x) for x in t.ts)
        if isinstance(t, Ref):
            return not (t.d.can_default() and isinstance(t.d, Struct) and not any(self.noclone(f.ty) for f in t.d.fields))
        return False

    PRELUDE = """#![allow(warnings)]
use binread::{*, punctuated::Punctuated};
use std::collections::VecDeque;
fn rt_custom<R: binread::io::Read + binread::io::Seek, const K: u8>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u16> {
    rt::ev(9100 + K as u32, rt::endian_code(o.endian) as u64);
    let at = r.seek(binread::io::SeekFrom::Current(0))?;
    let a = u8::read_options(r, o, ())?;
    if a % 16 == 15 {
        // a parser which fails after it has read something, and does not go back
        let b = u8::read_options(r, o, ())?;
        return Err(binread::Error::Custom { pos: at, err: Box::new(rt::CustomE(9100 + K as u32, b as u64)) });
    }
    Ok((a as u16).wrapping_mul(3).wrapping_add(K as u16))
}
"""

    def source(self):
        out = self.PRELUDE
        for d in self.p.defs:
            out += self.definition(d)
        tys = args_of(self.p.root)
        if tys:
            a = "(" + "".join("%d%s, " % (v, t) for v, t in zip(self.p.args, tys)) + ")"
        else:
            a = "()"
        out += "pub fn run(c: &rt::Case) -> rt::Obs { rt::run::<%s>(c, %s) }\n" % (self.p.root.rust(), a)
        return out


def _calc_rust(f):
    if isinstance(f.ty, Opt) and f.try_:
        return "rt::evv(%d, (%s) as %s)" % (f.calc[0], f.calc[1].rust(), f.ty.t.rust())
    return "rt::evv(%d, (%s) as %s)" % (f.calc[0], f.calc[1].rust(), f.ty.rust())


Field.calc_rust = _calc_rust


class Alt:
    """The alternate value of an `if`."""

    def __init__(self, eid, ex):
        self.eid, self.ex = eid, ex

    def rust(self, f):
        t = f.ty
        if isinstance(t, Opt):
            return "rt::evv(%d, Some((%s) as %s))" % (self.eid, self.ex.rust(), t.t.rust())
        return "rt::evv(%d, (%s) as %s)" % (self.eid, self.ex.rust(), t.rust())
