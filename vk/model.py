"""Reference semantics of the documented directives.

Written from the documentation (binread/src/attribute.rs and the API docs), this
runs a Program on concrete bytes and says which value or error has to come out,
where the reader has to end up, which user callbacks have to run in which order
and which bytes may be asked for.
"""
import struct
from collections import namedtuple, Counter
from . import spec as S

M64 = S.M64
# name and hide concern the debug template only
RO = namedtuple("RO", "endian count offset name hide", defaults=(None, False))


class Unspecified(Exception):
    """The case leaves what the properties speak about; it is dropped."""


class BErr(Exception):
    raised = 0

    def __init__(self, kind, **kw):
        self.kind = kind
        BErr.raised += 1
        self.__dict__.update(kw)

    def dump(self):
        k = self.kind
        if k == "Magic":
            return "Magic@%d<%s>" % (self.pos, self.found)
        if k == "Assert":
            return 'Assert@%d"%s"' % (self.pos, self.msg.encode().hex())
        if k == "Io":
            return "Io:%s" % self.io
        if k == "Custom":
            return "Custom@%d<%s>" % (self.pos, self.err)
        if k == "NoVariant":
            return "NoVariant@%d" % self.pos
        if k == "Enum":
            return "Enum@%d[%s]" % (self.pos, "".join("%s:%s;" % (n, e.dump()) for n, e in self.errors))
        raise ValueError(k)

    def display(self):
        """The text of the error; \\0 stands for any text."""
        k = self.kind
        if k == "Magic":
            return "BadMagic { pos: 0x%X }" % self.pos
        if k == "Assert":
            return "AssertFail at 0x%X: \"%s\"" % (self.pos, "\0" if getattr(self, "src", False) else self.msg)
        if k == "Io":
            return "Io(\0)"
        if k == "Custom":
            return "Custom { pos: 0x%X, err: \0 }" % self.pos
        if k == "NoVariant":
            return "NoVariantMatch { pos: 0x%X }" % self.pos
        return "EnumErrors { pos: 0x%X, variant_errors: [%s] }" % (
            self.pos, ", ".join('("%s", %s)' % (n, e.display()) for n, e in self.errors))


def io_err(kind):
    return BErr("Io", io=kind)


# ------------------------------------------------------------------ values
class F:
    def __init__(self, bits, k):
        self.bits, self.k = bits, k

    def dump(self):
        return "%s%x" % ("f" if self.k == "f32" else "d", self.bits)

    def value(self):
        if self.k == "f32":
            return struct.unpack("<f", struct.pack("<I", self.bits))[0]
        return struct.unpack("<d", struct.pack("<Q", self.bits))[0]


class Ch:
    def __init__(self, v):
        self.v = v

    def dump(self):
        return "c%d" % self.v

    def as_u64(self):
        return self.v


class Seq:
    def __init__(self, items):
        self.items = items

    def dump(self):
        return "[" + ",".join(dump(x) for x in self.items) + "]"


class TupV:
    def __init__(self, items):
        self.items = items

    def dump(self):
        return "(" + ",".join(dump(x) for x in self.items) + ")"


class UnitV:
    def dump(self):
        return "()"


class PhantomV:
    def dump(self):
        return "PD"


class Some:
    def __init__(self, v):
        self.v = v

    def dump(self):
        return "S(%s)" % dump(self.v)


class NoneV:
    def dump(self):
        return "N"


class PtrV:
    def __init__(self, ptr):
        self.ptr, self.value = ptr, None

    def dump(self):
        return "*(%s,%s)" % (dump(self.ptr), "N" if self.value is None else "S(%s)" % dump(self.value))


class PosV:
    def __init__(self, pos, val):
        self.pos, self.val = pos, val

    def dump(self):
        return "@%d=%s" % (self.pos, dump(self.val))


class StrV:
    def __init__(self, tag, items):
        self.tag, self.items = tag, items

    def dump(self):
        return "%s[%s]" % (self.tag, ",".join(map(str, self.items)))


class PunctV:
    def __init__(self, items, seps):
        self.items, self.seps = items, seps

    def dump(self):
        return "p%s%s" % (Seq(self.items).dump(), Seq(self.seps).dump())


class SpyV:
    def __init__(self, byte, seen):
        self.byte, self.seen, self.after = byte, seen, []

    def dump(self):
        return "y(%d,%s%s)" % (self.byte, self.seen, "".join("+" + a for a in self.after))


class StructV:
    def __init__(self, tag, items):
        self.tag, self.items = tag, items

    def dump(self):
        if self.items is None:
            return self.tag
        return "%s{%s}" % (self.tag, "".join(dump(x) + ";" for x in self.items))


def dump(v):
    return str(v) if isinstance(v, int) else v.dump()


# ------------------------------------------------------------------ memory
def below(addr):
    return (((addr * 167 + 13) & M64) >> 1) & 0xFF


class Mem:
    """Concrete bytes at [base, base + len)."""

    def __init__(self, base, data, fault_addr=None, fault=None):
        self.base, self.data, self.fault_addr, self.fault = base, data, fault_addr, fault
        self.end = base + len(data)

    def get(self, a):
        return below(a) if a < self.base else self.data[a - self.base]


class LazyMem:
    """Bytes which are made up when they are first read, so that the interesting
    paths of the program under generation are reached."""

    fault_addr = None

    def __init__(self, base, rng, span):
        self.base, self.rng, self.bytes, self.end = base, rng, {}, base + span
        self.top = base

    def fill(self, a, n, hint):
        if a < self.base or any((a + i) in self.bytes for i in range(n)):
            return
        r = self.rng
        if hint is not None and len(hint) == n:
            bs = list(hint)
        else:
            x = r.random()
            if x < 0.5:
                bs = [r.randrange(8) for _ in range(n)]
            elif x < 0.6:
                bs = [r.choice((0, 0xFF, 0x80, 0x7F, 1))] * n
            else:
                bs = [r.randrange(256) for _ in range(n)]
        for i, b in enumerate(bs):
            if a + i < self.end:
                self.bytes[a + i] = b
                self.top = max(self.top, a + i + 1)

    def get(self, a):
        if a < self.base:
            return below(a)
        if a not in self.bytes:
            self.bytes[a] = self.rng.randrange(256)
            self.top = max(self.top, a + 1)
        return self.bytes[a]

    def freeze(self):
        n = self.top - self.base
        return bytes(self.bytes.get(self.base + i, self.rng.randrange(256)) for i in range(n))


class Reader:
    LIMIT = 20000

    def __init__(self, mem, pos):
        self.mem, self.pos, self.steps, self.req = mem, pos, 0, []

    def tick(self):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Unspecified("too many steps")

    def read_exact(self, n, hint=None):
        self.tick()
        m = self.mem
        if n and isinstance(m, LazyMem):
            m.fill(self.pos, n, hint() if callable(hint) else hint)
        if n:
            if self.req and self.req[-1][1] == self.pos:
                self.req[-1][1] = self.pos + n
            else:
                self.req.append([self.pos, self.pos + n])
        p, e = self.pos, m.end
        fa = m.fault_addr
        if fa is not None and p <= fa < p + n and (fa <= e or p == fa):
            self.pos = fa   # the bytes before the fault are delivered
            raise io_err(m.fault)
        if p + n > e and n:
            self.pos = max(p, e)
            raise io_err("UnexpectedEof")
        out = bytes(m.get(p + i) for i in range(n))
        self.pos = p + n
        return out

    def seek(self, how, x):
        self.tick()
        if how == "Start":
            new = x & M64
        else:
            base = self.pos if how == "Current" else self.mem.end
            new = base + x
        if new < 0 or new > M64:
            raise io_err("InvalidInput")
        self.pos = new
        return new


def ptr_name(n):
    return None if n is None else ("?", "ptr_to_" + n[1]) if isinstance(n, tuple) else "ptr_to_" + n


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def sbits(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def cast(v, ty):
    """`v as ty` for a u64 v"""
    size, signed = S.PRIMS[ty]
    if signed:
        # u64 as i128 does not sign-extend
        return sbits(v, size * 8)
    return v & ((1 << size * 8) - 1)


def to_u64(v):
    if hasattr(v, "as_u64"):
        return v.as_u64()
    return v & M64


# ------------------------------------------------------------------ interpreter
# the byte order of the machine which reads
NATIVE = "little"


class Model:
    def __init__(self):
        self.native = NATIVE
        self.events = []
        self.seen = Counter()   # what this run passed through
        self.path = []
        self.template = []      # what the debug template has to list
        self.absorbed = False   # an error was caught on the way

    def tmpl(self, kind, ro, pos, ty=None, count=None, optional=None, name=None):
        if kind == "value" and ro.hide and name is None:
            return      # listed with the collection
        self.template.append((kind, ro.endian, pos, ty, name or ro.name, count, ro.hide if optional is None else optional))

    def brace(self, kind, name):
        self.template.append((kind, None, None, None, name, None, False))

    def note(self, what):
        self.seen[what] += 1
        if len(self.path) < 60:
            self.path.append(what)

    def ev(self, eid, val=0):
        self.events.append((eid, val & M64))

    def byteorder(self, ro):
        return ro.endian if ro.endian != "native" else self.native

    # -- primitives
    def prim_hint(self, n, ro, hint, rd):
        mem = rd.mem
        if not isinstance(mem, LazyMem) or hint is None or n in ("f32", "f64"):
            return None
        r = mem.rng
        if r.random() < 0.08:
            return None
        lo, hi = hint
        v = r.randint(lo, hi)
        size, signed = S.PRIMS[n]
        v &= (1 << size * 8) - 1
        return v.to_bytes(size, self.byteorder(ro))

    def read_prim(self, n, ro, rd, hint=None, tmpl=True):
        size, signed = S.PRIMS[n]
        start = rd.pos
        if tmpl:
            self.tmpl("value", ro, start, "u8" if n == "char" else n)
        try:
            b = rd.read_exact(size, lambda: self.prim_hint(n, ro, hint, rd))
        except BErr as e:
            rd.seek("Start", start)
            raise
        v = int.from_bytes(b, self.byteorder(ro))
        if signed:
            v = sbits(v, size * 8)
        if n in ("f32", "f64"):
            return F(v, n)
        if n == "char":
            return Ch(v)
        return v

    # -- types
    def read(self, t, ro, args, rd, hint=None):
        if isinstance(t, S.Prim):
            return self.read_prim(t.n, ro, rd, hint)
        if isinstance(t, S.Unit):
            return UnitV()
        if isinstance(t, S.Phantom):
            return PhantomV()
        if isinstance(t, S.Arr):
            self.tmpl("array", ro, rd.pos, t.t.n if isinstance(t.t, S.Prim) else None, t.n)
            ro = ro._replace(hide=True)
            return Seq([self.read(t.t, ro, args, rd) for _ in range(t.n)])
        if isinstance(t, S.Tup):
            return TupV([self.read(x, ro, (), rd) for x in t.ts])
        if isinstance(t, S.Vec):
            if ro.count is None:
                raise Unspecified("no count")
            inner = ro._replace(count=None, hide=True)
            self.tmpl("array", ro, rd.pos, t.t.n if isinstance(t.t, S.Prim) else t.t.p if isinstance(t.t, S.Ptr) else None, ro.count)
            out = []
            for _ in range(ro.count):
                rd.tick()
                out.append(self.read(t.t, inner, args, rd))
            return Seq(out)
        if isinstance(t, (S.Box, S.Tracked)):
            return self.read(t.t, ro, args, rd, hint)
        if isinstance(t, S.Opt):
            return Some(self.read(t.t, ro, args, rd, hint))
        if isinstance(t, S.Ptr):
            return self.read_ptr(t.p, ro, rd, getattr(t, "hint", None) or hint)
        if isinstance(t, S.Pos):
            pos = rd.pos
            return PosV(pos, self.read(t.t, ro, args, rd, hint))
        if isinstance(t, (S.NStr, S.NWStr)):
            self.tmpl("value", ro, rd.pos, "string" if isinstance(t, S.NStr) else "wstring")
        if isinstance(t, (S.NStr, S.NZ8)):
            out = []
            while True:
                b = rd.read_exact(1, (lambda: bytes([rd.mem.rng.choice((0, 0, 65, 66, 0xC3, 0x80, 0xFF))])) if isinstance(rd.mem, LazyMem) else None)[0]
                if b == 0:
                    return StrV("z", out) if isinstance(t, S.NStr) else Seq(out)
                out.append(b)
        if isinstance(t, (S.NWStr, S.NZ16)):
            out = []
            while True:
                v = self.read_prim("u16", ro, rd, (0, 2), tmpl=isinstance(t, S.NZ16))
                if v == 0:
                    return StrV("w", out) if isinstance(t, S.NWStr) else Seq(out)
                out.append(v)
        if isinstance(t, S.Spy):
            b = rd.read_exact(1, (lambda: bytes([rd.mem.rng.choice((1, 2, 3, 0xEE if rd.mem.rng.random() < .2 else 4))])) if isinstance(rd.mem, LazyMem) else None)[0]
            return SpyV(b, self.spy(t, ro, args))
        if isinstance(t, S.Ref):
            return self.read_def(t.d, ro, args, rd)
        raise TypeError(t)

    def read_ptr(self, p, ro, rd, hint):
        self.tmpl("value", ro, rd.pos, p, name=ptr_name(ro.name))
        return PtrV(self.read_prim(p, ro, rd, hint, tmpl=False))

    def spy(self, t, ro, args):
        if t.nargs == 0:
            a = 0
        elif t.nargs == 1:
            a = args[0]
        else:
            a = args[0] << 16 | args[1]
        return "%d/%d/%s/%d" % ({"big": 0, "little": 1, "native": 2}[ro.endian], ro.offset,
                                "-" if ro.count is None else ro.count, a)

    def after(self, t, v, ro, args, rd):
        if v is None:
            return
        if isinstance(t, (S.Arr, S.Vec)):
            for x in v.items:
                self.after(t.t, x, ro, args, rd)
        elif isinstance(t, S.Tup):
            for tt, x in zip(t.ts, v.items):
                self.after(tt, x, ro, (), rd)
        elif isinstance(t, (S.Box, S.Tracked)):
            self.after(t.t, v, ro, args, rd)
        elif isinstance(t, S.Opt):
            if isinstance(v, Some):
                self.after(t.t, v.v, ro, args, rd)
        elif isinstance(t, S.Pos):
            self.after(t.t, v.val, ro, args, rd)
        elif isinstance(t, S.Ptr):
            self.deref(t, v, ro, args, rd)
        elif isinstance(t, S.Spy):
            self.ev(9000, v.byte)
            v.after.append(self.spy(t, ro, args))
            if v.byte == 0xEE:
                raise BErr("Custom", pos=0, err="9000,238")

    def deref(self, t, v, ro, args, rd):
        before = rd.pos
        self.note("deref")
        # a seek goes at most this far, which no data do
        target = ro.offset + max(-(1 << 63), min(v.ptr, (1 << 63) - 1))
        if target < 0 or target > M64:
            raise io_err("InvalidInput")
        rd.pos = target
        inner = self.read(t.t, ro, args, rd)
        self.after(t.t, inner, ro, args, rd)
        v.value = inner
        rd.seek("Start", before)

    # -- definitions
    def endian(self, ro, e, env):
        if e is None:
            return ro
        if isinstance(e, tuple):
            want = e[0] == "is_big"
            got = e[1].ev(env)
            self.note("cond_endian_%d" % got)
            return ro._replace(endian="big" if got == want else "little")
        return ro._replace(endian=e)

    def check_magic(self, m, ro, rd):
        pos = rd.pos
        t = m.ty()
        hint = None
        if isinstance(rd.mem, LazyMem):
            r = rd.mem.rng
            good = r.random() < 0.85
            order = self.byteorder(ro)
            if m.kind == "bytes":
                bs = bytearray(m.value)
            elif m.kind in ("f32", "f64"):
                bs = bytearray(struct.pack("<f" if m.kind == "f32" else "<d", m.value))
                if order == "big":
                    bs.reverse()
            else:
                size = S.PRIMS[t.n][0]
                bs = bytearray((m.value & ((1 << 8 * size) - 1)).to_bytes(size, order)) if m.kind != "char" or m.value < 256 else bytearray([1])
            if not good and len(bs):
                x = r.random()
                if x < 0.4:
                    bs.reverse()
                elif x < 0.8:
                    bs[r.randrange(len(bs))] ^= 1 << r.randrange(8)
                else:
                    bs[-1] ^= 0x20
            rd.mem.fill(pos, len(bs), bytes(bs))
        v = self.read(t, ro._replace(name="magic"), (), rd)
        if m.kind == "bytes":
            ok = bytes(v.items) == bytes(m.value)
        elif m.kind in ("f32", "f64"):
            x = struct.unpack("<f", struct.pack("<f", m.value))[0] if m.kind == "f32" else m.value
            ok = v.value() == x
        elif m.kind == "char":
            ok = v.v == m.value
        else:
            ok = v == m.value
        self.note("magic_ok" if ok else "magic_bad")
        if not ok:
            raise BErr("Magic", pos=pos, found="%s:%s" % (m.typename().replace("[u8;", "[u8; "), dump(v)))

    def cond(self, c, env):
        """A possibly logged condition."""
        if isinstance(c, S.Ev):
            v = c.c.ev(env)
            self.ev(c.eid, int(v))
            return v
        return c.ev(env)

    def check_assert(self, a, env, pos):
        if self.cond(a.cond, env):
            self.note("assert_ok")
            return
        self.note("assert_fail_" + a.kind)
        if a.kind == "plain":
            raise BErr("Assert", pos=pos, msg="".join(a.cond.rust().split()), src=True)
        if a.kind == "msg":
            raise BErr("Assert", pos=pos, msg=a.text)
        self.ev(a.eid)
        if a.kind == "fmt":
            raise BErr("Assert", pos=pos, msg="%s %d" % (a.text, a.ex.ev(env)))
        if a.kind == "customstr":
            raise BErr("Custom", pos=pos, err='"%s"' % a.text.encode().hex())
        raise BErr("Custom", pos=pos, err="%d,%d" % (a.eid, a.ex.ev(env)))

    def read_def(self, d, ro, args, rd):
        pos = rd.pos
        try:
            return self.read_def_inner(d, ro, args, rd, pos)
        except BErr:
            self.note("fail_after_progress" if rd.pos != pos else "fail_at_start")
            rd.pos = pos
            raise

    def read_def_inner(self, d, ro, args, rd, pos):
        env = {n: v for (n, _), v in zip(d.imports, args)}
        if d.import_tuple:
            env = {"%s.%d" % (d.import_tuple, i): v for i, v in enumerate(args)}
        if isinstance(d, S.Struct):
            if d.map:
                return self.read_top_map(d, ro, args, rd, env, pos)
            self.note("struct")
            items = self.read_body(d, ro, env, rd, pos, d.magic, d.pre_asserts, d.fields, d.endian,
                                   d.asserts, d.kind != "unit")
            return StructV("", [] if d.kind == "unit" else items)
        if isinstance(d, S.UnitEnum):
            return self.read_unit_enum(d, ro, env, rd, pos)
        errors = []
        for i, v in enumerate(d.variants):
            try:
                items = self.read_body(
                    d, ro, dict(env), rd, pos, v.magic or d.magic, d.pre_asserts + v.pre_asserts, v.fields,
                    v.endian or d.endian, v.asserts + d.asserts)
                self.note("variant_%d" % i)
                return StructV("V%d" % i, None if v.kind == "unit" else items)
            except BErr as e:
                self.absorbed = True
                errors.append((v.name, e))
                rd.pos = pos
        self.note("no_variant")
        if d.mode == "return_unexpected_error":
            raise BErr("NoVariant", pos=pos)
        raise BErr("Enum", pos=pos, errors=errors)

    def read_unit_enum(self, d, ro, env, rd, pos):
        ro = self.endian(ro, d.endian, env)
        if d.repr:
            if d.magic:
                self.check_magic(d.magic, ro, rd)
            lo, hi = min(v.value for v in d.variants), max(v.value for v in d.variants)
            x = self.read_prim(d.repr, ro, rd, (lo, hi))
            for i, v in enumerate(d.variants):
                if x == v.value and all(self.cond(a.cond, env) for a in v.pre):
                    self.note("uvariant")
                    return StructV("V%d" % i, None)
        else:
            ms = [v.magic for v in d.variants if v.magic]
            if isinstance(rd.mem, LazyMem) and rd.mem.rng.random() < .9:
                m = rd.mem.rng.choice(ms)
                saved, self.seen, p, tm = rd.pos, Counter(), self.path, list(self.template)
                self.path = []
                try:
                    self.check_magic(m, ro, rd)
                except BErr:
                    pass
                rd.pos, self.path, self.template = saved, p, tm
            v0 = self.read(ms[0].ty(), ro, (), rd)
            for i, v in enumerate(d.variants):
                if v.magic is None:
                    continue
                m = v.magic
                if m.kind == "bytes":
                    same = bytes(v0.items) == bytes(m.value)
                elif m.kind == "char":
                    same = v0.v == m.value
                else:
                    same = v0 == m.value
                if same and all(self.cond(a.cond, env) for a in v.pre):
                    self.note("uvariant")
                    return StructV("V%d" % i, None)
        self.note("no_uvariant")
        raise BErr("NoVariant", pos=pos)

    def read_top_map(self, d, ro, args, rd, env, pos):
        ro = self.endian(ro, d.endian, env)
        if d.magic:
            self.check_magic(d.magic, ro, rd)
        for a in d.pre_asserts:
            self.check_assert(a, env, pos)
        m = d.map
        x = self.read(m.src, ro, args, rd)
        x = to_u64(x.items[0] if isinstance(m.src, S.Ref) else x)
        self.ev(m.eid)
        env2 = dict(env, x=x)
        if m.kind == "try" and not m.cond.ev(env2):
            self.note("try_map_fail")
            raise BErr("Custom", pos=pos, err="%d,%d" % (m.eid, x))
        self.note("mapped")
        return StructV("", [cast((x * m.k + m.c.ev(env)) & M64, m.dst)])

    def read_body(self, d, ro, env, rd, pos, magic, pre, fields, endian, asserts, brace=False):
        if brace:
            self.brace("{", d.name)
        ro = self.endian(ro, endian, env)
        if magic:
            self.check_magic(magic, ro, rd)
        for a in pre:
            self.check_assert(a, env, pos)
        post = []
        for f in fields:
            self.read_field(f, ro, env, rd, pos, post)
        if post:
            saved = rd.pos
            for f, t, fro, fargs in post:
                if f.offset_after is not None:
                    fro = fro._replace(offset=f.offset_after.ev(env))
                self.after(t, env[f.name], fro, fargs, rd)
            rd.pos = saved
        if brace:
            self.brace("}", ro.name or "root")
        for a in asserts:
            self.check_assert(a, env, pos)
        return [env[f.name] for f in fields if not f.temp]

    def default(self, t):
        if isinstance(t, S.Prim):
            return F(0, t.n) if t.n in ("f32", "f64") else Ch(0) if t.n == "char" else 0
        if isinstance(t, S.Opt):
            return NoneV()
        if isinstance(t, S.Unit):
            return UnitV()
        if isinstance(t, S.Phantom):
            return PhantomV()
        if isinstance(t, (S.Vec, S.NZ8, S.NZ16)):
            return Seq([])
        if isinstance(t, S.NStr):
            return StrV("z", [])
        if isinstance(t, S.NWStr):
            return StrV("w", [])
        if isinstance(t, (S.Box, S.Tracked)):
            return self.default(t.t)
        if isinstance(t, S.Arr):
            return Seq([self.default(t.t) for _ in range(t.n)])
        if isinstance(t, S.Tup):
            return TupV([self.default(x) for x in t.ts])
        if isinstance(t, S.Spy):
            return SpyV(0, "0/0/-/0")
        if isinstance(t, S.Ref):
            return StructV("", [self.default(f.ty) for f in t.d.fields if not f.temp])
        raise TypeError(t)

    def align(self, ex, env, rd):
        al = ex.ev(env)
        if al == 0 or al >= 1 << 62 or rd.pos >= 1 << 62:
            raise Unspecified("align")
        skip = (al - rd.pos % al) % al
        self.note("align_%s" % ("skip" if skip else "none"))
        rd.seek("Current", skip)

    def read_field(self, f, ro0, env, rd, pos, post):
        cast_args = ()
        src = f.map.src if f.map else f.ty
        if f.try_ and isinstance(src, S.Opt) and f.mode == "read" and not f.map:
            src = src.t
        tys = []
        if f.args is not None:
            at = f.parser[2] if f.mode == "parse_with" and f.parser[0] == "FilePtr" else \
                f.parser[1] if f.mode == "parse_with" and isinstance(f.parser[1], S.Ty) else src
            tys = S.args_of(at)
            cast_args = tuple(cast(a.ev(env), t) for a, t in zip(f.args, tys))
        ro = self.endian(ro0, f.endian, env)
        if f.offset is not None:
            ro = ro._replace(offset=f.offset.ev(env))
        if f.count is not None:
            ro = ro._replace(count=f.count.ev(env))
        ro = ro._replace(name=f.name)
        if f.magic:
            self.check_magic(f.magic, ro, rd)
        saved = rd.pos
        go = True
        if f.if_:
            go = self.cond(f.if_[0], env)
            self.note("if_%d" % go)
        if go:
            v = self.read_value(f, src, ro, cast_args, env, rd)
        else:
            alt = f.if_[1]
            if alt is None:
                v = self.default(f.ty)
            else:
                self.ev(alt.eid)
                if isinstance(f.ty, S.Opt):
                    v = Some(cast(alt.ex.ev(env), f.ty.t.n))
                else:
                    v = cast(alt.ex.ev(env), f.ty.n)
        env[f.name] = v
        for a in f.asserts:
            self.check_assert(a, env, pos)
        if f.restore:
            self.note("restore_moved" if rd.pos != saved else "restore_same")
            rd.pos = saved
        if f.mode == "read" and not f.map and not f.deref_now:
            post.append((f, f.ty, ro, cast_args))

    def read_value(self, f, src, ro, args, env, rd):
        if f.seek_before is not None:
            how, e = f.seek_before
            v = e.ev(env)
            rd.seek(how, v if how == "Start" else s64(v))
            self.note("seek_" + how)
        if f.pad_before is not None:
            rd.seek("Current", s64(f.pad_before.ev(env)))
            self.note("pad_before")
        if f.align_before is not None:
            self.align(f.align_before, env, rd)
        start = rd.pos
        v = self.read_inner(f, src, ro, args, env, rd)
        if f.mode == "read" and not f.map and f.deref_now:
            self.after(f.ty, v, ro, args, rd)
        if f.pad_size_to is not None:
            size = rd.pos - start
            want = f.pad_size_to.ev(env)
            if want >= 1 << 62 or rd.pos >= 1 << 62:
                raise Unspecified("pad_size_to")
            self.note("pad_size_%s" % ("short" if size < want else "long"))
            if size < want:
                rd.seek("Current", want - size)
        if f.pad_after is not None:
            rd.seek("Current", s64(f.pad_after.ev(env)))
            self.note("pad_after")
        if f.align_after is not None:
            self.align(f.align_after, env, rd)
        return v

    def read_inner(self, f, src, ro, args, env, rd):
        if f.mode == "default":
            self.note("default")
            return self.default(f.ty)
        if f.mode == "calc":
            eid, e = f.calc
            self.ev(eid)
            self.note("calc")
            if f.try_:
                return Some(cast(e.ev(env), f.ty.t.n))
            return cast(e.ev(env), f.ty.n)
        at = rd.pos
        if f.try_:
            try:
                v = Some(self.parse_with(f, ro, args, env, rd) if f.mode == "parse_with" else self.read(src, ro, args, rd, f.hint))
                self.note("try_some")
            except BErr:
                self.note("try_none_moved" if rd.pos != at else "try_none")
                if f.map or f.mode == "parse_with":
                    self.note("%s_none%s" % ("map" if f.map else "parse", "_moved" if rd.pos != at else ""))
                rd.pos = at
                self.absorbed = True
                v = NoneV()
        elif f.mode == "parse_with":
            v = self.parse_with(f, ro, args, env, rd)
        else:
            v = self.read(src, ro, args, rd, f.hint)
        if f.map:
            m = f.map
            if m.opt:
                x = 7919 if not isinstance(v, Some) else to_u64(v.v) if isinstance(m.src, S.Prim) else 3
                self.note("mapped_some" if isinstance(v, Some) else "mapped_none")
            else:
                x = to_u64(v)
            self.ev(m.eid)
            env2 = dict(env, x=x)
            if m.kind != "map" and not m.cond.ev(env2):
                self.note("try_map_fail")
                if m.kind == "tryio":
                    raise io_err("PermissionDenied")
                raise BErr("Custom", pos=at, err="%d,%d" % (m.eid, x))
            self.note("mapped")
            return cast((x * m.k + m.ex.ev(env)) & M64, m.dst)
        return v

    def item(self, t, ro, args, rd):
        # items carry the list's name or none
        ro = ro._replace(name=None if ro.name is None else ro.name if isinstance(ro.name, tuple) else ("?", ro.name))
        v = self.read(t, ro, args, rd)
        self.after(t, v, ro, args, rd)
        return v

    def parse_with(self, f, ro, args, env, rd):
        p = f.parser
        k = p[0]
        if k in ("until", "until_exclusive"):
            t, eid, pred = p[1], p[3], p[4]
            out = []
            while True:
                rd.tick()
                v = self.item(t, ro, args, rd)
                stop = pred(v)
                self.ev(eid, int(stop))
                if stop:
                    if k == "until":
                        out.append(v)
                    self.note(k)
                    return Seq(out)
                out.append(v)
        if k == "until_eof":
            out = []
            while True:
                rd.tick()
                at = rd.pos
                try:
                    out.append(self.item(p[1], ro, args, rd))
                except BErr as e:
                    if e.kind == "Io" and e.io == "UnexpectedEof":
                        self.absorbed = True
                        self.note("until_eof")
                        return Seq(out)
                    raise
        if k == "count":
            n = p[2].ev(env)
            self.note("count")
            out = []
            for _ in range(n):
                rd.tick()
                out.append(self.item(p[1], ro, args, rd))
            return Seq(out)
        if k == "read_bytes":
            n = ro.count
            self.note("read_bytes")
            if n > 1 << 20:
                if rd.mem.end - rd.pos < n and rd.mem.fault_addr is None:
                    rd.req.append([rd.pos, rd.pos + n])
                    raise io_err("UnexpectedEof")
                raise Unspecified("large")
            return Seq(list(rd.read_exact(n)))
        if k == "FilePtr":
            v = self.read_ptr(p[1], ro, rd, p[3])
            self.deref(S.Ptr(p[1], p[2]), v, ro, args, rd)
            return v.value
        if k in ("separated", "separated_trailing"):
            t, sep = p[1], p[2]
            items, seps = [], []
            for i in range(ro.count):
                rd.tick()
                items.append(self.item(t, ro, args, rd))
                if k == "separated_trailing" or i + 1 != ro.count:
                    seps.append(self.item(sep, ro, (), rd))
            self.note(k)
            return PunctV(items, seps)
        if k == "custom":
            self.ev(9100 + p[1], {"big": 0, "little": 1, "native": 2}[ro.endian])
            at = rd.pos
            a = self.read_prim("u8", ro, rd)
            if a % 16 == 15:
                b = self.read_prim("u8", ro, rd)
                self.note("custom_fail")
                raise BErr("Custom", pos=at, err="%d,%d" % (9100 + p[1], b))
            self.note("custom")
            return (a * 3 + p[1]) & 0xFFFF
        if k == "closure":
            self.ev(p[2])
            self.note("parse_closure")
            return self.read(p[1], ro, args, rd)
        raise ValueError(k)


class Expect:
    """What has to be observed."""

    def __init__(self):
        self.ok = self.err = self.once = None
        self.rewinds = True     # a failing read of this type goes back to its start


def run(prog, case, mem=None):
    """Run a program on a case: the expected observation."""
    m = Model()
    S.Once.sink, raised = [], BErr.raised
    if mem is None:
        mem = Mem(case["base"], case["data"], case.get("fault_addr"), case.get("fault"))
    rd = Reader(mem, case["start"])
    ro = RO({0: "big", 1: "little", 2: "native"}[case["endian"]], case.get("count"), case.get("offset", 0))
    x = Expect()
    x.rewinds = isinstance(prog.root, (S.Ref, S.Prim))
    mode = case.get("mode", 0)
    if mode >= 2:
        # the entry points without options
        e = {3: "big", 9: "big", 4: "little", 10: "little", 2: ro.endian, 8: ro.endian}.get(mode, "native")
        ro = RO(e, None, 0)
    try:
        v = m.read(prog.root, ro, tuple(prog.args), rd)
        if mode not in (1, 6, 7):
            m.after(prog.root, v, ro, tuple(prog.args), rd)
        x.ok = dump(v)
    except BErr as e:
        x.err = e
    x.template, x.absorbed = m.template, m.absorbed
    x.in_struct = isinstance(prog.root, S.Ref) and type(prog.root.d) is S.Struct and prog.root.d.map is None
    # how often the expressions of directives are evaluated is told for reads without any failure
    x.once = sorted(S.Once.sink) if BErr.raised == raised else None
    x.pos, x.events, x.seen, x.path, x.req = rd.pos, m.events, m.seen, m.path, rd.req
    return x
