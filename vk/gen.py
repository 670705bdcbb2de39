"""Random programs and the inputs which drive them."""
import random
from . import spec as S
from . import model as M

BASE_P = dict(
    prims=S.INTS, tys={"prim": 12}, nfields=(1, 4), depth=2,
    forms={"struct": 10}, kinds={"named": 6, "tuple": 3},
)

UW = ["u8", "u16", "u32", "u64"]
HOSTILE = ("reader options args endian pos position temp error result value val this ro offset magic saved_position core std "
           "binread alloc read seek vec string ok err some none item default option read_options after_parse arguments index "
           "u8 str bool main len i n e res ret out before after variant variants errors error_basket basket field input map try_map "
           "parse_with parser saved tmp _pos _temp __pos stream_pos start end size pad align skip data big little native b c d p f g h "
           "v w y z it inner outer ptr target separator list format assert enum_ struct_ type_ closure func cond condition message msg").split()


class Gen:
    def __init__(self, rng, profile, name):
        self.r = rng
        self.P = dict(BASE_P)
        self.P.update(profile)
        self.name = name
        self.eid = 0
        self.nd = 0
        self.defs = []
        # some programs use names which generated code might use as well
        self.idents = {}
        self.hostile = rng.sample(HOSTILE, len(HOSTILE)) if self.p("hostile") else []
        if self.hostile and rng.random() < .6:
            # what code generators like to use themselves
            hot = "args options reader count endian offset pos value result temp error this ro val arguments arg magic before".split()
            rng.shuffle(hot)
            self.hostile = [x for x in self.hostile if x not in hot] + hot

    # -- helpers
    def ident(self, k):
        if k not in self.idents:
            self.idents[k] = self.hostile.pop() if self.hostile and self.r.random() < .6 else k
        return self.idents[k]

    def p(self, k):
        v = self.P.get(k, 0)
        return v and self.r.random() < v

    def w(self, d):
        ks = list(d)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def new_ev(self):
        self.eid += 1
        return self.eid

    def defname(self, k):
        self.nd += 1
        return "%s%d" % (k, self.nd)

    # -- expressions over the scope: [(name, how)]
    def ex(self, scope, depth=2, small=False):
        r = self.r
        if scope and r.random() < 0.7:
            n, how = r.choice(scope)
            e = S.V(n, how)
        else:
            e = S.C(r.choice((0, 1, 2, 3, 5, 7, 255, 256, r.randrange(1 << 16))) if not small else r.randrange(5))
        if depth and r.random() < 0.35:
            op = r.choice(("add", "xor", "sub", "mul", "and", "or"))
            e = S.B(op, e, self.ex(scope, depth - 1, small))
        return e

    def small(self, scope, hi, lo=0):
        """An expression with a value in lo..=hi"""
        r = self.r
        if self.P.get("raw") and scope and r.random() < self.P["raw"]:
            return S.V(*r.choice(scope))
        if scope and r.random() < 0.65:
            n, how = r.choice(scope)
            e = S.B("mod", S.V(n, how), S.C(hi - lo + 1))
            return S.B("add", e, S.C(lo)) if lo else e
        return S.C(r.randint(lo, hi))

    def cond(self, scope, bias=0.75, log=True):
        """Mostly true conditions (by bias) which depend on the scope."""
        r = self.r
        x = r.random()
        if not scope or x < 0.06:
            c = S.BoolC(r.random() < bias)
        elif x < 0.45:
            m = r.choice((2, 3, 4))
            c = S.Cmp("!=" if r.random() < bias else "==", S.B("mod", S.V(*r.choice(scope)), S.C(m)), S.C(r.randrange(m)))
        elif x < 0.7:
            c = S.Cmp("<" if r.random() < bias else ">=", S.B("mod", S.V(*r.choice(scope)), S.C(8)), S.C(r.randint(2, 7)))
        elif len(scope) > 1:
            a, b = r.sample(scope, 2)
            c = S.Cmp(r.choice(("!=", "<=", "<", ">=")), S.V(*a), S.V(*b))
        else:
            c = S.Cmp("!=" if r.random() < bias else "==", S.V(*r.choice(scope)), S.C(r.randrange(5)))
        return S.Ev(self.new_ev(), c) if log else c

    def assert_(self, scope, bias=0.75):
        k = self.w({"plain": 3, "msg": 3, "fmt": 3, "custom": 3, "customstr": 1})
        return S.Assert(self.cond(scope, bias), k, self.new_ev(), self.ex(scope, 1), "m%d msg" % self.eid)

    def magic(self, kinds=None):
        r = self.r
        k = self.w(kinds or self.P.get("magics") or {"bytes": 4, "byte": 2, "char": 1, "int": 5, "f32": 1, "f64": 1})
        if k == "bytes":
            n = r.choice((1, 2, 3, 4, 4, 5, 8, r.randrange(1, 10)))
            return S.Magic(k, [r.choice((65, 66, 67, 120, 0, 0xFF, r.randrange(256))) for _ in range(n)])
        if k == "byte":
            return S.Magic(k, r.randrange(256))
        if k == "char":
            return S.Magic(k, r.choice((65, 122, 0, 0xE9, 0xFF, 0x80, r.randrange(256))))
        if k in ("f32", "f64"):
            return S.Magic(k, r.choice((1.5, 0.25, 1.2, 100.0, 3.0e10, 0.0)))
        t = k if k in S.PRIMS else r.choice(S.INTS)
        size, signed = S.PRIMS[t]
        hi = (1 << (8 * size - (1 if signed else 0))) - 1
        v = r.choice((1, 2, 0x01020304 & hi, hi, r.randrange(hi + 1), r.randrange(hi + 1)))
        return S.Magic(t, v)

    # -- types
    def prim(self):
        return S.Prim(self.r.choice(self.P["prims"]))

    def ty(self, depth, noargs=False, in_arr=False, want_default=False, in_vec=False):
        r = self.r
        for _ in range(60):
            t = self.ty1(depth, noargs, in_arr)
            if noargs and S.args_of(t):
                continue
            if want_default and not S.can_default(t):
                continue
            if in_arr and not self.P.get("cg") and not S.can_default(t):
                continue
            return t
        return S.Prim("u8")

    def ty1(self, depth, noargs, in_arr):
        r = self.r
        k = self.w(self.P["tys"])
        if depth <= 0 and k in ("arr", "tup", "box", "opt", "ptr", "pos", "def", "tracked", "vec"):
            k = "prim"
        if k == "prim":
            return self.prim()
        if k == "unit":
            return S.Unit()
        if k == "phantom":
            return S.Phantom()
        if k == "arr":
            n = r.choice(self.P.get("arr_n") or (0, 1, 2, 3, 4, 5, 8, r.randrange(33)))
            t = self.ty(depth - 1, noargs, True)
            while n * leaves(t) > 260:
                n //= 2
            return S.Arr(t, n)
        if k == "tup":
            n = r.choice((1, 2, 3, 4, r.randrange(1, 9), r.randrange(1, 33) if r.random() < .3 else 2))
            if n > 6:
                return S.Tup([self.prim() for _ in range(n)])
            return S.Tup([self.ty(depth - 1, True, in_arr) for _ in range(n)])
        if k == "box":
            return S.Box(self.ty(depth - 1, noargs, in_arr))
        if k == "opt":
            return S.Opt(self.ty(depth - 1, noargs))
        if k == "ptr":
            p = r.choice(self.P.get("ptr_prims") or ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"])
            t = S.Ptr(p, self.ty(depth - 1, noargs), r.random() < .5)
            t.hint = self.ptr_hint(p)
            return t
        if k == "pos":
            return S.Pos(self.ty(depth - 1, noargs))
        if k == "tracked":
            return S.Tracked(self.ty(depth - 1, noargs, in_arr))
        if k == "nstr":
            return S.NStr()
        if k == "nwstr":
            return S.NWStr()
        if k == "nz8":
            return S.NZ8()
        if k == "nz16":
            return S.NZ16()
        if k == "spy":
            return S.Spy(0 if noargs or not self.P.get("spyargs") else r.choice((0, 1, 2)))
        if k == "def":
            return S.Ref(self.definition(depth - 1, imports=not noargs))
        raise ValueError(k)

    def huge(self):
        r = self.r
        return (1 << r.choice((15, 16, 31, 31, 32, 32, 33, 40, 48))) + r.choice((0, 0, -1, 1, 5, 16))

    def ptr_hint(self, p):
        lo = 0
        if p[0] == "i" and self.r.random() < 0.3:
            lo = -4
        return (lo, self.P.get("ptr_hi", 40))

    # -- fields
    def has_vec(self, t):
        if isinstance(t, S.Vec):
            return True
        if isinstance(t, (S.Arr, S.Box, S.Opt, S.Ptr, S.Pos, S.Tracked)):
            return self.has_vec(t.t)
        return False

    def set_args(self, f, t, scope):
        n = len(S.args_of(t))
        if n:
            f.args = [self.ex(scope, 1) for _ in range(n)]
            f.args_tuple = self.r.random() < .3

    def field(self, i, scope, depth, prefix="f"):
        r = self.r
        f = S.Field(self.ident("f%d" % i) if prefix == "f" else "%s%d" % (prefix, i), None)
        mode = self.w(self.P.get("modes") or {"read": 1})
        if mode == "try":
            t = self.ty(depth)
            f.ty, f.try_ = S.Opt(t), True
            self.set_args(f, t, scope)
        elif mode == "vec":
            cnt = self.small(scope, self.P.get("count_hi", 5))
            f.ty = S.Vec(self.ty(depth - 1, in_vec=True))
            if self.P.get("raw") and self.zero_sized(f.ty.t):
                f.ty.t = S.Prim("u8")
            f.count = cnt
            self.set_args(f, f.ty, scope)
        elif mode == "map":
            self.gen_map(f, scope, depth)
            if self.p("map_try"):
                f.try_ = f.map.opt = True
                k = r.random()
                if k < .3 and depth > 0:
                    p = r.choice(("u8", "u16", "i16", "u32"))
                    f.map.src = S.Ptr(p, self.ty(depth - 1, True), r.random() < .5)
                    f.map.src.hint = self.ptr_hint(p)
                elif k < .7 and depth > 0:
                    f.map.src = S.Ref(self.definition(depth - 1, imports=False))
        elif mode == "calc":
            f.mode, f.ty = "calc", S.Prim(r.choice(S.INTS))
            f.calc = (self.new_ev(), self.ex(scope))
            if r.random() < self.P.get("calc_try", 0):
                f.ty, f.try_ = S.Opt(f.ty), True
        elif mode == "default":
            f.mode = "default"
            f.ty = self.ty(depth, want_default=True, noargs=True)
            if self.p("default_types"):
                f.ty = r.choice((S.Opt(S.Prim("u32")), S.Vec(S.Prim("u16")), S.Arr(S.Prim("u16"), 3), S.NStr(), S.Prim("f32")))
        elif mode == "custom":
            if self.p("custom_map"):
                self.gen_map(f, scope, depth)
                f.map.src = S.Prim("u16")
            else:
                f.ty = S.Prim("u16")
            f.mode, f.parser = "parse_with", ("custom", r.randrange(8))
        elif mode == "closure":
            t = self.ty(depth)
            f.mode, f.ty, f.parser = "parse_with", t, ("closure", t, self.new_ev())
            self.set_args(f, t, scope)
        elif mode == "ptrparse":
            t = self.ty(depth - 1)
            p = r.choice(["u8", "u16", "u32", "i16", "u64"])
            f.mode, f.ty = "parse_with", t
            f.parser = ("FilePtr", p, t, self.ptr_hint(p))
            self.set_args(f, t, scope)
        elif mode in ("until", "until_exclusive", "until_eof", "count", "read_bytes", "separated", "separated_trailing"):
            self.gen_helper(f, mode, scope, depth)
        else:
            f.ty = self.ty(depth)
            self.set_args(f, f.ty, scope)
            if r.random() < self.P.get("spy_count", 0) and isinstance(f.ty, S.Spy):
                f.count = self.small(scope, 9)
        if isinstance(f.ty, S.Prim) and f.mode == "read" and not f.map and f.ty.n in S.INTS and r.random() < 0.6:
            f.hint = (0, r.choice((3, 8, 40)))
        if f.mode == "parse_with" and self.p("parse_try"):
            f.try_ = True
            if f.map:
                f.map.opt = True
            else:
                f.ty = S.Opt(f.ty)
        # directives
        if self.p("field_endian"):
            f.endian = r.choice(("big", "little"))
            if self.p("cond_endian") and scope:
                f.endian = (r.choice(("is_big", "is_little")), self.cond(scope, .5, False))
        if self.p("field_magic"):
            f.magic = self.magic()
        if self.p("offset"):
            f.offset = self.small(scope, 12)
        if self.p("offset_after") and f.mode == "read":
            # may use any field, those read later as well: see finish_fields
            f.offset_after = "later"
        if self.p("deref_now") and f.offset_after is None:
            f.deref_now = True
        if self.p("if"):
            c = self.cond(scope, .5)
            alt = None
            t = f.ty
            if (isinstance(t, S.Prim) and t.n in S.INTS) and r.random() < .6:
                alt = S.Alt(self.new_ev(), self.ex(scope, 1))
            elif isinstance(t, S.Opt) and isinstance(t.t, S.Prim) and t.t.n in S.INTS and r.random() < .4:
                alt = S.Alt(self.new_ev(), self.ex(scope, 1))
            if alt or S.can_default(t):
                f.if_ = (c, alt)
        if self.p("restore"):
            f.restore = True
        for k, hi in (("pad_before", 6), ("pad_after", 6)):
            if self.p(k):
                f_ = self.small(scope, hi)
                if self.p("huge"):
                    f_ = S.C(self.huge())
                    if r.random() < .3:
                        f_ = S.B("sub", S.C(0), f_)
                elif self.p("pad_negative"):
                    f_ = S.B("sub", f_, S.C(r.randint(1, 4)))
                setattr(f, k, f_)
        for k in ("align_before", "align_after"):
            if self.p(k):
                setattr(f, k, S.C(self.huge()) if self.p("huge") else self.small(scope, r.choice((2, 4, 8, 16)), 1) if r.random() < .6 else S.C(r.choice((1, 2, 3, 4, 7, 8, 16, 32))))
        if self.p("pad_size_to"):
            f.pad_size_to = S.C(self.huge()) if self.p("huge") else self.small(scope, 20)
        if self.p("seek_before"):
            k = r.choice(("Start", "Current", "Current", "End"))
            e = self.small(scope, 24)
            if self.p("huge"):
                e = S.C(self.huge())
                if k != "Start" and r.random() < .5:
                    e = S.B("sub", S.C(0), e)
            elif k == "End":
                e = S.B("sub", S.C(0), self.small(scope, 12))
            elif k == "Current" and r.random() < .5:
                e = S.B("sub", e, S.C(r.randint(1, 6)))
            f.seek_before = (k, e)
        # the new name is in scope for the field's own assertions
        me = self.scope_of(f)
        for _ in range(self.P.get("nasserts", 1) if self.p("field_assert") else 0):
            f.asserts.append(self.assert_(scope + me, self.P.get("bias", .8)))
        if self.p("temp"):
            f.temp = True
        return f

    def scope_of(self, f):
        t = f.ty
        if isinstance(t, S.Prim) and t.n in S.INTS + ["char"]:
            return [(f.name, "as")]
        if isinstance(t, S.Pos):
            if isinstance(t.t, S.Prim) and t.t.n in S.INTS:
                return [(f.name, "pos"), (f.name, "val")]
            return [(f.name, "pos")]
        if isinstance(t, S.Vec):
            return [(f.name, "len")]
        return []

    def gen_map(self, f, scope, depth):
        r = self.r
        dst = r.choice(S.INTS)
        src = S.Prim(r.choice(S.INTS[:4] + S.INTS[5:9]))
        kind = self.w(self.P.get("maps") or {"map": 3, "try": 3, "tryio": 1})
        form = "fn" if r.random() < .35 else "closure"
        sc = [] if form == "fn" else scope
        x = [("x", "as")]
        f.ty = S.Prim(dst)
        f.map = S.Map(kind, src, dst, r.choice((1, 1, 2, 3, 257)), self.ex(sc, 1), self.new_ev(), form,
                      self.cond(x + sc, .7, False) if kind != "map" else None)
        f.hint = (0, 9)

    def gen_helper(self, f, mode, scope, depth):
        r = self.r
        f.mode = "parse_with"
        coll = r.choice(("Vec", "Vec", "VecDeque"))

        def item(rewinding=False):
            for _ in range(40):
                t = self.ty(depth - 1)
                if rewinding and not (isinstance(t, S.Prim) or isinstance(t, S.Ref)):
                    continue
                if self.zero_sized(t):
                    continue
                return t
            return S.Prim("u16")
        if mode == "read_bytes":
            f.ty, f.parser = S.Vec(S.Prim("u8")), ("read_bytes", None)
            f.count = self.small(scope, self.P.get("bytes_hi", 12))
        elif mode == "count":
            t = item()
            f.ty, f.parser = S.Vec(t, coll), ("count", t, self.small(scope, self.P.get("count_hi", 5)))
            self.set_args(f, t, scope)
        elif mode == "until_eof":
            t = item(True)
            f.ty, f.parser = S.Vec(t, coll), ("until_eof", t)
            self.set_args(f, t, scope)
        elif mode in ("until", "until_exclusive"):
            t = r.choice((S.Prim(r.choice(S.INTS)), None, None)) or item()
            m = r.choice((2, 3, 4))
            k = r.randrange(m)
            if isinstance(t, S.Prim) and t.n in S.INTS:
                expr, pred = "(*x as u64) %% %d == %d" % (m, k), (lambda v: (v & M.M64) % m == k)
            elif isinstance(t, S.Pos) and isinstance(t.t, S.Prim) and t.t.n in S.INTS:
                expr, pred = "(x.val as u64) %% %d == %d" % (m, k), (lambda v: (v.val & M.M64) % m == k)
            elif isinstance(t, S.Ref) and isinstance(t.d, S.Struct) and t.d.kind == "named" and not t.d.map and any(
                    isinstance(g.ty, S.Prim) and g.ty.n in S.INTS and not g.temp for g in t.d.fields):
                perm = [g for g in t.d.fields if not g.temp]
                j = r.choice([j for j, g in enumerate(perm) if isinstance(g.ty, S.Prim) and g.ty.n in S.INTS])
                expr = "(x.%s as u64) %% %d == %d" % (perm[j].name, m, k)
                pred = (lambda v: (v.items[j] & M.M64) % m == k)
            else:
                t = S.Prim("u16")
                expr, pred = "(*x as u64) %% %d == %d" % (m, k), (lambda v: (v & M.M64) % m == k)
            f.ty, f.parser = S.Vec(t, coll), (mode, t, expr, self.new_ev(), pred)
            self.set_args(f, t, scope)
        else:
            t = item()
            p = self.prim()
            if r.random() < .4:
                p = self.ty(depth - 1, True)
                if r.random() < .3 and depth > 1:
                    n = r.choice(("u8", "u16", "i8"))
                    p = S.Ptr(n, p, r.random() < .5)
                    p.hint = self.ptr_hint(n)
            f.ty, f.parser = S.Punct(t, p), (mode, t, p)
            f.count = self.small(scope, 4)
            self.set_args(f, t, scope)

    def zero_sized(self, t):
        if isinstance(t, (S.Unit, S.Phantom)):
            return True
        if isinstance(t, S.Arr):
            return t.n == 0 or self.zero_sized(t.t)
        if isinstance(t, S.Tup):
            return all(self.zero_sized(x) for x in t.ts)
        if isinstance(t, (S.Box, S.Opt, S.Pos, S.Tracked)):
            return self.zero_sized(t.t)
        if isinstance(t, S.Ref):
            d = t.d
            if isinstance(d, S.Struct):
                if d.magic and d.magic.value != []:
                    return False
                if d.map:
                    return False
                return not any(f.mode == "read" and  not f.restore and not f.if_ and not f.try_ and f.seek_before is None
                               and f.pad_before is None and f.pad_after is None and not self.zero_sized(f.ty) for f in d.fields)
            if isinstance(d, S.UnitEnum):
                return False
            return not all(any(f.mode == "read" and not f.restore and not f.if_ and not f.try_ and not self.zero_sized(f.ty)
                               for f in v.fields) for v in d.variants)
        return False

    def fields(self, n, scope, depth, prefix="f"):
        out = []
        scope = list(scope)
        for i in range(n):
            f = self.field(i, scope, depth, prefix)
            out.append(f)
            scope += self.scope_of(f)
        for f in out:
            if f.offset_after == "later":
                f.offset_after = self.small(scope, 12)
        return out, scope

    # -- definitions
    def imports(self, d):
        r = self.r
        n = r.choice((1, 1, 2, 3)) if r.random() < .9 else r.randint(4, 10)
        if self.p("import_tuple"):
            d.import_tuple = self.ident("t")
            d.imports = [("%s.%d" % (d.import_tuple, i), r.choice(UW + ["i32"])) for i in range(n)]
        else:
            d.imports = [(self.ident("a%d" % i), r.choice(UW + ["i32"])) for i in range(n)]
        return [(n_, "as") for n_, _ in d.imports]

    def top(self, d, scope):
        r = self.r
        if self.p("top_endian"):
            d.endian = r.choice(("big", "little"))
        if self.p("top_magic"):
            d.magic = self.magic()
        if self.p("pre_assert"):
            for _ in range(r.choice((1, 1, 2, 3))):
                d.pre_asserts.append(self.assert_(scope, self.P.get("bias", .8)))

    def definition(self, depth, imports=True):
        k = self.w(self.P["forms"])
        d = getattr(self, "def_" + k)(depth, imports and self.p("imports"))
        if d.attr_macro is False and (self.p("attr_macro") or self.uses_temp(d)):
            d.attr_macro = True
        self.defs.append(d)
        return d

    def uses_temp(self, d):
        if isinstance(d, S.Struct):
            return any(f.temp for f in d.fields)
        if isinstance(d, S.Enum):
            return any(f.temp for v in d.variants for f in v.fields)
        return False

    def def_struct(self, depth, imports):
        r = self.r
        d = S.Struct(self.defname("S"), [])
        scope = self.imports(d) if imports else []
        d.kind = self.w(self.P["kinds"])
        self.top(d, scope)
        if d.kind == "unit":
            fs, sc = [], scope
        else:
            pre = "self_" if d.kind == "tuple" else "f"
            fs, sc = self.fields(r.randint(*self.P["nfields"]), scope, depth, pre)
            if d.kind == "tuple" and all(f.temp for f in fs):
                fs[0].temp = False
        d.fields = fs
        if self.p("generic"):
            cand = [f for f in fs if f.mode == "read" and not f.map and not S.args_of(f.ty) and not f.try_
                    and not (f.if_ and f.if_[1]) and not self.mentions(fs, d, f) and not f.temp and not isinstance(f.ty, S.Unit)]
            if cand:
                f = r.choice(cand)
                f.gen, d.generic = True, f.ty
                sc = [x for x in sc if x[0] != f.name]
        if self.p("assert"):
            for _ in range(r.choice((1, 1, 2, 3))):
                d.asserts.append(self.assert_(sc, self.P.get("bias", .8)))
        return d

    def mentions(self, fs, d, f):
        """Is the value of a field used by an expression?"""
        pat = __import__("re").compile(r"\b%s\b" % f.name)
        rd = S.Render(None)
        for g in fs:
            if any(pat.search(t) for _, t in rd.field_directives(g)):
                return True
        return False

    def def_topmap(self, depth, imports):
        r = self.r
        d = S.Struct(self.defname("S"), [])
        scope = []
        src = S.Prim(r.choice(UW))
        if imports and r.random() < .6:
            # the arguments go on to the type which is read
            inner = S.Struct(self.defname("S"), [])
            scope = self.imports(inner)
            inner.imports = [(n, t) for n, t in inner.imports]
            f = S.Field(self.ident("f0"), S.Prim(r.choice(UW)))
            f.hint = (0, 9)
            if r.random() < .5:
                f.asserts.append(self.assert_(scope + [(f.name, "as")], self.P.get("bias", .8)))
            else:
                f.map = S.Map("map", S.Prim("u8"), f.ty.n, 1, self.ex(scope, 0), self.new_ev())
            inner.fields = [f]
            self.defs.append(inner)
            src = S.Ref(inner)
            d.imports, d.import_tuple = list(inner.imports), inner.import_tuple
        self.top(d, scope)
        kind = r.choice(("map", "try"))
        form = "fn" if r.random() < .3 else "closure"
        d.map = S.TopMap(kind, src, r.choice(S.INTS), r.choice((1, 2, 3)), self.ex(scope if form != "fn" else [], 1),
                         self.new_ev(), self.cond([("x", "as")], .7, False), form)
        d.map.shape = r.choice(("struct", "struct", "tuple", "enum"))
        return d

    def def_enum(self, depth, imports):
        r = self.r
        d = S.Enum(self.defname("E"), [])
        scope = self.imports(d) if imports else []
        self.top(d, scope)
        n = r.randint(*self.P.get("nvariants", (1, 4)))
        nf = self.P["nfields"]
        if self.p("many_variants"):
            n = r.choice((9, 17, 18, 33, 40))
            nf = (1, 1)
        any_data = False
        for i in range(n):
            kind = self.w(self.P.get("vkinds") or {"named": 4, "tuple": 4, "unit": 2})
            if i == n - 1 and not any_data and kind == "unit":
                kind = "tuple"
            v = S.Variant("V%c" % (65 + i) if n <= 26 else "V%d" % i, [], kind)
            if self.p("variant_magic"):
                v.magic = self.magic(self.P.get("vmagics"))
                if kind != "unit" and i and self.r.random() < .3:
                    # share a prefix with an earlier variant
                    prev = [x.magic for x in d.variants if x.magic]
                    if prev:
                        v.magic = r.choice(prev)
            if kind != "unit":
                any_data = True
                if self.p("variant_endian"):
                    v.endian = r.choice(("big", "little"))
                pre = "self_" if kind == "tuple" else "f"
                v.fields, sc = self.fields(r.randint(*nf), scope, depth if n < 9 else 0, pre)
                if kind == "tuple" and all(f.temp for f in v.fields):
                    v.fields[0].temp = False
                if self.p("variant_assert"):
                    v.asserts.append(self.assert_(sc, self.P.get("vbias", .5)))
            if self.p("variant_pre"):
                many = r.choice((1, 1, 1, 2, 3, 4))
                for _ in range(many):
                    v.pre_asserts.append(self.assert_(scope, 1 - (1 - self.P.get("vbias", .5)) / many))
            d.variants.append(v)
        if self.p("enum_assert") and all(v.kind != "unit" for v in d.variants):
            # may only use what every variant has
            d.asserts.append(self.assert_(scope, self.P.get("bias", .8)))
        d.mode = self.w({None: 3, "return_all_errors": 2, "return_unexpected_error": 2})
        return d

    def def_uenum(self, depth, imports):
        r = self.r
        imports = imports and self.p("uenum_imports")
        n = r.randint(1, 6)
        if self.p("many_variants"):
            n = r.choice((17, 33, 60))
        name = lambda i: "V%c" % (65 + i) if n <= 26 else "V%d" % i
        if r.random() < .5:
            t = r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"])
            d = S.UnitEnum(self.defname("U"), [], t)
            size, signed = S.PRIMS[t]
            lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            vals, cur = [], None
            used = set()
            for i in range(n):
                disc = None
                if r.random() < .6 or cur is None and r.random() < .5:
                    disc = r.choice((0, 1, 2, 5, hi, lo, r.randint(lo, hi), r.randint(lo, hi)))
                val = disc if disc is not None else (0 if cur is None else cur + 1)
                if val in used or not lo <= val <= hi:
                    continue
                used.add(val)
                cur = val
                v = S.UVariant(name(i), disc)
                v.value = val
                d.variants.append(v)
            if not d.variants:
                v = S.UVariant(name(0), 1)
                v.value = 1
                d.variants.append(v)
            if self.p("top_magic"):
                d.magic = self.magic()
        else:
            d = S.UnitEnum(self.defname("U"), [])
            k = r.choice(("bytes", "byte", "char", r.choice(S.INTS), r.choice(S.INTS)))
            length = r.randint(1, 5)
            seen = []
            for i in range(n):
                m = self.magic({k: 1})
                if k == "bytes":
                    m.value = ([r.choice((65, 66, r.randrange(256))) for _ in range(length)])
                if m.value in seen and r.random() < .7:
                    continue
                seen.append(m.value)
                v = S.UVariant(name(i), None, m)
                d.variants.append(v)
            if r.random() < .2 and len(d.variants) > 1:
                d.variants[r.randrange(len(d.variants))].magic = None
        if self.p("top_endian"):
            d.endian = r.choice(("big", "little"))
        scope = self.imports(d) if imports else []
        for v in d.variants:
            if self.p("variant_pre"):
                many = r.choice((1, 1, 1, 2, 3, 4))
                for _ in range(many):
                    v.pre.append(self.assert_(scope, 1 - .5 / many))
        return d

    def program(self):
        roots = self.P.get("roots") or {"def": 1}
        k = self.w(roots)
        if k == "def":
            root = S.Ref(self.definition(self.P["depth"], imports=bool(self.P.get("root_args"))))
        else:
            root = self.ty(self.P["depth"], noargs=True)
        # only the reachable definitions
        self.watch(root)
        args = [self.r.randrange(1 << (8 * S.PRIMS[t][0] - 1)) if self.r.random() < .3 else self.r.randrange(8) for t in S.args_of(root)]
        p = S.Program(self.name, reachable(self.defs, root), root, args)
        return p


    def watch(self, root):
        """Some expressions of directives tell when they are evaluated."""
        def w(e):
            return S.Once(self.new_ev(), e) if isinstance(e, S.Ex) and self.p("once") else e
        for d in reachable(self.defs, root):
            for f in all_fields(d):
                if not f.if_ and f.mode in ("read", "parse_with"):
                    f.args = f.args and [w(e) for e in f.args]
                    f.offset, f.count = w(f.offset), w(f.count)
                for k in ("pad_before", "pad_after", "align_before", "align_after", "pad_size_to", "offset_after"):
                    setattr(f, k, w(getattr(f, k)))
                if f.seek_before:
                    f.seek_before = (f.seek_before[0], w(f.seek_before[1]))


def leaves(t):
    """How many values a type holds, roughly: values on the stack stay small."""
    if isinstance(t, S.Arr):
        return t.n * leaves(t.t)
    if isinstance(t, S.Tup):
        return sum(leaves(x) for x in t.ts)
    if isinstance(t, (S.Opt, S.Pos, S.Tracked, S.Ptr)):
        return 1 + leaves(t.t)
    if isinstance(t, S.Ref):
        return 1 + sum(leaves(f.ty) for f in all_fields(t.d))
    return 1


def walk_types(t):
    yield t
    if isinstance(t, (S.Arr, S.Vec, S.Box, S.Opt, S.Ptr, S.Pos, S.Tracked)):
        yield from walk_types(t.t)
    elif isinstance(t, S.Tup):
        for x in t.ts:
            yield from walk_types(x)
    elif isinstance(t, S.Punct):
        yield from walk_types(t.t)
        yield from walk_types(t.p)


def all_fields(d):
    if isinstance(d, S.Struct):
        return d.fields
    if isinstance(d, S.Enum):
        return [f for v in d.variants for f in v.fields]
    return []


def reachable(defs, root):
    seen = []

    def visit_ty(t):
        for x in walk_types(t):
            if isinstance(x, S.Ref):
                visit(x.d)

    def visit(d):
        if d in seen:
            return
        if getattr(d, "map", None):
            visit_ty(d.map.src)
        for f in all_fields(d):
            visit_ty(f.ty)
            if f.map:
                visit_ty(f.map.src)
            if f.parser:
                for x in f.parser:
                    if isinstance(x, S.Ty):
                        visit_ty(x)
        if d not in seen:
            seen.append(d)
    visit_ty(root)
    return seen


# ------------------------------------------------------------------ inputs
def make_cases(prog, rng, n, opts):
    """n cases for a program, each with what the model expects."""
    out, tries = [], 0
    sigs = set()
    while len(out) < n and tries < n * 4:
        tries += 1
        c = {"prog": prog.name, "endian": rng.choice(opts.get("endians") or (0, 1, 2)), "mode": opts.get("mode", 0)}
        if opts.get("mode_choices"):
            c["mode"] = rng.choice([m for m in opts["mode_choices"] if m < 7 or not prog.args])
        bare = c["mode"] >= 2
        bases = opts.get("bases") or (0, 0, 0, 3, 64, (1 << 32) + 5, (1 << 40) + 1)
        c["base"] = rng.choice(bases)
        c["start"] = c["base"] + rng.choice((0, 0, 1, 3, 5, 8))
        if bare:
            pass
        elif opts.get("offsets") and rng.random() < .7:
            c["offset"] = rng.choice((c["base"], c["start"], 7, 4, 1))
        elif c["base"] > 1000 and opts.get("offsets"):
            c["offset"] = c["base"]
        if opts.get("counts") and not bare and rng.random() < .8:
            c["count"] = rng.randrange(opts.get("count_hi", 6))
        mem = M.LazyMem(c["base"], rng, opts.get("span", 600))
        try:
            x = M.run(prog, c, mem)
        except (M.Unspecified, RecursionError):
            continue
        data = bytearray(mem.freeze())
        if rng.random() < .5:
            data += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 12)))
        y = rng.random()
        if y < opts.get("truncate", .15) and data:
            data = data[:rng.randrange(len(data))]
        elif y < opts.get("truncate", .15) + opts.get("mutate", .12) and data:
            for _ in range(rng.choice((1, 1, 2, 4))):
                data[rng.randrange(len(data))] = rng.choice((0, 1, 255, rng.randrange(256)))
        c["data"] = bytes(data)
        sh = rng.random()
        if c["base"] == 0 and rng.random() < opts.get("inner", .1):
            c["extra"] = rng.choice((1, 1, 2))
        elif sh < opts.get("short", .3):
            c["short"] = rng.choice((1, 2, 3, 255))
        if rng.random() < opts.get("intr", .2):
            c["intr"] = rng.choice((1, 2, 3, 5))
        if rng.random() < opts.get("fault", 0) and not c.get("extra"):
            k = rng.randrange(8)
            lo = min(c["start"], c["base"])
            c["fault_addr"] = c["base"] + rng.randrange(len(data) + 1) if data else c["base"]
            c["fault_kind"] = k
            c["fault"] = opts.get("fault_name", lambda k: "%s#%d")(k)
        try:
            x = M.run(prog, c)
        except (M.Unspecified, RecursionError):
            continue
        except OverflowError:
            continue
        sig = (tuple(x.path), c["endian"], x.err.kind if x.err else "", c.get("mode"))
        c["sig"] = sig
        if sig in sigs and rng.random() < .7 and tries < n * 3:
            continue
        sigs.add(sig)
        c["expect"] = x
        out.append(c)
    return out
