"""C24 (spelling and order) and C23 (what the macro accepts)."""
import random
import re

from . import build as B
from . import core
from . import gen as G
from . import model as M
from . import run as R
from . import spec as S
from .checks import ASSUME, BUDGET, CHECKS
from .sweep import *


# ------------------------------------------------------------------ C24
def c24(v):
    """Every program in several spellings, each on the same inputs."""
    t = Tally(v, None, "An execution of a program in one of its spellings; distinct by the text of the spelling and by the sequence "
                       "of decisions which the reference takes.")
    prof = mix(nfields=(1, 4), field_assert=.25, nasserts=2, assert_=.3, pre_assert=.25, variant_assert=.3, variant_pre=.3, imports=.5,
               field_endian=.15, offset=.12, pad_before=.08, pad_after=.08, align_before=.07, align_after=.07, seek_before=.06,
               restore=.1, temp=.1, field_magic=.12, modes={"read": 8, "vec": 3, "calc": 2, "default": 1.5})
    big = 2 if core.tier() == "thorough" else 1
    for rnd in rounds(BUDGET):
        rng = sub_rng(v.prop, "styles", rnd)
        progs = core.programs(rng, prof, 90 * big, accept=lambda p: S.Render(p).source().count("#[br(") > 1)
        cs = make_all(progs, rng, 30, dict(offsets=1, fault=.08, fault_name=fault_name("std")))
        texts = {p.name: {S.Render(p).source()} for p in progs}
        for k in range(5):
            seed = rng.randrange(1 << 40)

            def render(p, seed=seed, k=k):
                r = S.Render(p, style=S.Style("%d/%s" % (seed, p.name)), derive=k == 3 or None)
                text = r.source()
                texts[p.name].add(text)
                return text
            variant = ["std", "std", "std", "std", "dbg"][k]
            sweep(t, "style", None, 0, 0, variant=variant, progs=progs, cases=[dict(c, sig=(c["sig"], k)) for c in cs], rnd=rnd, render=render)
        t.extra["spellings"] = t.extra.get("spellings", 0) + sum(len(x) for x in texts.values())
        if v.violations:
            break
    t.write(ASSUME)


CHECKS["C24"] = (c24, "exploration")


# ------------------------------------------------------------------ C23
import itertools
import os
from concurrent.futures import ThreadPoolExecutor
from collections import Counter

PRE = """use binread::{*, punctuated::Punctuated, io::{Read, Seek, SeekFrom}};
#[derive(BinRead, Debug, Clone, Default)]
#[br(import(z: u8))]
pub struct Inner { #[br(calc = z)] pub z: u8, pub a: u8 }
pub fn custom<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u16> { u16::read_options(r, o, ()) }
pub fn custom_args<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: (u8,)) -> BinResult<u16> { Ok(u16::read_options(r, o, ())? + a.0 as u16) }
pub fn conv(v: u8) -> u16 { v as u16 }
pub fn tconv(v: u8) -> Result<u16, u8> { if v > 3 { Err(v) } else { Ok(v as u16) } }
"""
NO_STD = "use alloc::{boxed::Box, string::String, vec::Vec}; "
# field directives which leave the type open; x and y are earlier fields
NEUTRAL = ["big", "little", "is_big = x == 1", "is_little(y > 3)", "magic = 7u8", "magic = b\"ab\"", "restore_position", "assert(true)",
           "assert(x != 9, \"x is {}\", x)", "assert(y == 2, String::from(\"m\"))", "pad_before = 2", "pad_after = x as i64", "align_before = 4",
           "align_after(8)", "seek_before = SeekFrom::Current(1)", "pad_size_to = y", "if(x == 1)", "temp"]
# directives which fix it
TYPED = [("u16", ""), ("u16", "map = conv"), ("u16", "map = |v: u32| v as u16"), ("u16", "try_map = tconv"),
         ("u16", "try_map = |v: u8| -> Result<u16, u8> { Ok(v as u16) }"),
         ("Inner", "args(3)"), ("Inner", "args(x)"), ("Inner", "args_tuple = (x,)"), ("u16", "calc = x as u16 + 1"), ("u16", "default"), ("u16", "ignore"),
         ("u16", "parse_with = custom"), ("u16", "parse_with = custom_args, args(x)"), ("u16", "parse_with = |r, o, _: ()| u16::read_options(r, o, ())"),
         ("Vec<u16>", "count = x"), ("Vec<u16>", "count = 3"), ("Vec<Inner>", "count = x, args(y)"), ("Vec<u8>", "parse_with = until_eof"),
         ("usize", "count = 2, map = |v: Vec<u8>| v.len()"), ("Option<u16>", "try"), ("Option<Inner>", "try, args(x)"), ("Option<Vec<u16>>", "try, count = x"),
         ("Vec<u16>", "parse_with = helpers::until(|v: &u16| *v == 0)"), ("Vec<u8>", "parse_with = helpers::read_bytes, count = 3"),
         ("Punctuated<u16, u8>", "parse_with = Punctuated::separated, count = 2"), ("[u16; 3]", ""), ("(u8, u16)", ""), ("core::marker::PhantomData<u8>", ""),
         ("PosValue<u16>", ""), ("NullString", ""), ("Box<u16>", ""), ("Option<u16>", "")]
POINTERS = [("FilePtr8<u16>", ""), ("FilePtr8<u16>", "offset = 3"), ("FilePtr8<u16>", "offset(x as u64), deref_now"), ("FilePtr8<u16>", "offset_after = z as u64"),
            ("FilePtr8<Inner>", "args(y)"), ("FilePtr8<Vec<u16>>", "count = x"), ("FilePtr8<u16>", "postprocess_now"), ("FilePtr8<FilePtr8<u16>>", "deref_now"),
            ("u16", "parse_with = FilePtr8::parse"), ("u16", "parse_with = FilePtr8::parse, offset = 1")]


def field(directives, ty, form, temp):
    """An item with the directives on its third field. Lines: one directive list each."""
    at = "".join("#[br(%s)]\n" % d for d in directives if d)
    derive = "#[derive_binread]\n#[derive(Debug)]\n" if temp else "#[derive(BinRead, Debug)]\n"
    # later fields have to be there for what they are used for
    if form == "struct":
        return derive + "pub struct T {\npub x: u8, pub y: u8,\n%spub f: %s,\npub z: u8,\n}" % (at, ty)
    if form == "variant":
        return derive + "pub enum T {\nB(u8),\nA {\nx: u8, y: u8,\n%sf: %s,\nz: u8,\n},\nC,\n}" % (at, ty)
    at = at.replace("(x", "(self_0").replace("(y", "(self_1").replace(" x", " self_0").replace(" y", " self_1").replace("= z", "= self_3").replace("(z", "(self_3")
    if form == "tuple":
        return derive + "pub struct T(\npub u8, pub u8,\n%spub %s,\npub u8,\n);" % (at, ty)
    return derive + "pub enum T {\nB(u8),\nA(\nu8, u8,\n%s%s,\nu8,\n),\n}" % (at, ty)


FORMS = ["struct", "variant", "tuple", "vtuple"]


def base(d):
    return re.match(r"\w+", d).group(0)


def default_ok(ty):
    return not ty.startswith(("FilePtr", "PosValue", "Punctuated"))


def accepted_fields():
    """Every pair of field directives which make sense together."""
    out = []

    def ok(ds, ty):
        names = [base(x) for d in ds for x in d.split(", ") if re.match(r"\w+", x)]
        if any(n == "if" for n in names) and not default_ok(ty):
            return False
        e = [n for n in names if n in ("big", "little", "is_big", "is_little")]
        if len(e) > 1:
            return False
        single = [n for n in names if n != "assert"]
        return len(single) == len(set(single))
    for i, (ty, d) in enumerate(TYPED + POINTERS):
        forms = FORMS if i < 4 else [FORMS[i % 4], FORMS[(i + 1) % 4]]
        for fm in forms:
            out.append(([d], ty, fm))
        for k, n in enumerate(NEUTRAL):
            if d == "parse_with = until_eof" and False:
                continue
            out.append(([d, n], ty, FORMS[(i + k) % 4]))
    for i, (a, b) in enumerate(itertools.combinations(NEUTRAL, 2)):
        out.append(([a, b], "u16", FORMS[i % 4]))
    res = []
    for ds, ty, fm in out:
        if ok([d for d in ds if d], ty):
            temp = "temp" in ds
            res.append(("field %s on %s in %s" % (" + ".join(d for d in ds if d), ty, fm), field(ds, ty, fm, temp)))
    return res


S_DIR = {"endian": ["big", "little"], "magic": ["magic = 1u8", "magic = b\"xy\"", "magic = 'c'", "magic = 0x1234i16", "magic = 1.5f32"],
         "import": ["import(p: u8, q: u16)", "import_tuple(p: (u8, u16))"],
         "assert": ["assert(x == 1)", "assert(x == 1, \"bad {}\", x)"], "pre_assert": ["pre_assert(true)", "pre_assert(false, 3u8)"]}


def accepted_types():
    out = []

    def item(kind, ds, body=None):
        at = "".join("#[br(%s)]\n" % d for d in ds)
        b = body or {"struct": "pub struct T { pub x: u8 }", "tuple": "pub struct T(pub u8);", "unit": "pub struct T;",
                     "enum": "pub enum T { A { x: u8 }, B { x: u8, y: u8 } }",
                     "repr": "#[br(repr = u8)]\npub enum T { A, B = 5 }", "magics": "pub enum T { #[br(magic = 1u8)] A, #[br(magic = 3u8)] B }"}[kind]
        if kind == "tuple":
            at = at.replace("x ==", "self_0 ==").replace(", x)", ", self_0)")
        if kind == "unit":
            at = at.replace("x == 1", "true").replace(", x)", ", 3)")
        out.append(("%s with %s" % (kind, ", ".join(ds)), "#[derive(BinRead, Debug)]\n%s%s" % (at, b)))
    for kind in ("struct", "tuple", "unit", "enum", "repr", "magics"):
        groups = [g for g in S_DIR if kind not in ("repr", "magics") or g not in ("assert", "pre_assert")]
        lists = [S_DIR[g] for g in groups]
        if kind == "enum":
            lists.append(["return_all_errors", "return_unexpected_error"])
        for k in (1, 2):
            for gs in itertools.combinations(lists, k):
                for ds in itertools.product(*gs):
                    item(kind, list(ds))
        item(kind, [l[0] for l in lists])
        item(kind, [l[-1] for l in lists])
    # maps of types: the function returns the type
    ctor = {"struct": "T { x: v }", "tuple": "T(v)", "unit": "{ let _ = v; T }", "enum": "T::A { x: v }", "repr": "{ let _ = v; T::A }"}
    for kind, c in ctor.items():
        body = None
        for d in ("map = |v: u8| %s" % c, "try_map = |v: u8| if v == 3 { Err(v) } else { Ok(%s) }" % c):
            item(kind, [d], body)
            for o in ("import(p: u8)", "import_tuple(p: (u8,))"):
                # the input of the function gets the arguments
                item(kind, [d.replace("v: u8", "v: Inner").replace("|v: Inner| ", "|v: Inner| { let v = v.a; ") + " }", o], body)
            for o in ("big", "little", "magic = 1u8") + (("pre_assert(true)",) if kind not in ("repr",) else ()):
                item(kind, [d, o], body)
    # variants
    v = [["big", "little"], ["magic = 2u8", "magic = b\"zz\""], ["assert(x == 1)", "assert(x == 2, 5u8)"], ["pre_assert(true)"]]
    for k in (1, 2):
        for gs in itertools.combinations(v, k):
            for ds in itertools.product(*gs):
                at = "".join("#[br(%s)]\n" % d for d in ds)
                out.append(("data variant with %s" % (ds,), "#[derive(BinRead, Debug)]\npub enum T {\n%sA { x: u8 },\nB(u8, u8),\n%sC { x: u8 },\nD,\n}" % (at, at)))
    for ds in (["magic = 2u8"], ["pre_assert(true)"], ["magic = 2u8", "pre_assert(p > 1)"], ["pre_assert(p == 1)", "pre_assert(true)"]):
        at = "".join("#[br(%s)]\n" % d for d in ds)
        out.append(("unit variant with %s" % (ds,), "#[derive(BinRead, Debug)]\n#[br(import(p: u8))]\npub enum T {\n%sA,\nB(u8),\n}" % at))
        if "magic" in at:
            out.append(("unit variant of a unit enum with %s" % (ds,), "#[derive(BinRead, Debug)]\n#[br(import(p: u8))]\npub enum T {\n%sA,\n%sB,\n}" % (at, at.replace("2u8", "3u8"))))
    for ty in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"):
        out.append(("repr %s" % ty, "#[derive(BinRead, Debug)]\n#[br(repr = %s)]\npub enum T { A = 1, B, C = 100 }" % ty))
        out.append(("repr(%s)" % ty, "#[derive(BinRead, Debug)]\n#[br(repr(%s))]\npub enum T { A = 1, B, C = 100 }" % ty))
    return out


HYGIENE = [
    ("fields named like what the generated code uses", """#![deny(warnings)]
#[derive(binread::BinRead, Debug)]
pub struct A { pub reader: u8, pub options: u8, pub args: u8, pub this: u8, pub pos: u16, pub endian: u8, pub magic: u8, pub count: u8, pub error: u8, pub result: u8, pub self_0: u8, pub val: u8,
  #[br(count = count, args())] pub read: Vec<u8>, #[br(if(val == 1, 3), pad_before = pos as i64)] pub seek: u8, #[br(calc = reader + options)] pub r#type: u8, #[br(align_after = 4, assert(result == 1, "x {}", result))] pub temp: u8,
  #[br(try)] pub r: Option<u8>, #[br(map = |x: u8| x + endian)] pub ro: u8, #[br(magic = 3u8)] pub f: u8, #[br(restore_position, is_big = error == 1)] pub e: u16 }"""),
    ("types named like those of the standard library", """#![allow(dead_code)]
pub struct Option; pub struct Result; pub struct Vec; pub struct Box; pub struct String; pub struct Error; pub struct Endian; pub struct ReadOptions; pub struct BinRead; pub trait Read {} pub trait Seek {}
#[derive(binread::BinRead, Debug)]
#[br(import(x: u8), assert(a == x, "hm"))]
pub struct A { #[br(little)] pub a: u8, #[br(count = 2)] pub b: std::vec::Vec<u8>, #[br(try)] pub c: std::option::Option<u8>, #[br(if(a == 1))] pub d: std::option::Option<u8>, #[br(try_map = |x: u8| if x == 1 { Err(3u8) } else { Ok(x) })] pub e: u8 , #[br(pad_size_to = 3)] pub f: u8, #[br(parse_with = binread::until_eof)] pub g: std::vec::Vec<u8>}
#[derive(binread::BinRead, Debug)]
#[br(big)]
pub enum B { #[br(magic = 1u8)] X, Y(u8), Z { #[br(assert(a == 1))] a: u8 } }
#[derive(binread::BinRead, Debug)]
#[br(repr = u8)]
pub enum C { X, Y = 4 }
#[derive(binread::BinRead, Debug)]
pub enum D { #[br(magic = b"ab")] X, #[br(magic = b"cd")] Y }"""),
    ("macros named vec and format", """#[allow(unused)]
macro_rules! vec { () => { compile_error!() } }
#[allow(unused)]
macro_rules! format { () => { compile_error!() } }
#[derive(binread::BinRead, Debug)]
#[br(assert(a == 1, "hm {}", a))]
pub struct A { #[br(little)] pub a: u8 }
#[derive(binread::BinRead, Debug)]
#[br(return_all_errors)]
pub enum B { #[br(magic = 1u8)] X, Y(u8), Z { #[br(assert(a == 1))] a: u8 } }"""),
    ("no unsafe code", """#![forbid(unsafe_code)]
#[derive(binread::BinRead, Debug)]
pub struct A(u8, #[br(count = self_0)] pub Vec<u8>);"""),
    ("generic types", """use binread::BinRead;
#[derive(BinRead, Debug)]
pub struct A<T: BinRead<Args = ()>, const N: usize> where [T; N]: BinRead<Args = ()> { pub a: [T; N] }
#[derive(BinRead, Debug)]
pub struct P<T>(pub std::marker::PhantomData<T>) where T: Copy;
#[derive(BinRead, Debug)]
pub struct Q<T: BinRead<Args = ()>> { pub a: T, #[br(count = 3)] pub b: Vec<T> }
#[derive(BinRead, Debug)]
#[br(import(n: usize))]
pub enum E<T: BinRead<Args = ()>, U: BinRead<Args = (u8,)>> { A { #[br(count = n)] a: Vec<T> }, #[br(magic = 3u8)] B(#[br(args(n as u8))] U) }
pub fn f() { #[derive(BinRead)] #[allow(dead_code)] struct L { a: u8 } }"""),
    ("parameters named like those of the generated code", """use binread::BinRead;
#[derive(BinRead)]
pub struct A<R: BinRead<Args = ()>> { pub a: R }
#[derive(BinRead)]
#[br(import(R: u8))]
#[allow(non_snake_case)]
pub struct B { #[br(calc = R)] pub a: u8 }
#[derive(BinRead)]
pub enum C<R, Reader: BinRead<Args = ()>, T: BinRead<Args = ()> = u8> where R: BinRead<Args = (u8,)> { A(#[br(args(3))] R), B { r: Reader, t: T } }"""),
    ("lifetimes, constants and defaults among the parameters", """use binread::BinRead;
#[derive(BinRead)]
pub struct A<'a, T: BinRead<Args = ()> + 'a, const N: usize> where T: Copy { #[br(count = N)] pub v: Vec<T>, #[br(default)] pub p: std::marker::PhantomData<&'a ()> }
#[derive(BinRead)]
pub struct B<T: BinRead<Args = ()> = u8> { pub a: T }
#[binread::derive_binread]
#[derive(Debug, Clone, PartialEq)]
pub struct C<T: BinRead<Args = ()>>(#[br(temp)] u8, #[br(count = self_0)] Vec<T>);
pub fn f() { const N: usize = 3; #[derive(BinRead)] #[allow(dead_code)] struct X { #[br(count = N)] v: Vec<u8> } }"""),
    ("raw names everywhere", """#[derive(binread::BinRead)]
#[allow(non_camel_case_types)]
pub enum r#type { r#match(u8), #[br(magic = 1u8)] r#fn, r#loop { r#let: u8 } }
#[derive(binread::BinRead)]
#[allow(non_camel_case_types)]
#[br(repr = u8)]
pub enum r#enum { r#match, r#fn }
#[derive(binread::BinRead)]
#[allow(non_camel_case_types)]
#[br(import(r#if: u8))]
pub struct r#struct { pub r#in: u8, #[br(calc = r#in + r#if, assert(r#in == r#out))] pub r#out: u8, #[br(count = r#in)] pub v: Vec<u8>, #[br(try)] pub r#try: Option<u8> }"""),
    ("expressions of all kinds", """#[derive(binread::BinRead)]
pub struct A { #[br(if(true))] pub a: Option<u8>, #[br(calc = { let x = 3; x })] pub b: u8, #[br(calc = if a.is_some() { 1 } else { 2 })] pub c: u8, #[br(calc = a.map_or(1, |x| x))] pub d: u8,
  #[br(map = |x: u8| -> u8 { return x; })] pub e: u8, #[br(map = u16::from as fn(u8) -> u16)] pub f: u16, #[br(count = { if c > 1 { 2 } else { 3 } } as usize + [1, 2][0])] pub g: Vec<u8> }
mod q { pub const MAGIC: u8 = 3; }
#[derive(binread::BinRead)]
pub struct B { #[br(assert(a == q::MAGIC, "no {}", q::MAGIC), assert(a != 0, std::io::Error::new(std::io::ErrorKind::Other, "x")), assert(matches!(a, 1..=9) && !(a < 1 || a >= 10)))] pub a: u8 }
#[derive(binread::BinRead)]
pub struct C { len: u8, #[br(count = len, if(len > 1, vec![]))] v: Vec<u8>, #[br(args(len, &v[..] == &[1][..]))] y: D }
#[derive(binread::BinRead)]
#[br(import(a: u8, b: bool))]
pub struct D { #[br(if(b))] pub x: u8, #[br(calc = a)] pub z: u8 }
#[derive(binread::BinRead)]
pub struct E { #[br(try_map = |x: u8| -> Result<bool, String> { Ok(x == 1) })] pub a: bool, #[br(try_map = |x: u8| std::convert::TryFrom::try_from(x))] pub c: i8, #[br(map = |x: Vec<u8>| x.len(), count = 3)] pub d: usize, #[br(map = |(x, y): (u8, u8)| x + y)] pub e: u8,
  #[br(map = |x: [u8; 4]| String::from_utf8_lossy(&x).into_owned())] pub f: String }
#[derive(binread::BinRead)]
pub struct F { #[br(offset = 3u64, deref_now)] pub a: binread::FilePtr32<u8>, #[br(offset_after = b as u64)] pub c: binread::FilePtr<u16, Vec<u8>>, pub b: u8 }"""),
    ("made by a macro of the user", """macro_rules! mk { ($n:ident, $f:ident, $t:ty, $e:expr, $l:literal) => { #[derive(binread::BinRead)] #[br(magic = $l)] pub struct $n { pub $f: $t, #[br(calc = $f + $e, if($f == $e))] pub y: $t } } }
mk!(X, foo, u8, 3, 3u8);
mk!(Y, r#type, u16, 3 + 4, b"abc");"""),
    ("visibilities", """pub mod k { #[derive(binread::BinRead)] pub(crate) struct X { pub(super) a: u8, pub(in crate) b: u8 } pub(crate) fn f(x: X) -> u8 { x.a + x.b } }"""),
    ("documentation and other attributes among them", """#![deny(missing_docs)]
//! m
/// A
#[derive(binread::BinRead, Debug)]
/// B
#[br(little)] /// C
#[allow(dead_code)]
pub struct A { /** a */ #[br(big)] /** x */ #[allow(unused)] pub a: u8 }"""),
    ("several attributes and directives with all separators", """use binread::*;
#[derive(BinRead, Debug)]
#[br(big,)]
#[br(magic(b"q"), import(a: u8, b: u16,),)]
pub struct A { #[br(assert(x == a,),)] pub x: u8, #[br(args(), count(b),)] pub y: Vec<u8>, #[br()] pub z: u8, #[br(if(x == 1, 3,))] pub w: u8 }
#[derive_binread]
#[binread(little, magic = 3u16)]
pub struct B { #[binread(temp)] x: u8, #[br(count = x)] y: Vec<u8> }"""),
]


# ---- what is to be refused; `!!` marks the line which the error points to
FIELD_ONLY = ["align_after = 4", "align_before = 4", "args(1)", "args_tuple = (1,)", "calc = 3", "count = 3", "default", "ignore", "deref_now", "postprocess_now",
              "if(true)", "is_big = true", "is_little = true", "offset = 3", "offset_after = 3", "pad_after = 1", "pad_before = 1", "pad_size_to = 4",
              "parse_with = custom", "restore_position", "seek_before = SeekFrom::Current(0)", "temp", "try"]
TYPE_ONLY = ["import(a: u8)", "import_tuple(a: (u8,))", "pre_assert(true)", "repr = u8", "return_all_errors", "return_unexpected_error"]
ALLNAMES = sorted({re.match(r"\w+", d).group(0) for d in FIELD_ONLY + TYPE_ONLY} | {"big", "little", "magic", "map", "try_map", "assert"})
ITEMS = {
    "struct": "#[derive(BinRead)]\n{}pub struct T { pub x: u8 }",
    "tuple": "#[derive(BinRead)]\n{}pub struct T(pub u8);",
    "unit": "#[derive(BinRead)]\n{}pub struct T;",
    "enum": "#[derive(BinRead)]\n{}pub enum T { A(u8), B { x: u8 } }",
    "repr": "#[derive(BinRead)]\n#[br(repr = u8)]\n{}pub enum T { A, B }",
    "magics": "#[derive(BinRead)]\n{}pub enum T { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }",
    "field": "#[derive(BinRead)]\npub struct T {\npub x: u8,\n{}pub f: u16,\n}",
    "tfield": "#[derive(BinRead)]\npub struct T(\npub u8,\n{}pub u16,\n);",
    "vfield": "#[derive(BinRead)]\npub enum T {\nA(u8),\nB {\nx: u8,\n{}f: u16,\n}\n}",
    "variant": "#[derive(BinRead)]\npub enum T {\nA(u8),\n{}B { x: u8 },\n}",
    "uvariant": "#[derive(BinRead)]\npub enum T {\nA(u8),\n{}B,\n}",
    "rvariant": "#[derive(BinRead)]\n#[br(repr = u8)]\npub enum T {\nA,\n{}B,\n}",
    "mvariant": "#[derive(BinRead)]\npub enum T {\n#[br(magic = 1u8)]\nA,\n#[br(magic = 2u8)]\n{}B,\n}",
}
NOT_AT = {
    "struct": FIELD_ONLY + TYPE_ONLY[3:], "tuple": FIELD_ONLY + TYPE_ONLY[3:], "unit": FIELD_ONLY + TYPE_ONLY[3:],
    "enum": FIELD_ONLY + ["repr = u8"], "repr": FIELD_ONLY + TYPE_ONLY[4:] + ["assert(true)", "pre_assert(true)"],
    "magics": FIELD_ONLY + TYPE_ONLY[4:] + ["assert(true)", "pre_assert(true)"],
    "field": TYPE_ONLY, "tfield": TYPE_ONLY, "vfield": TYPE_ONLY,
    "variant": FIELD_ONLY + TYPE_ONLY[3:],
    "uvariant": FIELD_ONLY + TYPE_ONLY[:2] + TYPE_ONLY[3:] + ["big", "little", "map = conv", "try_map = tconv", "assert(true)"],
    "rvariant": FIELD_ONLY + TYPE_ONLY[:2] + TYPE_ONLY[3:] + ["big", "little", "map = conv", "try_map = tconv", "assert(true)"],
    "mvariant": FIELD_ONLY + TYPE_ONLY[:2] + TYPE_ONLY[3:] + ["big", "little", "map = conv", "try_map = tconv", "assert(true)"],
}
SINGLE = {
    "struct": ["big", "little", "map = conv", "try_map = tconv", "magic = 1u8", "import(a: u8)", "import_tuple(a: (u8,))"],
    "enum": ["big", "little", "map = conv", "try_map = tconv", "magic = 1u8", "import(a: u8)", "import_tuple(a: (u8,))", "return_all_errors", "return_unexpected_error"],
    "repr": ["big", "little", "map = conv", "try_map = tconv", "magic = 1u8", "import(a: u8)", "import_tuple(a: (u8,))"],
    "field": [d for d in FIELD_ONLY] + ["big", "little", "map = conv", "try_map = tconv", "magic = 1u8"],
    "variant": ["big", "little", "magic = 1u8"],
    "uvariant": ["magic = 1u8"],
}
SINGLE["unit"] = SINGLE["tuple"] = SINGLE["struct"]
SINGLE["tfield"] = SINGLE["vfield"] = SINGLE["field"]
SINGLE["rvariant"] = []
SINGLE["mvariant"] = []
SINGLE["magics"] = SINGLE["repr"]
CLASH = [("big", "little"), ("map = conv", "try_map = tconv"), ("import(a: u8)", "import_tuple(a: (u8,))"), ("return_all_errors", "return_unexpected_error"),
         ("args(1)", "args_tuple = (1,)"), ("calc = 3", "default"), ("calc = 3", "parse_with = custom"), ("ignore", "parse_with = custom"), ("default", "ignore"),
         ("ignore", "calc = 1"), ("is_big = true", "is_little = true"), ("big", "is_little = false"), ("little", "is_big = false"), ("big", "is_big = true"),
         ("deref_now", "postprocess_now"), ("deref_now", "offset_after = 3"), ("postprocess_now", "offset_after = 3")]
MALFORMED = {
    "field": ["count", "count =", "count = ", "magic", "magic = \"text\"", "magic = true", "magic = x", "assert()", "if()", "if(true, 1, 2)", "pad_before",
              "align_after =", "calc", "map", "parse_with", "args = 3", "big = true", "try = 3", "temp(1)", "default(3)", "restore_position = 1", "count 3", "count == 3",
              "assert(true, 1, 2)", "assert(true, String::from(\"a\"), \"b\", \"c\", \"d\")", "big little", "big; little", "3", "\"count\"", "offset", "seek_before"],
    "struct": ["magic", "magic = \"text\"", "import(a)", "import = 3", "import(a: )", "import_tuple", "assert", "assert()", "pre_assert()", "big(1)", "little = 3", "magic()", "= 3"],
    "enum": ["return_all_errors = 3", "return_unexpected_error(1)", "import(3: u8)", "assert()", "magic = 'ab"[:-3] + "\"s\""],
    "variant": ["magic = \"s\"", "assert()", "big = 1"],
    "uvariant": ["magic = \"s\"", "magic", "pre_assert()"],
    "repr": ["import(a)", "magic", "map"],
}


def put(level, lines):
    return ITEMS[level].replace("{}", "".join(l + "\n" for l in lines))


def refused(rng):
    out = []

    def add(what, level, lines, marks=None):
        out.append((what, put(level, [l + (" //@!" if marks is None or k in marks else "") for k, l in enumerate(lines)])))
    for level, ds in NOT_AT.items():
        for d in ds:
            add("%s at %s" % (d, level), level, ["#[br(%s)]" % d])
    for level in ITEMS:
        for n in ["unknown", "bigg", "litle", "magik", "counts", "pad", "align", "endian", "asserts", "Big", "r#try"]:
            add("unknown %s at %s" % (n, level), level, ["#[br(%s)]" % (n if n in ("unknown", "Big") else n + " = 1")])
        n = rng.choice(ALLNAMES)
        n = n[:1] + rng.choice("qzx") + n[1:]
        add("unknown %s at %s" % (n, level), level, ["#[br(%s = 3)]" % n])
        add("unknown after a known one at %s" % level, level, ["#[br(magic = 1u8, unknown)]"])
    for level, ds in SINGLE.items():
        for d in ds:
            add("%s twice at %s" % (d, level), level, ["#[br(%s, %s)]" % (d, d)])
            add("%s in two attributes at %s" % (d, level), level, ["#[br(%s)]" % d, "#[br(%s)]" % d], {1})
    for a, b in CLASH:
        for level, ds in SINGLE.items():
            if a in ds and b in ds:
                add("%s with %s at %s" % (a, b, level), level, ["#[br(%s, %s)]" % (a, b)])
                if "offset_after" not in b:
                    add("%s with %s at %s" % (b, a, level), level, ["#[br(%s)]" % b, "#[br(%s)]" % a], {1})
                else:
                    out.append(("%s with %s at %s" % (b, a, level), put(level, ["#[br(%s)]//@?" % b, "#[br(%s)] //@?" % a])))
    for level, ds in MALFORMED.items():
        for d in ds:
            add("malformed %s at %s" % (d, level), level, ["#[br(%s)]" % d])
    add("repr next to magic", "rvariant", ["#[br(magic = 3u8)]"])
    add("repr twice", "repr", ["#[br(repr = u8)]"])
    add("unlike magics", "mvariant", [], None)
    out.pop()
    for a, b in (("1u8", "2u16"), ("1u8", "2i8"), ("b\"ab\"", "1u8"), ("b'a'", "b\"ab\""), ("'c'", "1u8"), ("1.0f32", "1.0f64")):
        out.append(("magics %s and %s" % (a, b), "#[derive(BinRead)]\npub enum T {\n#[br(magic = %s)]\nA,\n#[br(magic = %s)] //@!\nB,\n}" % (a, b)))
    out.append(("neither repr nor magic", "#[derive(BinRead)]\npub enum T { A, B }"))
    out.append(("one variant without magic", "#[derive(BinRead)]\npub enum T { A, B, #[br(pre_assert(true))] C }"))
    out.append(("no variants", "#[derive(BinRead)]\npub enum T { }"))
    out.append(("union", "#[derive(BinRead, Clone, Copy)]\npub union T { a: u8, b: u16 }"))
    # errors in user code inside of directives point there, too
    for d in ("assert(nothing == 1)", "assert(3)", "assert(f)", "if(nothing)", "if(\"x\")", "count = nothing", "calc = nothing", "calc = \"text\"", "map = nothing",
              "map = |v: u8| \"text\"", "try_map = |v: u8| 3", "try_map = nothing", "parse_with = nothing", "parse_with = 3", "args(nothing)", "args(1, 2, 3)", "pad_before = nothing",
              "pad_after = \"x\"", "align_before = nothing", "align_after = \"x\"", "seek_before = nothing", "seek_before = 3u8", "pad_size_to = nothing", "offset = nothing",
              "offset = \"x\"", "is_big = nothing", "is_little = 3", "magic = 1u9", "assert(z == 1)", "count = z", "if(x = 1)"):
        for level in ("field", "vfield"):
            if not d.startswith("offset"):
                out.append(("user error %s at %s" % (d, level), put(level, ["#[br(%s)]" % d])))
    out.append(("temp without the attribute macro", "#[derive(BinRead)]\npub struct T { #[br(temp)]\npub x: u8, pub y: u8 }"))
    out.append(("a temp field is gone", "#[derive_binread]\npub struct T { #[br(temp)] x: u8, y: u8 }\npub fn f(t: T) -> u8 { t.x //@!\n}"))
    out.append(("a required argument", "#[derive(BinRead)]\npub struct T { pub a: Inner }"))
    out.append(("a field which cannot be read", "pub struct No;\n#[derive(BinRead)]\npub struct T { pub a: No }"))
    # errors at several places are all reported
    for k in range(12):
        bad = lambda: "#[br(%s)] //@!" % rng.choice(["unknown", "bigg", "repr = u8", "big, big", "magic = \"s\"", "default, ignore", "return_all_errors"])
        out.append(("errors at several places", "#[derive(BinRead)]\n%s\npub struct T {\n%s\npub a: u8,\n#[br(big)]\npub b: u16,\n%s\npub c: u16,\n}" % (
            "#[br(%s)] //@!" % rng.choice(["unknown", "repr = u8", "big, big", "count = 3"]), bad(), bad())))
        out.append(("errors at several places of an enum", "#[derive(BinRead)]\npub enum T {\n#[br(unknown)] //@!\nA,\n#[br(assert())] //@!\nB {\n%s\nx: u8,\n},\nC(\n%s\nu8, u8),\n}" % (bad(), bad())))
    return out


# ---- building

def check_items(name, items, variant, shards=6, no_std=False):
    """items: [(what, text)]. Returns, for each, the list of its errors (line sets) in the first
    phase of compilation which refuses it; and what else was said."""
    res = [None] * len(items)
    left = list(range(len(items)))
    other = []
    for attempt in range(5):
        ws = B.Workspace("%s-%s" % (name, attempt), variant)
        n = min(shards, len(left)) or 1
        for sh in range(n):
            mine = left[sh::n]
            fs = {"src/m%d.rs" % i: items[i][1] if items[i][1].startswith("#!") else "#![allow(warnings)]\n" + (NO_STD if no_std else "") + PRE.replace("\n", " ") + "\n" + items[i][1] + "\n" for i in mine}
            fs["src/lib.rs"] = ("#![no_std]\nextern crate alloc;\n" if no_std else "") + "".join("pub mod m%d;\n" % i for i in mine)
            ws.add("probe%d" % sh, fs)
        ws.finish()
        errors, _ = ws.build(command="check")
        found = {}
        for pkg, ms in errors.items():
            for m in ms:
                where = places(m)
                mods = {int(f[1:-3]) for f, _, _ in where if re.fullmatch(r"m\d+\.rs", f)}
                if not mods:
                    if "aborting due to" not in m["message"] and "could not compile" not in m["message"]:
                        other.append(m.get("rendered", m["message"]))
                for i in mods:
                    found.setdefault(i, []).append((m, {l for f, a, b in where if f == "m%d.rs" % i for l in range(a, b + 1)}))
        for i, x in found.items():
            res[i] = x
        left = [i for i in left if i not in found]
        if not found or not left:
            break
    return res, other


def places(m):
    """File and lines of the primary spans, through the expansions."""
    out = []

    def walk(s):
        out.append((os.path.basename(s["file_name"]), s["line_start"], s["line_end"]))
        e = s.get("expansion")
        if e:
            walk(e["span"])
    for s in m.get("spans", []):
        if s.get("is_primary"):
            walk(s)
    return out


CRASH = re.compile(r"panicked|internal compiler error|stack overflow")


def c23(v):
    t = Tally(v, None, "An item compiled with the macro; it counts when it is accepted or refused as the documentation says, "
                       "and is distinct by its text.")
    for rnd in rounds(BUDGET):
        rng = sub_rng(v.prop, "items", rnd)
        fields, types = accepted_fields(), accepted_types()
        variants = ["std", "dbg", "nostd", "cg", "nostd-cg", "all"] if core.tier() == "thorough" else ["std", "dbg", "nostd"]
        for variant in variants if rnd == 0 else []:
            # without the standard library the crate of the types has none, either
            no_std = variant.startswith("nostd")
            acc = fields + types + ([] if no_std else HYGIENE)
            res, other = check_items("C23-accept", acc, variant, no_std=no_std)
            for what in other[:3]:
                v.violation("[%s] an error which points to no item: %s" % (variant, first_line(what)), what)
            for (what, text), r in zip(acc, res):
                t.evals += 1
                t.nontrivial_evals += 1
                t.sigs.add(("accept", variant, text))
                if r and len(v.violations) < 40:
                    v.violation("[%s] refused: %s: %s" % (variant, what, r[0][0]["message"][:200]), text + "\n" + r[0][0].get("rendered", ""))
            t.variants["accepted/" + variant] += len(acc)
        if rnd == 0:
            c23_known(v, t)
            c23_refused(v, t, refused(rng), "std" if rnd % 2 == 0 else "dbg")
        c23_programs(v, t, rnd)
        c23_garbage(v, t, rnd)
        if v.violations:
            break
    t.write(ASSUME[1:] + ["What the macro accepts on each level is taken from the documentation and, where it leaves it open, not judged."])


def c23_known(v, t):
    """import on a data variant: not documented there, accepted, and without effect."""
    items = [("import at variant", put("variant", ["#[br(import(q: u8))]"])), ("import_tuple at variant", put("variant", ["#[br(import_tuple(q: (u8,)))]"]))]
    res, other = check_items("C23-known", items, "std")
    known = core.known_findings("C23")
    for (what, text), r in zip(items, res):
        t.evals += 1
        k = "%s of a data enum is accepted and has no effect" % what
        if not r and k in known:
            v.known.append(k)
        elif not r:
            v.violation(k, text)


def c23_refused(v, t, items, variant):
    res, other = check_items("C23-refuse", items, variant)
    for what in other[:3]:
        v.violation("[%s] an error which points to no item: %s" % (variant, first_line(what)), what)
    for (what, text), r in zip(items, res):
        t.evals += 1
        t.nontrivial_evals += 1
        t.sigs.add(("refuse", text))
        t.outcomes["refused" if r else "accepted"] += 1
        d = None
        lines = text.split("\n")
        if not r:
            d = "accepted"
        elif any(CRASH.search(m["message"] + m.get("rendered", "")) for m, _ in r):
            d = "the macro crashed: " + r[0][0]["message"][:200]
        else:
            # two lines are in front of the item
            hit = set().union(*(l for _, l in r))
            want = [k + 3 for k, l in enumerate(lines) if "//@!" in l]
            either = [k + 3 for k, l in enumerate(lines) if "//@?" in l]
            missing = [k for k in want if k not in hit]
            t.extra["refused_by"] = Counter(t.extra.get("refused_by", {}))
            own = any(m.get("code") is None for m, _ in r)
            t.extra["refused_by"]["macro" if own else "compiler"] += 1
            if missing:
                d = "no error points to %r, only to lines %s" % (lines[missing[0] - 3], sorted(x - 3 for x in hit)[:5])
            elif either and not hit & set(either):
                d = "the error points elsewhere, to lines %s" % sorted(x - 3 for x in hit)[:5]
            elif want and not own and not what.startswith("a temp field"):
                d = "the macro says nothing of its own: " + r[0][0]["message"][:200]
            elif not any(3 <= x < 3 + len(lines) for x in hit):
                d = "the error points outside of the item"
        if d and len(v.violations) < 40:
            v.violation("[%s] %s: %s" % (variant, what, d), text + "\n" + "\n".join(m.get("rendered", "") for m, _ in (r or [])))


def c23_programs(v, t, rnd):
    """Dense generated programs: all kinds of combinations are accepted."""
    rng = sub_rng(v.prop, "programs", rnd)
    over = {k: min(.5, x * 3) for k, x in BROAD.items() if isinstance(x, float) and k not in ("bias",)}
    prof = mix(nfields=(2, 6), **over)
    variant = ["std", "dbg", "cg", "nostd", "all"][rnd % 5]
    if variant in ("cg", "all"):
        prof["cg"] = True
    progs = core.programs(rng, prof, 400)
    items = [("generated program", "#![allow(warnings)]\n" + S.Render(p).source()) for p in progs]
    res, other = check_items("C23-programs", items, variant)
    for (what, text), r in zip(items, res):
        t.evals += 1
        t.nontrivial_evals += 1
        t.programs += 1
        t.sigs.add(("program", text))
        names = sorted(set(re.findall(r"\b(?:%s)\b" % "|".join(ALLNAMES), text)))
        for a in itertools.combinations(names, 2):
            t.notes["pairs"] += 1
        if r and len(v.violations) < 40:
            v.violation("[%s] a program of documented directives is refused: %s" % (variant, r[0][0]["message"][:200]), text + r[0][0].get("rendered", ""))


TOK = re.compile(r"b?\"(?:[^\"\\]|\\.)*\"|b?'(?:[^'\\]|\\(?:u\{\w+\}|x\w\w|.))'|[A-Za-z_]\w*|\d\w*|[^\s\w()\[\]{}\"']")


def c23_garbage(v, t, rnd):
    """Token soup in the attributes: whatever the macro says, it does not crash, and its errors stay in the item."""
    rng = sub_rng(v.prop, "garbage", rnd)
    progs = core.programs(rng, mix(top_magic=.4, field_magic=.3, field_assert=.3), 60)
    pool = ALLNAMES + ["=", ",", "::", "|", "+", "!", "&", ";", ":", ".", "#", "?", "..", "1", "3u8", "b\"xy\"", "\"s\"", "'c'", "true", "self", "x", "if", "try", "fn", "=>", "->", "<", ">", "u8", "_", "$"]
    items = []
    for p in progs:
        text = S.Render(p).source()
        places_ = [m for m in re.finditer(r"#\[br\((.*)\)\]", text)]
        if not places_:
            continue
        for _ in range(6):
            m = rng.choice(places_)
            body = m.group(1)
            toks = list(TOK.finditer(body))
            if not toks:
                continue
            for _ in range(rng.choice((1, 1, 2, 3))):
                k = rng.choice(toks)
                how = rng.randrange(4)
                if how == 0:
                    new = " "
                elif how == 1:
                    new = " %s " % rng.choice(pool)
                elif how == 2:
                    new = "%s %s" % (k.group(0), k.group(0))
                else:
                    new = "%s %s " % (k.group(0), rng.choice(pool))
                body = body[:k.start()] + new + body[k.end():]
                toks = list(TOK.finditer(body))
                if not toks:
                    break
            if "//" in body or "/*" in body or body.count('"') % 2:
                continue
            items.append(("garbage", "#![allow(warnings)]\n" + text[:m.start(1)] + body + text[m.end(1):]))
    res, other = check_items("C23-garbage", items, "std" if rnd % 2 else "dbg")
    n = Counter()
    for what in other:
        if CRASH.search(what):
            v.violation("the compiler crashed: " + first_line(what), what)
    for (what, text), r in zip(items, res):
        t.evals += 1
        n["refused" if r else "accepted"] += 1
        t.sigs.add(("garbage", text))
        if r and any(CRASH.search(m["message"] + m.get("rendered", "")) for m, _ in r) and len(v.violations) < 40:
            v.violation("the macro crashed on malformed directives: " + [m["message"] for m, _ in r if CRASH.search(m["message"] + m.get("rendered", ""))][0][:300], text)
    t.extra["garbage"] = {k: t.extra.get("garbage", {}).get(k, 0) + x for k, x in n.items()}


CHECKS["C23"] = (c23, "exploration")
