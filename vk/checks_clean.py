"""C30, C31: what a definition with directives is in the crate of its user."""
import hashlib
import json
import os
import re
import subprocess

from . import build as B
from . import core
from . import spec as S
from .checks import ASSUME, BUDGET, CHECKS
from .checks_macro import HYGIENE, PRE, accepted_fields, accepted_types, check_items
from .sweep import *

# ------------------------------------------------------------------ C30
EDITIONS = ("2018", "2021", "2024")
# what is on by default, and the groups and lints for which a crate is likely to be clean
LINTS = ("unused, nonstandard_style, unsafe_code, rust_2018_idioms, rust_2021_compatibility, rust_2024_compatibility, "
         "non_local_definitions, elided_lifetimes_in_paths, absolute_paths_not_starting_with_crate, meta_variable_misuse, explicit_outlives_requirements")

# definitions whose names and types are a cause for warnings of their own
PRONE = [
    ("a deprecated field", "#[derive(binread::BinRead)] pub struct T { #[deprecated] pub a: u8, #[deprecated(note = \"x\")] #[br(count = 3)] pub b: Vec<u8> }"),
    ("a deprecated type", "#[derive(binread::BinRead)] #[deprecated] pub struct T { pub a: u8 }"),
    ("a deprecated tuple type", "#[derive(binread::BinRead)] #[deprecated] pub struct T(pub u8, #[br(ignore)] pub u16);"),
    ("a deprecated enum", "#[derive(binread::BinRead)] #[deprecated] pub enum T { A(u8), B { x: u8 }, C }"),
    ("a deprecated enum of magics", "#[derive(binread::BinRead)] #[deprecated] pub enum T { #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }"),
    ("a deprecated enum by its repr", "#[derive(binread::BinRead)] #[deprecated] #[br(repr = u8)] pub enum T { A, B }"),
    ("deprecated variants", "#[derive(binread::BinRead)] pub enum T { #[deprecated] A(u8), B { #[deprecated] x: u8 }, #[deprecated] C }"),
    ("deprecated variants by magic", "#[derive(binread::BinRead)] pub enum T { #[deprecated] #[br(magic = 1u8)] A, #[br(magic = 2u8)] B }"),
    ("deprecated variants by repr", "#[derive(binread::BinRead)] #[br(repr = u8)] pub enum T { #[deprecated] A, B }"),
    ("a deprecated field beside a temporary one", "#[binread::derive_binread] pub struct T { #[br(temp)] a: u8, #[deprecated] #[br(count = a)] pub b: Vec<u8>, pub c: u8 }"),
    ("a deprecated type with a temporary field", "#[binread::derive_binread] #[deprecated] pub struct T(#[br(temp)] u8, #[br(count = self_0)] pub Vec<u8>);"),
    ("must-use types", "#[derive(binread::BinRead)] #[must_use] pub struct T { pub a: u8 } #[derive(binread::BinRead)] pub struct U { pub a: T, #[br(count = 2)] pub v: Vec<T>, #[br(try)] pub o: Option<T>, #[br(if(false))] pub p: Option<T>, pub t: (T, T) }"),
    ("names in all styles", "#[derive(binread::BinRead)] #[allow(non_snake_case)] pub struct T { pub fooBar: u8, #[br(calc = fooBar)] pub A: u8, #[br(count = A)] pub Some_Thing: Vec<u8>, #[br(ignore)] pub X1: u8, pub __: u8, pub _under: u8 }"),
    ("names in all styles in a variant", "#[derive(binread::BinRead)] #[allow(non_snake_case)] pub enum T { V { fooBar: u8, #[br(calc = fooBar)] A: u8 }, W { X: u8 } }"),
    ("type names in all styles", "#[derive(binread::BinRead)] #[allow(non_camel_case_types)] pub struct my_type { pub a: u8 } #[derive(binread::BinRead)] #[allow(non_camel_case_types)] pub enum my_enum { one_v(u8), TWO { a: my_type }, three }"),
    ("unused parameters with an underscore", "#[derive(binread::BinRead)] #[br(import(_a: u8, _b: &'static str))] pub struct T { pub x: u8 } #[derive(binread::BinRead)] #[br(import_tuple(_a: (u8, u8)))] pub enum E { A(u8), B }"),
    ("parameters in capitals", "#[derive(binread::BinRead)] #[br(import(A: u8, bC: u8))] pub struct T { #[br(calc = A + bC)] pub x: u8 }"),
    ("parameters of an enum which only one variant uses", "#[derive(binread::BinRead)] #[br(import(a: u8, b: u8))] pub enum T { #[br(pre_assert(a == 1))] A { #[br(calc = b)] x: u8 }, B(u8), C { #[br(count = a)] v: Vec<u8> } }"),
    ("parameters of an enum of magics", "#[derive(binread::BinRead)] #[br(import(a: u8))] pub enum T { #[br(magic = 1u8)] #[br(pre_assert(a == 1))] A, #[br(magic = 2u8)] B }"),
    ("nothing but temporary fields", "#[binread::derive_binread] pub struct T { #[br(temp)] a: u8, #[br(temp, calc = a)] b: u8, #[br(temp, count = b)] c: Vec<u8> }"),
    ("temporary fields which nothing uses", "#[binread::derive_binread] pub struct T { #[br(temp)] a: u8, #[br(temp, ignore)] b: u8, #[br(temp)] c: binread::FilePtr8<u8>, pub d: u8 } #[binread::derive_binread] pub struct U(#[br(temp)] u8, #[br(temp, assert(true))] u16);"),
    ("temporary fields of variants", "#[binread::derive_binread] pub enum T { A { #[br(temp)] a: u8, #[br(count = a)] b: Vec<u8> }, B(#[br(temp)] u8, #[br(calc = self_0)] u8), C { #[br(temp)] x: u8 } }"),
    ("types without fields", "#[derive(binread::BinRead)] pub struct T; #[derive(binread::BinRead)] pub struct U(); #[derive(binread::BinRead)] pub struct V {} #[derive(binread::BinRead)] #[br(magic = 3u8)] pub struct M; #[derive(binread::BinRead)] #[br(big, magic = b\"a\", import(_x: u8))] pub struct N();"),
    ("only fields which read nothing", "#[derive(binread::BinRead)] pub struct T { #[br(ignore)] pub a: u8, #[br(default)] pub b: Vec<u8>, #[br(calc = 3)] pub c: u8 } #[derive(binread::BinRead)] #[br(little)] pub enum E { A(#[br(ignore)] u8), B { #[br(calc = 1)] x: u8 } }"),
    ("packed and aligned", "#[derive(binread::BinRead)] #[repr(C, packed)] pub struct T { pub a: u8, pub b: u32 } #[derive(binread::BinRead)] #[repr(align(16))] pub struct U { pub a: u8, pub b: u32 }"),
    ("non-exhaustive", "#[derive(binread::BinRead)] #[non_exhaustive] pub enum T { A { a: u8 }, #[non_exhaustive] B(u8), #[non_exhaustive] C { x: u8 } } #[derive(binread::BinRead)] #[non_exhaustive] pub struct U { pub a: u8 }"),
    ("lifetimes", "pub struct P<'a>(pub &'a u8); #[derive(binread::BinRead)] pub struct U<'a> { #[br(ignore)] pub p: core::marker::PhantomData<&'a P<'a>>, pub x: u8 } #[derive(binread::BinRead)] pub struct W<'a, 'b: 'a, T: binread::BinRead<Args = ()> + 'a>(pub T, #[br(ignore)] pub core::marker::PhantomData<(&'a u8, &'b u8)>);"),
    ("private fields which the crate uses", "#[derive(binread::BinRead)] pub struct T { a: u8, #[br(count = a)] v: Vec<u8> } impl T { pub fn len(&self) -> usize { self.a as usize + self.v.len() } }"),
    ("private types", "#[derive(binread::BinRead)] struct P { a: u8 } #[derive(binread::BinRead)] pub struct T { p: P } impl T { pub fn a(&self) -> u8 { self.p.a } }"),
    ("inside of a function", "pub fn f(x: &[u8]) -> u8 { use binread::BinReaderExt; #[derive(binread::BinRead)] struct P { a: u8, #[br(if(a == 1))] b: Option<u8> } let p: P = binread::io::Cursor::new(x).read_be().unwrap(); p.a + p.b.unwrap_or(1) }"),
    ("expressions with blocks", "#[derive(binread::BinRead)] pub struct T { pub a: u8, #[br(calc = { let x = a; x + 1 })] pub b: u8, #[br(if(a > 1 && b < 3))] pub c: Option<u8>, #[br(calc = if a > 1 { 1 } else { 2 })] pub d: u8, #[br(calc = match a { 1 => 2, _ => 3 })] pub e: u8, #[br(map = |x: u8| x == 1)] pub f: bool, #[br(assert(a < 3, \"no {}\", a))] pub g: u8 }"),
    ("in a macro of the user", "macro_rules! mk { ($n:ident, $f:ident, $t:ty, $e:expr) => { #[derive(binread::BinRead)] pub struct $n { pub $f: $t, #[br(calc = $f + $e, if($f == $e))] pub y: $t, #[br(count = $f)] pub v: Vec<$t> } } } mk!(X, foo, u8, 3); mk!(Y, r#type, u16, 3 + 4);"),
]


def clean_items(rng, nprog):
    """Definitions which compile without warnings, but perhaps for what the macro makes of them."""
    pre = PRE.replace("\n", " ")
    allow = "#![allow(unused_imports, dead_code)]\n"
    its = [(what, allow + pre + "\n" + text) for what, text in accepted_fields() + accepted_types()]
    its += [("hygiene: " + what, "#![allow(dead_code, unused_parens, unused_macros, unused_mut, unused_imports, bad_style)]\n" + text) for what, text in HYGIENE]
    its += [(what, text) for what, text in PRONE]
    over = {k: min(.5, x * 2) for k, x in BROAD.items() if isinstance(x, float) and k != "bias"}
    # what the rendered expressions deserve themselves is not looked for
    own = "#![allow(unused_parens, unused_braces, unused_imports, dead_code, unused_mut, unused_variables, unused_comparisons, unused_assignments, unreachable_patterns, overflowing_literals, private_interfaces)]\n"
    for p in core.programs(rng, mix(nfields=(2, 6), **over), nprog):
        its.append(("generated program", own + S.Render(p).source().replace("#![allow(warnings)]", "")))
    return its


def mods(text, files):
    out = set()

    def walk(s):
        f = re.fullmatch(r"m(\d+)\.rs", os.path.basename(s["file_name"]))
        if f:
            out.add(int(f.group(1)))
        if s.get("expansion"):
            walk(s["expansion"]["span"])
    for s in text.get("spans", []):
        walk(s)
    return out


def c30(v):
    t = Tally(v, None, "A definition compiled in one edition with warnings on; it counts when the compiler said nothing about it, and is distinct by its text and edition.")
    for rnd in rounds(BUDGET):
        rng = sub_rng(v.prop, "clean", rnd)
        items = clean_items(rng, 200) if rnd == 0 else [i for i in clean_items(rng, 600) if i[0] == "generated program"]
        for variant, editions in (("std", EDITIONS), ("dbg", EDITIONS[2:] if core.tier() != "thorough" else EDITIONS)):
            for ed in editions:
                clean_pass(v, t, items, variant, ed)
        if v.violations:
            break
    t.write(["The compiler and its lints are trusted.",
             "Only lints on by default and the groups unused, nonstandard_style, rust_2018_idioms and rust_20xx_compatibility, and unsafe_code and a few more, are looked at; "
             "what the compiler never reports inside of a macro of another crate stays unseen."])


def clean_pass(v, t, items, variant, ed):
    ws = B.Workspace("C30-" + ed, variant)
    for sh in range(6):
        mine = range(sh, len(items), 6)
        fs = {"src/m%d.rs" % i: items[i][1] + "\n" for i in mine}
        fs["src/lib.rs"] = "#![warn(%s)]\n#![allow(edition_2024_expr_fragment_specifier)]\n" % LINTS + "".join("pub mod m%d;\n" % i for i in mine)
        ws.add("probe%d" % sh, fs, edition=ed)
    ws.finish()
    r = B.cargo(["check", "--offline", "--workspace", "--keep-going", "--message-format=json", "-q"], ws.dir, {"CARGO_TARGET_DIR": B.target_dir(variant)})
    said, other, names = {}, [], set()
    for m in B.diagnostics(r.stdout):
        if m.get("reason") == "compiler-artifact":
            names.add(m["target"]["name"])
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("warning", "error", "error: internal compiler error"):
            continue
        if not m["target"]["name"].startswith("probe"):
            if m["message"]["level"] != "warning":
                raise B.BuildError("the library does not build:\n" + m["message"].get("rendered", "")[:2000])
            continue
        ms = mods(m["message"], None)
        for i in ms:
            said.setdefault(i, []).append(m["message"])
        if not ms and "generated" not in m["message"]["message"] and "aborting" not in m["message"]["message"]:
            other.append(m["message"].get("rendered", m["message"]["message"]))
    if r.returncode and not said and not other:
        raise B.BuildError("cargo check: " + r.stderr[-2000:])
    for o in other[:3]:
        v.violation("[%s, edition %s] a warning which points to no definition: %s" % (variant, ed, o[:200]), o)
    for i, (what, text) in enumerate(items):
        t.evals += 1
        t.nontrivial_evals += 1
        t.sigs.add((variant, ed, text))
        if what == "generated program":
            t.programs += 1
        if i in said and len(v.violations) < int(os.environ.get("VV", 30)):
            m = said[i][0]
            v.violation("[%s, edition %s] %s: %s: %s: %s" % (variant, ed, what, m["level"], (m.get("code") or {}).get("code"), m["message"][:200]),
                        text + "\n" + m.get("rendered", ""))
    t.variants["%s/%s" % (variant, ed)] += len(items)
    t.outcomes["silent"] += len(items) - len(said)


CHECKS["C30"] = (c30, "exploration")


# ------------------------------------------------------------------ C31
# Definitions with directives beside the same ones without them: what the compiler sees of the two is the same.
class Part:
    """A field: the attributes and directives on it, in the order of the text."""

    def __init__(self, name, ty, vis, attrs, temp, raw):
        self.name, self.ty, self.vis, self.attrs, self.temp, self.raw = name, ty, vis, attrs, temp, raw


FTY = [("u8", None), ("u16", None), ("i32", None), ("[u8; 3]", None), ("(u8, u16)", None), ("Option<u8>", None), ("Box<u16>", None), ("u64", "calc = 77"),
       ("Vec<u8>", "count = 2"), ("Vec<(u8, u8)>", "count = 3"), ("Option<u8>", "try"), ("Option<u8>", "if(true)"), ("bool", "map = |x: u8| x > 1"),
       ("u8", "ignore"), ("String", "default"), ("u16", "magic = 0x%02x%02x0101u32, map = |x: u8| x as u16 + 400"), ("u8", "pad_before = 1, restore_position"),
       ("f32", "big"), ("char", "align_before = 2"), ("()", None), ("u32", "assert(true, \"x\")"), ("i8", "try_map = |x: u8| if x < 100 { Ok(x as i8) } else { Err(x) }")]
PLAIN = ["u8", "u16", "i32", "u64"]
VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]
DOCS = ["/// words, `code` and \"quotes\"\n", "/** a block\n of two lines */\n", "#[doc = \"written out\"]\n", "#[doc(alias = \"other\")]\n", "///\n/// - one\n///   - two\n", "#[doc(hidden)]\n"]
FIELD_ATTRS = ["#[deprecated]\n", "#[deprecated(since = \"1.0\", note = \"no\")]\n", "#[allow(dead_code)]\n", "#[cfg_attr(all(), doc = \"on condition\")]\n", "#[cfg(all())]\n"]
TYPE_ATTRS = ["#[must_use]\n", "#[must_use = \"why\"]\n", "#[non_exhaustive]\n", "#[deprecated]\n", "#[allow(dead_code)]\n", "#[cfg(all())]\n", "#[cfg_attr(all(), derive(PartialEq))]\n"]
DERIVES = ["Clone", "Clone, PartialEq", "Clone, PartialEq, PartialOrd", "Clone, Default"]


class Def:
    """One definition, in the macro's form and without the macro."""

    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        r = rng
        self.enum = kind in ("enum", "repr", "magics")
        self.attribute = r.random() < .7          # derive_binread instead of the derive
        self.packed = kind in ("struct", "tuple") and r.random() < .12
        self.word = r.choice(("br", "br", "binread"))
        self.gen, self.where, self.args = "", "", ""
        self.uses = []
        if not self.packed and r.random() < .35 and kind not in ("repr", "magics", "unit"):
            ps = []
            if r.random() < .5:
                ps.append(("'a", "'static", ("core::marker::PhantomData<&'a ()>", "ignore"), "core::marker::PhantomData<&'static ()>"))
            if r.random() < .7:
                ps.append((r.choice(("X: binread::BinRead<Args = ()> + Copy", "X: binread::BinRead<Args = ()> = u16")), "u16", ("X", None), "u16"))
            if r.random() < .5:
                ps.append(("const N: usize", "2", ("core::marker::PhantomData<[u8; N]>", "ignore"), "core::marker::PhantomData<[u8; 2]>"))
            if ps and not ("= u16" in "".join(p[0] for p in ps) and ps[-1][0].startswith("const")):
                self.gen = "<" + ", ".join(p[0] for p in ps) + ">"
                self.args = "<" + ", ".join(p[1] for p in ps) + ">"
                self.uses = [(p[2], p[3]) for p in ps]
                if "X" in self.gen and r.random() < .5:
                    self.where = " where X: Sync, Vec<X>: Sized"
        self.tattrs = []
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            self.tattrs.append(r.choice(DOCS))
        for a in r.sample(TYPE_ATTRS, r.choice((0, 0, 1, 2))):
            self.tattrs.append(a)
        r.shuffle(self.tattrs)
        self.derive = r.choice(DERIVES) if not self.packed else "Clone, Copy"
        if "X: " in self.gen or "= u16" in self.gen:
            self.derive = self.derive.replace(", Default", "")
        if self.enum and self.uses:
            self.derive = self.derive.replace(", Default", "")
        if any("PartialEq" in a for a in self.tattrs):
            self.derive = self.derive.replace(", PartialEq", "").replace(", PartialOrd", "")
        self.repr = None
        if self.packed:
            self.repr = "#[repr(C, packed)]\n"
        elif r.random() < .4 and kind != "unit":
            self.repr = r.choice(("#[repr(C)]\n", "#[repr(u8)]\n", "#[repr(i16)]\n", "#[repr(align(8))]\n") if self.enum else ("#[repr(C)]\n", "#[repr(align(16))]\n", "#[repr(C, align(4))]\n"))
        self.br = ["magic = 0x01010101u32"] if r.random() < .15 and kind != "repr" else []
        if r.random() < .3:
            self.br.append(r.choice(("little", "big")))
        if kind == "repr":
            self.br.append("repr = u8")
        self.vis = r.choice(("pub ", "pub ", "pub(crate) ", "pub(super) "))
        if self.enum:
            self.default = "Default" in self.derive
            n = r.choice((1, 2, 3, 5))
            self.vs = []
            named = r.sample(["A", "Bee", "r#Loop", "Dee_", "Eh", "F1"], n)
            disc = 0
            dset = r.randrange(n) if self.default else None
            for i, name in enumerate(named):
                form = "unit" if kind != "enum" or dset == i else r.choice(("named", "tuple", "unit"))
                if i == 0 and self.uses and form == "unit":
                    form = "tuple"
                at = [r.choice(DOCS)] if r.random() < .4 else []
                if r.random() < .15:
                    at.append(r.choice(FIELD_ATTRS[:2] + (["#[non_exhaustive]\n"] if form != "unit" else [])))
                if i == dset:
                    at.append("#[default]\n")
                if kind != "repr":
                    at.append("!magic = %du8" % (i + 1))
                r.shuffle(at)
                d = None
                if form == "unit" and kind == "repr":
                    disc = d = (i + 1 if r.random() < .5 or i == 0 else disc + r.choice((1, 1, 7)))
                    disc = d = max(d, i + 1)
                    if self.vs and self.vs[-1][3] is not None and d <= self.vs[-1][3]:
                        disc = d = self.vs[-1][3] + 1
                elif kind == "magics" and r.random() < .3 and (self.repr is None or "(u8)" in self.repr or "i16" in self.repr):
                    d = None
                self.vs.append((name, form, at, d, self.fields(form, inner=True)))
        else:
            form = {"struct": "named", "tuple": "tuple", "unit": "unit"}[kind]
            self.vs = [(None, form, [], None, self.fields(form))]
            if self.gen and form != "unit":
                pass
        if "PartialOrd" in self.derive and False:
            pass

    def fields(self, form, inner=False):
        r = self.rng
        if form == "unit":
            return []
        out = []
        n = r.choice((0, 1, 2, 3, 4, 6))
        names = r.sample(["a", "b", "r#type", "_under", "long_name_of_field", "self_", "x1", "CamelCase", "value"], max(n, 1))
        for i in range(n):
            if self.packed:
                ty, br = r.choice(PLAIN), None
            else:
                ty, br = r.choice(FTY)
            if br and "%02x" in br:
                br = None
                ty = "u16"
            temp = self.attribute and r.random() < .3
            out.append(self.part(names[i], ty, br, ty, temp, inner))
        if not inner or not getattr(self, "vs", None):
            for k, ((ty, br), raw) in enumerate(self.uses):
                out.insert(r.randrange(len(out) + 1), self.part("g%d" % k, ty, br, raw, False, inner))
        # a count which an earlier temporary field gives
        for i, f in enumerate(out):
            if f.temp and f.ty == "u8" and i + 1 < len(out) and out[i + 1].ty == "Vec<u8>":
                who = f.name if form == "named" else "self_%d" % i
                out[i + 1].attrs = [a.replace("!count = 2", "!count = %s.min(9)" % who) for a in out[i + 1].attrs]
                if any("ignore" in a for a in f.attrs):
                    break
        return out

    def part(self, name, ty, br, raw, temp, inner):
        r = self.rng
        at = []
        if br:
            at += ["!" + x for x in ([br] if "|" in br or "(" in br else br.split(", "))]
        if temp:
            at.append("!temp")
        if r.random() < .4:
            at.append(r.choice(DOCS))
        if r.random() < .25:
            at.append(r.choice(FIELD_ATTRS))
        r.shuffle(at)
        return Part(name, ty, "" if inner else r.choice(VIS), at, temp, raw)

    def attrs(self, at, macro):
        out = ""
        for a in at:
            if a.startswith("!"):
                d = "%s(%s)" % (self.word, a[1:])
                # a derive sees the definition after the conditions, an attribute before them
                out += "" if not macro else "#[%s]\n" % d if self.attribute or len(d) % 5 else "#[cfg_attr(all(), %s)]\n" % d
            else:
                out += a
        return out

    def body(self, form, fields, macro):
        if form == "unit":
            return ""
        fs = [f for f in fields if macro or not f.temp]
        ts = [self.attrs(f.attrs, macro) + f.vis + (f.name + ": " if form == "named" else "") + f.ty for f in fs]
        if not self.attribute:
            for k, f in reversed(list(enumerate(fs))):
                if (len(f.name) + len(f.ty)) % 4 == 0:
                    ts.insert(k, "#[cfg(any())]\n" + ("gone%d: " % k if form == "named" else "") + "NoSuchType")
        t = ",\n".join(ts)
        return ("{\n%s\n}" if form == "named" else "(\n%s\n)") % t

    def text(self, macro):
        r = random.Random(self.kind + str(len(self.vs)) + self.derive)
        der = "Debug, " + self.derive
        head = [("#[derive(%s)]\n" % der) if self.attribute or not macro else ("#[derive(binread::BinRead, %s)]\n" % der if r.random() < .5 else "#[derive(%s, binread::BinRead)]\n" % der)]
        mine = list(self.tattrs)
        # the attributes of the macro stand anywhere among the others
        cut = r.randrange(len(mine) + 1)
        brs = "".join("#[%s(%s)]\n" % (self.word, d) for d in self.br) if macro else ""
        late = (self.repr or "")
        before = "".join(a for a in mine[:cut] if not a.startswith("#[cfg_attr(all(), derive"))
        after = "".join(a for a in mine[:cut] if a.startswith("#[cfg_attr(all(), derive"))
        out = before + ("#[binread::derive_binread]\n" if macro and self.attribute else "") + head[0] + after + brs + "".join(mine[cut:]) + late
        if self.enum:
            vs = []
            for name, form, at, d, fields in self.vs:
                vs.append(self.attrs(at, macro) + name + self.body(form, fields, macro) + (" = %d" % d if d is not None else ""))
            return out + "%senum T%s%s {\n%s,\n}" % (self.vis, self.gen, self.where, ",\n".join(vs))
        _, form, _, _, fields = self.vs[0]
        b = self.body(form, fields, macro)
        if form == "named":
            return out + "%sstruct T%s%s %s" % (self.vis, self.gen, self.where, b)
        return out + "%sstruct T%s%s%s;" % (self.vis, self.gen, b, self.where)

    def kept(self, fields):
        return [f for f in fields if not f.temp]

    def access(self):
        """Code inside of the module: the value taken apart into U, without `..`, and put together from it."""
        o, i = [], []
        for k, (name, form, at, d, fields) in enumerate(self.vs):
            fs = self.kept(fields)
            path = "T::" + name if name else "T"
            vars_ = ["v%d" % n for n in range(len(fs))]
            if form == "named":
                pat = "%s { %s }" % (path, ", ".join("%s: %s" % (f.name, x) for f, x in zip(fs, vars_)))
            elif form == "tuple":
                pat = "%s(%s)" % (path, ", ".join(vars_))
            else:
                pat = path
            u = "super::U::V%d(%s)" % (k, ", ".join(vars_))
            o.append("%s => %s," % (pat, u))
            i.append("%s => %s," % (u, pat))
        eq = "PartialEq" in self.derive or any("PartialEq" in a for a in self.tattrs)
        part = "PartialOrd" in self.derive
        cast = self.enum and all(v[1] == "unit" for v in self.vs)
        return """
pub fn out(t: T%s) -> super::U { match t { %s } }
pub fn put(u: super::U) -> T%s { match u { %s } }
pub fn look(t: T%s, other: T%s, o: &mut String) {
use std::fmt::Write;
let _ = write!(o, "{:?}\\n{:#?}\\n{} {} {}\\n", t, t, std::mem::size_of::<T%s>(), std::mem::align_of::<T%s>(), std::mem::needs_drop::<T%s>());
%s%s%s%s
let _ = write!(o, "{:?}\\n", t.clone());
}
""" % (self.args, " ".join(o), self.args, " ".join(i), self.args, self.args, self.args, self.args, self.args,
            'let _ = write!(o, "{} {}\\n", t == other, t == t.clone());\n' if eq else "",
            'let _ = write!(o, "{:?} {:?}\\n", t.partial_cmp(&other), other.partial_cmp(&t));\n' if part else "",
            'let _ = write!(o, "{:?}\\n", <T%s as Default>::default());\n' % self.args if "Default" in self.derive else "",
            'let _ = write!(o, "{}\\n", t.clone() as i64);\n' if cast else "")

    def module(self):
        u = ", ".join("V%d(%s)" % (k, ", ".join(f.raw for f in self.kept(v[4]))) for k, v in enumerate(self.vs))
        return """#![allow(warnings)]
#[derive(Clone, Debug)]
pub enum U { %s }
pub mod a {
%s
%s
pub fn read(b: &[u8]) -> Result<super::U, String> { binread::BinReaderExt::read_be::<T%s>(&mut binread::io::Cursor::new(b)).map(out).map_err(|e| e.to_string()) }
}
pub mod b {
%s
%s
}
pub fn run() -> Vec<[String; 2]> {
let mut all = Vec::new();
let mut us = Vec::new();
for k in 1..=%d { if let Ok(u) = a::read(&[k; 300]) { us.push(u); } }
for i in 0..us.len() { for j in [i, 0, us.len() - 1] {
let (x, y) = (us[i].clone(), us[j].clone());
let mut o = [String::new(), String::new()];
a::look(a::put(x.clone()), a::put(y.clone()), &mut o[0]);
b::look(b::put(x.clone()), b::put(y.clone()), &mut o[1]);
all.push(o);
} }
all
}
""" % (u, self.text(True), self.access(), self.args, self.text(False), self.access(), max(3, len(self.vs)) + (8 if self.kind == "repr" else 0))


def shape(ix, i, drop):
    """What rustdoc says of an item, without places and numbers."""
    x = ix.get(str(i))
    if x is None:
        return None
    inner = {}
    for kind, d in x["inner"].items():
        inner[kind] = canon(ix, d, drop) if kind != "impl" else canon(ix, dict(d, items=d["items"]), drop)
    return {"name": x["name"], "visibility": vis(x["visibility"]), "docs": " ".join((x["docs"] or "").split()), "deprecation": x["deprecation"],
            "attrs": [a for a in map(attr, x["attrs"]) if "CfgTrace" not in a and "CfgAttrTrace" not in a and not (drop and re.match(r"#\[(br|binread)\b", a))], "inner": inner}


def attr(a):
    return a if isinstance(a, str) else a["other"] if list(a) == ["other"] else json.dumps(a, sort_keys=True)


def vis(x):
    return x if isinstance(x, str) else {"restricted": re.sub(r"::[ab]\b.*", "::_", x["restricted"]["path"])} if "restricted" in x else x


def canon(ix, d, drop):
    if isinstance(d, dict):
        out = {}
        for k, y in d.items():
            if k in ("id", "span", "links", "crate_id"):
                continue
            if k in ("fields", "variants", "items") or (k == "tuple" and isinstance(y, list) and all(isinstance(e, int) or e is None for e in y)):
                out[k] = [shape(ix, e, drop) for e in y] if isinstance(y, list) else canon(ix, y, drop)
            elif k == "impls":
                got = [ix[str(e)] for e in y if str(e) in ix]
                got = [e for e in got if not ((e["inner"]["impl"].get("trait") or {}).get("path", "").split("::")[-1] == "BinRead")]
                # what every type has, and marker traits, are told apart by the traits alone
                out[k] = sorted(json.dumps([canon(ix, e["inner"]["impl"].get("trait"), drop), canon(ix, e["inner"]["impl"]["generics"], drop), canon(ix, e["inner"]["impl"]["for"], drop),
                                            e["inner"]["impl"].get("is_negative"), e["inner"]["impl"].get("is_synthetic")], sort_keys=True) for e in got)
            else:
                out[k] = canon(ix, y, drop)
        return out
    if isinstance(d, list):
        return [canon(ix, y, drop) for y in d]
    return d


def differ(a, b, at=""):
    if type(a) is not type(b):
        return "%s: %s instead of %s" % (at, json.dumps(a)[:200], json.dumps(b)[:200])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return differ(a.get(k), b.get(k), at + "/" + k)
    if isinstance(a, list) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, at + "/%d" % n)
    return "%s: %s instead of %s" % (at, json.dumps(a)[:300], json.dumps(b)[:300])


CONDITIONS = [
    ("a field which cfg removes from a type under derive_binread", "#[derive_binread]\npub struct T { pub a: u8, #[cfg(any())] pub b: u8 }"),
    ("a variant which cfg removes from a type under derive_binread", "#[derive_binread]\npub enum T { A(u8), #[cfg(any())] B(u16) }"),
    ("a directive in cfg_attr on a type under derive_binread", "#[derive_binread]\npub struct T { pub a: u8, #[cfg_attr(all(), br(big))] pub b: u16 }"),
]

RUNALL = """#![allow(warnings)]
use std::io::Write;
fn main() {
let out = std::io::stdout();
let mut out = out.lock();
%s
}
"""


def c31(v):
    t = Tally(v, None, "A definition with directives beside the same one without: it counts when both compile and at least one value was read, and is distinct by its text.")
    known = core.known_findings("C31")
    res, _ = check_items("C31-known", [(w, x) for w, x in CONDITIONS], "std")
    for (what, text), r in zip(CONDITIONS, res):
        t.evals += 1
        if r and what in known:
            v.known.append(what)
        elif r:
            v.violation("%s: %s" % (what, r[0][0]["message"]), text + r[0][0].get("rendered", ""))
    for rnd in rounds(BUDGET):
        rng = sub_rng(v.prop, "defs", rnd)
        n = 1200 if core.tier() != "thorough" else 2000
        defs = [Def(rng, rng.choice(("struct", "struct", "tuple", "enum", "enum", "repr", "magics", "unit"))) for _ in range(n)]
        for variant in ("std", "dbg")[:1 if core.tier() != "thorough" else 2]:
            asis(v, t, defs, variant)
        if v.violations:
            break
    t.write(["The compiler, and rustdoc's account of a crate, are trusted.",
             "What `cfg` removes from a definition under the attribute macro is looked at in the three listed cases only."])


def asis(v, t, defs, variant):
    ws = B.Workspace("C31", variant)
    mods_ = [d.module() for d in defs]
    shards = 6
    for sh in range(shards):
        mine = range(sh, len(defs), shards)
        fs = {"src/m%d.rs" % i: mods_[i] for i in mine}
        fs["src/lib.rs"] = "#![allow(warnings)]\n" + "".join("pub mod m%d;\n" % i for i in mine)
        fs["src/main.rs"] = RUNALL % "\n".join(
            "for o in probe%d::m%d::run() { writeln!(out, \"%d\\t{:?}\\t{:?}\", o[0], o[1]).unwrap(); }" % (sh, i, i) for i in mine)
        ws.add("probe%d" % sh, fs, "", '[lib]\nname = "probe%d"\npath = "src/lib.rs"\n[[bin]]\nname = "go%d"\npath = "src/main.rs"\ndoc = false\n' % (sh, sh))
    ws.finish()
    errors, bins = ws.build()
    bad = {}
    for pkg, ms in errors.items():
        for m in ms:
            for i in mods(m, None):
                bad.setdefault(i, m)
            if not mods(m, None) and "aborting" not in m["message"] and "could not compile" not in m["message"]:
                raise B.BuildError("C31: " + m.get("rendered", m["message"])[:2000])
    for i, m in sorted(bad.items()):
        v.violation("[%s] the definition as the macro leaves it does not compile: %s" % (variant, m["message"][:200]), mods_[i] + m.get("rendered", ""))
    if bad:
        return
    seen = {}
    for sh in range(shards):
        p = subprocess.run([bins["go%d" % sh]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=B.env(), text=True)
        if p.returncode:
            v.violation("[%s] the definitions' run ends with %s: %s" % (variant, p.returncode, p.stderr[-300:]), p.stderr)
            return
        for l in p.stdout.splitlines():
            i, x, y = l.split("\t")
            i = int(i)
            seen[i] = seen.get(i, 0) + 1
            if x != y and len(v.violations) < 30:
                v.violation("[%s] a value of the definition looks different: %s instead of %s" % (variant, x[:300], y[:300]), mods_[i] + "\n" + x + "\n" + y)
    e = {"CARGO_TARGET_DIR": B.target_dir(variant), "RUSTC_BOOTSTRAP": "1"}
    for sh in range(shards):
        r = B.cargo(["rustdoc", "--offline", "-q", "-p", "probe%d" % sh, "--lib", "--", "-Zunstable-options", "--output-format", "json",
                     "--document-private-items", "--document-hidden-items"], ws.dir, e)
        f = os.path.join(B.target_dir(variant), "doc", "probe%d.json" % sh)
        if r.returncode or not os.path.exists(f):
            raise B.BuildError("rustdoc: " + r.stderr[-2000:])
        ix = json.load(open(f))["index"]
        os.unlink(f)
        for x in list(ix.values()):
            if not ("module" in x["inner"] and re.fullmatch(r"m\d+", x["name"] or "")):
                continue
            i = int(x["name"][1:])
            sub = {ix[str(k)]["name"]: ix[str(k)] for k in x["inner"]["module"]["items"] if str(k) in ix}
            names = [sorted(ix[str(k)]["name"] or "" for k in sub[m]["inner"]["module"]["items"] if str(k) in ix and ix[str(k)]["name"] not in ("read",)) for m in "ab"]
            if names[0] != names[1]:
                v.violation("[%s] the module of the definition has the items %s instead of %s" % (variant, names[0], names[1]), mods_[i])
                continue
            got = [[shape(ix, k, m == "a") for k in sub[m]["inner"]["module"]["items"] if ix[str(k)]["name"] == "T"][0] for m in "ab"]
            t.evals += 1
            if seen.get(i):
                t.nontrivial_evals += 1
                t.sigs.add((variant, mods_[i]))
            t.notes["shapes"] += 1
            if got[0] != got[1] and len(v.violations) < 30:
                v.violation("[%s] the definition is not what was written: %s" % (variant, differ(got[0], got[1])), mods_[i])
    t.programs += len(defs)
    t.extra["values_compared"] = t.extra.get("values_compared", 0) + sum(seen.values())
    t.variants[variant] += len(defs)
    for d in defs:
        t.outcomes[d.kind] += 1
        t.notes["attribute macro" if d.attribute else "derive"] += 1
        t.notes["temporary fields"] += sum(f.temp for x in d.vs for f in x[4])


CHECKS["C31"] = (c31, "exploration")
