// Assertions: every form of condition, of message and of error, in every place one can stand.
use binread::{io::Cursor, BinRead, BinReaderExt, Endian, Error};
use std::cell::Cell;

thread_local! {
    static CONDS: Cell<u64> = Cell::new(0);
    static ARGS: Cell<u64> = Cell::new(0);
}
fn asked() -> bool {
    CONDS.with(|c| c.set(c.get() + 1));
    true
}
fn seen<T>(x: T) -> T {
    ARGS.with(|c| c.set(c.get() + 1));
    x
}
fn unseen<T>(x: T) -> T { x }

#[derive(Debug, Clone, PartialEq)]
struct Mine { a: u8, b: String }
#[derive(Debug, Clone, Copy, PartialEq)]
struct Nothing;
#[derive(Debug, Clone, PartialEq)]
enum Choice { A, B(u8) }
const LIMIT: u8 = 128;
static TEXT: &str = "a static text";
fn make(x: u8) -> Mine { Mine { a: x, b: "made".into() } }
fn low(x: u8) -> bool { x < LIMIT }
trait Half { fn half(&self) -> bool; }
impl Half for u8 { fn half(&self) -> bool { *self < 128 } }

type Is = Box<dyn Fn(&Error) -> bool>;

fn custom<T: std::any::Any + PartialEq>(want: T) -> Is {
    Box::new(move |e| matches!(e, Error::Custom { .. }) && e.custom_err::<T>() == Some(&want))
}
fn message(want: String) -> Is {
    Box::new(move |e| matches!(e, Error::AssertFail { message, .. } if *message == want))
}
fn debug<T: std::any::Any + std::fmt::Debug>(want: T) -> Is {
    Box::new(move |e| matches!(e, Error::Custom { .. }) && e.custom_err::<T>().map(|x| format!("{:?}", x)) == Some(format!("{:?}", want)))
}
fn at(e: &Error) -> Option<u64> {
    match e {
        Error::AssertFail { pos, .. } | Error::Custom { pos, .. } => Some(*pos),
        _ => None,
    }
}

/// Reads T at `lead`: whether it may be read, and which error it has to give if not.
fn one<T: BinRead<Args = A>, A>(m: &mut Mon, what: &str, place: &str, lead: u64, args: A, pre: bool, (x, y): (u8, u16), good: bool,
                                is: &Is, lazy: u64, parts: fn(&T) -> (u8, u16)) {
    let mut d = m.rng.bytes(lead as usize);
    let len = if pre && !good && m.rng.below(2) == 0 { 0 } else { 6 };
    d.extend_from_slice(&[x, (y >> 8) as u8, y as u8, 1, 2, 3][..len]);
    let mut c = Cursor::new(d);
    c.set_position(lead);
    CONDS.with(|c| c.set(0));
    ARGS.with(|c| c.set(0));
    let got = match m.panics(|| c.read_type_args::<T>(Endian::Big, args)) {
        Ok(x) => x,
        Err(p) => return m.bad(format!("{} in {}: panic {}", what, place, p)),
    };
    let calls = (CONDS.with(|c| c.get()), ARGS.with(|c| c.get()));
    m.count("assertions", 1);
    m.count(if good { "held" } else { "failed" }, 1);
    m.state(format!("{} {} {} {}", what, place, good, lead));
    let show = || format!("{} in {}, x = {} y = {} at {}", what, place, x, y, lead);
    m.eq(calls, (1, if good { 0 } else { lazy }), || format!("{}: evaluations of the condition and of the argument", show()));
    match got {
        Ok(t) => {
            m.check(good, || format!("{}: read although the assertion is false", show()));
            m.eq(parts(&t), (x, y), || format!("{}: values", show()));
        }
        Err(e) => {
            m.check(!good, || format!("{}: {:?} although the assertion holds", show(), e));
            m.eq(c.position(), lead, || format!("{}: position after the failure", show()));
            let e = match e {
                Error::EnumErrors { pos, mut variant_errors } if place.contains("variant") => {
                    m.check(pos == lead && variant_errors.len() == 1 && variant_errors[0].0 == "V", || format!("{}: enum error", show()));
                    match variant_errors.pop() { Some((_, e)) => e, None => return }
                }
                e => e,
            };
            m.check(is(&e), || format!("{}: not the error it names: {:?}", show(), e));
            m.eq(at(&e), Some(lead), || format!("{}: position of the error", show()));
        }
    }
}

/// The places, for the condition `$c` and what comes after it.
macro_rules! places {
    ($name:ident, $x:ident, $y:ident, [$($c:tt)*], [$($tail:tt)*], $is:expr, $lazy:expr) => {
        pub mod $name {
            use super::*;
            fn good($x: u8, $y: u16) -> bool { $($c)* }
            #[derive(BinRead)]
            #[br(assert(asked() && { $($c)* } $($tail)*))]
            pub struct Struct { $x: u8, $y: u16 }
            #[derive(BinRead)]
            pub struct Field { $x: u8, #[br(assert(asked() && ($($c)*) $($tail)*))] $y: u16, _last: u8 }
            #[binread::derive_binread]
            pub struct Temp { #[br(temp)] $x: u8, $y: u16, #[br(assert(asked() && ($($c)*) $($tail)*), calc = $x)] keep: u8 }
            #[derive(BinRead)]
            #[br(assert(asked() && { $($c)* } $($tail)*))]
            pub enum Top { V { $x: u8, $y: u16 } }
            #[derive(BinRead)]
            pub enum Variant { #[br(assert(asked() && { $($c)* } $($tail)*))] V { $x: u8, $y: u16 } }
            #[derive(BinRead)]
            pub enum InVariant { V { $x: u8, #[br(assert(asked() && { $($c)* } $($tail)*))] $y: u16 } }
            #[derive(BinRead)]
            #[br(import($x: u8, $y: u16), pre_assert(asked() && { $($c)* } $($tail)*))]
            pub struct Pre { p: u8, q: u16 }
            #[derive(BinRead)]
            #[br(import($x: u8, $y: u16))]
            pub enum PreVariant { #[br(pre_assert(asked() && { $($c)* } $($tail)*))] V(u8, u16) }
            #[derive(BinRead)]
            #[br(import($x: u8, $y: u16))]
            #[br(pre_assert(asked() && { $($c)* } $($tail)*))]
            pub enum PreTop { V(u8, u16) }
            #[derive(BinRead)]
            #[br(import($x: u8, $y: u16), assert(asked() && { $($c)* } $($tail)*))]
            pub struct Tuple(u8, u16);

            pub fn all(m: &mut Mon) {
                let what = stringify!($name);
                let is: fn(u8, u16) -> Is = |$x, $y| { let _ = ($x, $y); $is };
                for lead in [0u64, 5] {
                    for x in (0..=255u8).filter(|x| lead == 0 || x % 16 > 13 || x % 16 < 2) {
                        let y = m.rng.pick(&[0u16, 1, 7, 255, 256, 4660, 65535]);
                        let (v, g, i) = ((x, y), good(x, y), &is(x, y));
                        one::<Struct, _>(m, what, "struct", lead, (), false, v, g, i, $lazy, |t| (t.$x, t.$y));
                        one::<Field, _>(m, what, "field", lead, (), false, v, g, i, $lazy, |t| (t.$x, t.$y));
                        one::<Temp, _>(m, what, "calculated field", lead, (), false, v, g, i, $lazy, |t| (t.keep, t.$y));
                        one::<Top, _>(m, what, "enum (variant)", lead, (), false, v, g, i, $lazy, |t| match t { Top::V { $x, $y } => (*$x, *$y) });
                        one::<Variant, _>(m, what, "variant", lead, (), false, v, g, i, $lazy, |t| match t { Variant::V { $x, $y } => (*$x, *$y) });
                        one::<InVariant, _>(m, what, "variant's field", lead, (), false, v, g, i, $lazy, |t| match t { InVariant::V { $x, $y } => (*$x, *$y) });
                        one::<Pre, _>(m, what, "pre_assert of struct", lead, v, true, v, g, i, $lazy, |t| (t.p, t.q));
                        one::<PreVariant, _>(m, what, "pre_assert of variant", lead, v, true, v, g, i, $lazy, |t| match t { PreVariant::V(a, b) => (*a, *b) });
                        one::<PreTop, _>(m, what, "pre_assert of enum (variant)", lead, v, true, v, g, i, $lazy, |t| match t { PreTop::V(a, b) => (*a, *b) });
                        one::<Tuple, _>(m, what, "tuple", lead, v, false, v, g, i, $lazy, |t| (t.0, t.1));
                    }
                }
            }
        }
    };
}

macro_rules! forms {
    (@messages $($name:ident($x:ident, $y:ident) [$($f:tt)*])*
     @counted $($cname:ident($cx:ident, $cy:ident) [$($cf:tt)*])*
     @errors $($ename:ident($ex:ident, $ey:ident) [$($e:tt)*] $how:ident)*
     @conditions $($dname:ident($dx:ident, $dy:ident) [$($d:tt)*])*) => {
        $(places!($name, $x, $y, [$x < 128], [, $($f)*], message(format!($($f)*)), 0);)*
        $(places!($cname, $cx, $cy, [$cx < 128], [, $($cf)*], message({ use super::unseen as seen; format!($($cf)*) }), 1);)*
        $(places!($ename, $ex, $ey, [$ex < 128], [, $($e)*], $how($($e)*), 0);)*
        $(places!($dname, $dx, $dy, [$($d)*], [], Box::new(|e: &Error| matches!(e, Error::AssertFail { message, .. } if !message.is_empty())), 0);)*
        fn all_forms(m: &mut Mon) {
            $($name::all(m);)*
            $($cname::all(m);)*
            $($ename::all(m);)*
            $($dname::all(m);)*
        }
    };
}

forms! {
    @messages
    plain(x, y) ["not so"]
    empty(x, y) [""]
    blank(x, y) [" "]
    spaces(x, y) ["  two before and after  "]
    newline(x, y) ["\n"]
    lines(x, y) ["one\ntwo\r\n\tthree\n\n"]
    other(x, y) ["\u{e9}\u{6f22}\u{1f980}\u{0}\u{feff}"]
    letters(x, y) ["été 漢字 🦀"]
    braces(x, y) ["{{}}"]
    braced(x, y) ["{{x}} }}{{"]
    quoted(x, y) ["\"q\" \\ 'c'"]
    raw(x, y) [r"raw \n {x}"]
    raw_quoted(x, y) [r#"raw "q""#]
    continued(x, y) ["cont \
                      inued"]
    percent(x, y) ["%s %d %%"]
    upper(x, y) ["Not UPPER: Case;"]
    long(x, y) ["0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"]
    one_arg(x, y) ["{}", x]
    comma(x, y) ["{}", x,]
    swapped(x, y) ["{1} {0}", x, y]
    both(x, y) ["{} {}", x, y]
    again(x, y) ["{0} {0:?} {0:x}", y]
    inline(x, y) ["{x} {y}"]
    inline_mixed(x, y) ["{x} {} {y:>9}|", y]
    widths(x, y) ["{x:>5}|{y:#06x}|{x:<4}|{y:^9}|{x:08b}|{y:+}"]
    debug_of(x, y) ["{:?} {:#?}", (x, y), [x; 2]]
    named(x, y) ["{a} {b}", a = x, b = y]
    named_mixed(x, y) ["{} {a}", y, a = x.wrapping_add(1)]
    dollar(x, y) ["{:1$}|", x, 7]
    dollar_named(x, y) ["{:w$.p$}|", 1.5f32, w = 9, p = 3]
    star(x, y) ["{:.*}", 2, f32::from(x)]
    strings(x, y) ["{} {:?} {}", "a literal", "with \"quotes\"", String::from("owned ")]
    nested(x, y) ["{}", format!("<{}>", x)]
    block(x, y) ["{}", { let z = u32::from(x) * 2; z }]
    choice_of(x, y) ["{}", if x > 200 { "large" } else { "medium " }]
    expr(x, y) ["{} {}", u32::from(x) + u32::from(y), x as i8]
    reference(x, y) ["{} {}", &x, &&y]
    closure(x, y) ["{}", (|z: u8| z ^ 1)(x)]
    constant(x, y) ["{} {}", LIMIT, TEXT]
    chars(x, y) ["{}{}", x as char, 'é']
    many(x, y) ["{}{}{}{}{}{}{}{}{}{}{}{}", x, y, x, y, x, y, x, y, x, y, 1, 2]

    @counted
    counted(x, y) ["{}", seen(x)]
    counted_named(x, y) ["{a:?}", a = seen(y)]
    counted_twice(x, y) ["{0} {0}", seen(x)]
    counted_names(reader, endian) ["{reader} {endian} {}", seen(reader)]
    counted_names_2(pos, options) ["{} {}", pos, seen(options)]
    counted_names_3(args, position) ["{} {}", args, seen(position)]
    counted_names_4(error, result) ["{} {}", error, seen(result)]

    @errors
    mine(x, y) [Mine { a: x, b: y.to_string() }] custom
    made(x, y) [make(x)] custom
    nothing(x, y) [Nothing] custom
    choice(x, y) [if x == 200 { Choice::A } else { Choice::B(x) }] custom
    unit(x, y) [()] custom
    number(x, y) [x] custom
    sum(x, y) [u32::from(x) + u32::from(y)] custom
    pair(x, y) [(x, y)] custom
    literal(x, y) [5] custom
    negative(x, y) [-5i64] custom
    float(x, y) [1.5] custom
    boolean(x, y) [true] custom
    character(x, y) ['c'] custom
    bytes(x, y) [b"bytes"] custom
    byte(x, y) [b'b'] custom
    string(x, y) [String::from("owned ")] custom
    formatted(x, y) [format!("{} {}", x, y)] custom
    joined(x, y) [concat!("a", "b ")] custom
    static_text(x, y) [TEXT] custom
    boxed(x, y) [Box::new(x)] custom
    vector(x, y) [vec![y; 3]] custom
    array(x, y) [[x; 3]] custom
    optional(x, y) [if x > 200 { None } else { Some(y) }] custom
    result(x, y) [if x > 200 { Err::<u8, u16>(y) } else { Ok(x) }] custom
    matched(x, y) [match x { 128 => "least", 255 => "most", _ => "some" }] custom
    blocked(x, y) [{ let z = x; u64::from(z) << 40 }] custom
    own(x, y) [Error::NoVariantMatch { pos: 77 }] debug
    own_assert(x, y) [Error::AssertFail { pos: 78, message: "inner".into() }] debug
    own_io(x, y) [Error::Io(binread::io::Error::new(binread::io::ErrorKind::NotFound, "inner"))] debug
    an_io(x, y) [std::io::Error::new(std::io::ErrorKind::NotFound, "inner")] debug
    dynamic(x, y) [Box::<dyn std::error::Error + Send + Sync>::from("inner")] debug

    @conditions
    less(x, y) [x < 128]
    not(x, y) [!(x >= 128)]
    and(x, y) [x < 128 && y != 7]
    or(x, y) [x < 128 || y == 7]
    equal(x, y) [u16::from(x) == y]
    call(x, y) [low(x)]
    method(x, y) [x.half()]
    matching(x, y) [matches!(x, 0..=127)]
    blocking(x, y) [{ let z = x; z & 0x80 == 0 }]
    iffy(x, y) [if x > 1 { y > 255 } else { true }]
    matching_arms(x, y) [match x { 0 | 1 => true, 255 => false, _ => y & 1 == 0 }]
    casting(x, y) [(x as i8) >= 0]
    shift(x, y) [y >> 8 != 0 || x << 1 == 0]
    never(x, y) [false]
    always(x, y) [true]
    contains(x, y) [[0u8, 127, 128].contains(&x)]
    any(x, y) [[x].iter().all(|z| *z < 128)]
    range(x, y) [(1..200).contains(&x)]
    constant_limit(x, y) [x < LIMIT && TEXT.len() == 13]
    tuple(x, y) [(x, y) < (128, 300)]
    names(pos, reader) [pos < 128 || reader > 255]
    names_2(options, args) [options < 128 || args > 255]
    names_3(endian, temp) [endian < 128 || temp > 255]
}

// Several assertions, in one attribute and in several, stop at the first which is false.
thread_local! { static ORDER: Cell<u64> = Cell::new(0); }
fn bit(x: u8, n: u32) -> bool {
    ORDER.with(|o| o.set(o.get() * 10 + 1 + u64::from(n)));
    x >> n & 1 == 0
}
#[derive(BinRead)]
#[br(assert(bit(x, 0), "b0"), assert(bit(x, 1), "b1"), assert(bit(x, 2), "b2"), assert(bit(x, 3), "b3"))]
struct A1 { x: u8 }
#[derive(BinRead)]
#[br(assert(bit(x, 0), "b0"))]
#[br(assert(bit(x, 1), "b1"))]
#[br(assert(bit(x, 2), "b2"))]
#[br(assert(bit(x, 3), "b3"))]
struct A2 { x: u8 }
#[derive(BinRead)]
#[br(assert(bit(x, 0), "b0"), assert(bit(x, 1), "b1"))]
#[br(big, assert(bit(x, 2), "b2"), assert(bit(x, 3), "b3"))]
struct A3 { x: u8 }
#[derive(BinRead)]
#[br(assert(bit(x, 0), String::from("b0")), assert(bit(x, 1), "b1"))]
#[br(assert(bit(x, 2), "b2"))]
#[br(little)]
#[br(assert(bit(x, 3), "b{}", 3))]
struct A4 { x: u8 }
#[derive(BinRead)]
struct A5 {
    #[br(assert(bit(x, 0), "b0"), assert(bit(x, 1), "b1"))]
    #[br(assert(bit(x, 2), "b2"))]
    #[br(little, assert(bit(x, 3), "b3"))]
    x: u8,
}
#[derive(BinRead)]
#[br(assert(bit(x, 2), "b2"), assert(bit(x, 3), "b3"))]
struct A6 { #[br(assert(bit(x, 0), "b0"))] #[br(assert(bit(x, 1), "b1"))] x: u8 }
#[derive(BinRead)]
#[br(import(x: u8))]
#[br(pre_assert(bit(x, 0), "b0"), pre_assert(bit(x, 1), "b1"))]
#[br(pre_assert(bit(x, 2), "b2"))]
struct A7 { #[br(assert(bit(x, 3), "b3"))] y: u8 }

fn orders(m: &mut Mon) {
    fn go<T: BinRead<Args = A>, A>(m: &mut Mon, what: &str, args: A, x: u8, get: fn(&T) -> u8) {
        ORDER.with(|o| o.set(0));
        let mut c = Cursor::new([x, 0]);
        let got = c.read_type_args::<T>(Endian::Little, args);
        let first = (0..4).find(|n| x >> n & 1 == 1);
        m.count("orders", 1);
        m.state(format!("order {} {}", what, x & 15));
        m.eq(ORDER.with(|o| o.get()), [1, 12, 123, 1234][first.unwrap_or(3) as usize], || format!("{} on {}: order of evaluation", what, x));
        match (got, first) {
            (Ok(t), None) => m.eq(get(&t), x, || format!("{} on {}: value", what, x)),
            (Err(Error::AssertFail { pos: 0, message }), Some(n)) => m.eq(message, format!("b{}", n), || format!("{} on {}", what, x)),
            (Err(e), Some(0)) if what == "A4" => m.eq(e.custom_err::<String>(), Some(&"b0".to_string()), || format!("{} on {}", what, x)),
            (got, _) => m.bad(format!("{} on {}: {:?}", what, x, got.map(|_| "a value"))),
        }
    }
    for x in 0..=255u8 {
        go::<A1, _>(m, "A1", (), x, |t| t.x);
        go::<A2, _>(m, "A2", (), x, |t| t.x);
        go::<A3, _>(m, "A3", (), x, |t| t.x);
        go::<A4, _>(m, "A4", (), x, |t| t.x);
        go::<A5, _>(m, "A5", (), x, |t| t.x);
        go::<A6, _>(m, "A6", (), x, |t| t.x);
        go::<A7, _>(m, "A7", (x,), x, |t| t.y);
    }
}

fn monitor(m: &mut Mon) {
    all_forms(m);
    orders(m);
}
