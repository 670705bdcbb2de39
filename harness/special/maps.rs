// Maps of every sort of function, and what becomes of the errors of fallible ones.
use binread::{io, io::Cursor, BinRead, BinReaderExt, Endian, Error};
use std::any::Any;
use std::cell::Cell;

thread_local! { static CALLS: Cell<u64> = Cell::new(0); }

#[derive(Debug, Clone, PartialEq)]
struct Mine(u32, String);
#[derive(Debug, Clone, Copy, PartialEq)]
struct Nothing;
#[derive(Debug, Clone, PartialEq)]
enum Choice { A, B(u8) }

fn kinds() -> Vec<io::ErrorKind> {
    use io::ErrorKind::*;
    vec![NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof]
}
fn io_error(x: u8) -> io::Error {
    let k = kinds();
    io::Error::new(k[x as usize % k.len()], "from the map")
}
fn own_error(x: u8) -> Error {
    match x % 6 {
        0 => Error::NoVariantMatch { pos: 77 },
        1 => Error::AssertFail { pos: 78, message: "of the map".into() },
        2 => Error::BadMagic { pos: 79, found: Box::new(5u8) },
        3 => Error::Io(io_error(x)),
        4 => Error::Custom { pos: 80, err: Box::new(Mine(1, "inner".into())) },
        _ => Error::EnumErrors { pos: 81, variant_errors: vec![("V", Error::NoVariantMatch { pos: 82 })] },
    }
}

/// `x` is refused with the error which `$make` gives, or the map's result is x + 1.
macro_rules! fallible {
    ($($name:ident, $err:ty, $make:expr, $is:expr;)*) => {$(
        mod $name {
            use super::*;
            pub type E = $err;
            pub fn go(x: u8) -> Result<u16, E> {
                CALLS.with(|c| c.set(c.get() + 1));
                if x < 128 { Ok(u16::from(x) + 1) } else { let f: fn(u8) -> E = $make; Err(f(x)) }
            }
            pub struct Whole(pub u16);
            #[derive(BinRead)]
            pub struct Field {
                pub lead: u16,
                #[br(try_map = go)]
                pub x: u16,
                pub last: u8,
            }
            #[derive(BinRead)]
            pub struct Closure(pub u16, #[br(try_map = |x: u8| go(x))] pub u16, pub u8);
            #[derive(BinRead)]
            #[br(try_map = |x: u8| go(x).map(Type))]
            pub struct Type(pub u16);
            #[derive(BinRead)]
            pub struct Holds { pub lead: u16, pub t: Type, pub last: u8 }
            #[derive(BinRead)]
            pub enum Enum { V { lead: u16, #[br(try_map = go)] x: u16, last: u8 } }
            #[derive(BinRead)]
            pub struct Parser { pub lead: u16, #[br(parse_with = byte, try_map = go)] pub x: u16, pub last: u8 }
            #[derive(BinRead)]
            pub struct Padded { pub lead: u16, #[br(restore_position, try_map = go)] pub x: u16, #[br(pad_before = 1)] pub last: u8 }

            pub fn all(m: &mut Mon, lead: u64) {
                let b = m.rng.bytes(4);
                let what = stringify!($name);
                one::<Field>(m, what, "field", lead, 2, &b, |t| (t.lead, t.x, t.last));
                one::<Closure>(m, what, "closure", lead, 2, &b, |t| (t.0, t.1, t.2));
                one::<Holds>(m, what, "type", lead, 2, &b, |t| (t.lead, t.t.0, t.last));
                one::<Parser>(m, what, "parser", lead, 2, &b, |t| (t.lead, t.x, t.last));
                one::<Padded>(m, what, "restored", lead, 2, &b, |t| (t.lead, t.x, t.last));
                one::<Enum>(m, what, "variant", lead, 2, &b, |t| match t { Enum::V { lead, x, last } => (*lead, *x, *last) });
            }
            fn one<T: BinRead<Args = ()>>(m: &mut Mon, err: &str, place: &str, lead: u64, at: u64, b: &[u8], parts: fn(&T) -> (u16, u16, u8)) {
                let mut d = m.rng.bytes(lead as usize);
                d.extend_from_slice(b);
                let mut c = Cursor::new(d);
                c.set_position(lead);
                CALLS.with(|c| c.set(0));
                let got = match m.panics(|| c.read_type::<T>(Endian::Big)) {
                    Ok(x) => x,
                    Err(x) => return m.bad(format!("{} {}: panic {}", err, place, x)),
                };
                let what = || format!("{} of a {} map, data {:x?} at {}: {:?}", err, place, b, lead, got.as_ref().map(|_| "a value"));
                m.eq(CALLS.with(|c| c.get()), 1, || format!("{}: calls of the map", what()));
                m.state(format!("{} {} {} {}", err, place, b[2], lead == 0));
                m.count("reads", 1);
                let x = b[2];
                let got = match got {
                    Err(Error::EnumErrors { pos, mut variant_errors }) if place == "variant" => {
                        m.check(pos == lead && variant_errors.len() == 1 && variant_errors[0].0 == "V", || format!("{} {}: enum error", err, place));
                        Err(variant_errors.remove(0).1)
                    }
                    got => got,
                };
                match &got {
                    Ok(t) => {
                        let p = parts(t);
                        m.eq(p, (u16::from_be_bytes([b[0], b[1]]), u16::from(x) + 1, b[3]), || format!("{} {}: value", err, place));
                        m.check(x < 128 && c.position() == lead + 4, || format!("{} {} on {}: a value, position {}", err, place, x, c.position()));
                    }
                    Err(e) => {
                        let want = go(x).err();
                        m.check(want.is_some(), || format!("{} {} on {}: {:?}", err, place, x, e));
                        if let Some(want) = want {
                            let is: fn(&Error, &E) -> bool = $is;
                            m.check(is(e, &want), || format!("{} {} on {}: not the error of the map: {:?}", err, place, x, e));
                            if let Error::Custom { pos, .. } = e {
                                m.eq(*pos, lead + at, || format!("{} {}: position of the error", err, place));
                            }
                        }
                        m.eq(c.position(), lead, || format!("{} {}: position after the failure", err, place));
                    }
                }
            }
        }
    )*
    fn fallibles(m: &mut Mon) {
        for lead in [0, 1, 7] {
            $($name::all(m, lead);)*
        }
    }};
}

fn byte<R: io::Read + io::Seek>(r: &mut R, o: &binread::ReadOptions, a: ()) -> binread::BinResult<u8> {
    BinRead::read_options(r, o, a)
}

fn custom<T: Any + PartialEq>(e: &Error, want: &T) -> bool {
    e.custom_err::<T>() == Some(want)
}
fn text<T: Any + std::fmt::Debug>(e: &Error, want: &T) -> bool {
    e.custom_err::<T>().map(|x| format!("{:?}", x)) == Some(format!("{:?}", want))
}

fallible! {
    mine, Mine, |x| Mine(x.into(), x.to_string()), custom;
    nothing, Nothing, |_| Nothing, custom;
    unit, (), |_| (), custom;
    number, u8, |x| x, custom;
    wide, u128, |x| u128::MAX - u128::from(x), custom;
    string, String, |x| format!("bad {}", x), custom;
    literal, &'static str, |x| if x == 200 { "two hundred" } else { "other" }, custom;
    choice, Choice, |x| if x == 201 { Choice::A } else { Choice::B(x) }, custom;
    boxed, Box<u8>, |x| Box::new(x), custom;
    vector, Vec<u16>, |x| vec![x.into(); 3], custom;
    optional, Option<u8>, |x| if x > 200 { None } else { Some(x) }, custom;
    nested, Result<u8, u8>, |x| if x > 200 { Err(x) } else { Ok(x) }, custom;
    kind, io::ErrorKind, |x| io_error(x).kind(), custom;
    own, Error, own_error, text;
    own_boxed, Box<Error>, |x| Box::new(own_error(x)), text;
    io_boxed, Box<io::Error>, |x| Box::new(io_error(x)), text;
    io_maybe, Option<io::Error>, |x| Some(io_error(x)), text;
    format, std::fmt::Error, |_| std::fmt::Error, custom;
    utf8, std::string::FromUtf8Error, |x| String::from_utf8(vec![x | 128]).unwrap_err(), custom;
    parse, std::num::ParseIntError, |_| "x".parse::<u8>().unwrap_err(), custom;
    dynamic, Box<dyn std::error::Error + Send + Sync>, |_| "a text".into(), text;
    plain_io, io::Error, io_error, |e, want| match e { Error::Io(e) => e.kind() == want.kind() && format!("{:?}", e) == format!("{:?}", want), _ => false };
}

struct New(u16);
impl New {
    fn make(x: u16) -> Self { New(x) }
}
impl From<u16> for New {
    fn from(x: u16) -> Self { New(x) }
}
fn twice<T: Copy>(x: T) -> (T, T) { (x, x) }
const CONST: fn(u8) -> u8 = |x| !x;
static STATIC: fn(u8) -> u8 = |x| x ^ 0x55;

/// Functions of every form.
#[derive(BinRead)]
#[br(import(k: u8))]
struct Forms {
    first: u8,
    #[br(map = New)]
    constructor: New,
    #[br(map = New::make)]
    method: New,
    #[br(map = New::from, parse_with = word)]
    from: New,
    #[br(map = Into::into)]
    #[br(parse_with = word)]
    into: New,
    #[br(map = Some)]
    some: Option<u8>,
    #[br(map = twice::<u16>)]
    generic: (u16, u16),
    #[br(map = |x: u8| x.wrapping_add(first).wrapping_add(k))]
    captures: u8,
    #[br(map = |x: [u8; 3]| x.iter().map(|x| u32::from(*x)).sum())]
    array: u32,
    #[br(map = |(a, b): (u8, u16)| (b, a))]
    pattern: (u16, u8),
    #[br(map = |_: u8| ())]
    unit: (),
    #[br(map = CONST)]
    constant: u8,
    #[br(map = STATIC)]
    fixed: u8,
    #[br(map = { let y = first; move |x: u8| x ^ y })]
    block: u8,
    #[br(map = if k > 100 { |x: u8| x } else { |x: u8| !x })]
    chosen: u8,
    #[br(map = u64::from, parse_with = word)]
    widened: u64,
    #[br(map = |x: u8| -> i16 { if x == 0 { return -1; } x.into() })]
    returns: i16,
    #[br(count = 2, map = |x: Vec<u8>| x.len() + x[1] as usize)]
    counted: usize,
    #[br(try, map = |x: Option<u8>| x.map_or(0, |x| x / 2))]
    tried: u8,
    #[br(map = Box::new)]
    #[br(parse_with = word)]
    boxed: Box<u16>,
    last: u8,
}
fn word<R: io::Read + io::Seek>(r: &mut R, o: &binread::ReadOptions, a: ()) -> binread::BinResult<u16> {
    BinRead::read_options(r, o, a)
}

fn forms(m: &mut Mon) {
    let b = m.rng.bytes(64);
    let k = m.rng.next() as u8;
    let big = m.rng.below(2) == 0;
    let mut c = Cursor::new(&b);
    let f: Forms = match c.read_type_args(if big { Endian::Big } else { Endian::Little }, (k,)) {
        Ok(x) => x,
        Err(x) => return m.bad(format!("forms: {:?}", x)),
    };
    let mut at = 0;
    let mut n1 = || { at += 1; b[at - 1] };
    let first = n1();
    macro_rules! w { () => {{ let p = [n1(), n1()]; if big { u16::from_be_bytes(p) } else { u16::from_le_bytes(p) } }} }
    macro_rules! same { ($($what:ident: $got:expr, $want:expr;)*) => {$( let w = $want; m.eq(format!("{:?}", $got), format!("{:?}", w), || format!("map: {}", stringify!($what))); )*} }
    same! {
        first: f.first, first;
        constructor: f.constructor.0, w!();
        method: f.method.0, w!();
        from: f.from.0, w!();
        into: f.into.0, w!();
        some: f.some, Some(n1());
        generic: f.generic, { let x = w!(); (x, x) };
        captures: f.captures, n1().wrapping_add(first).wrapping_add(k);
        array: f.array, u32::from(n1()) + u32::from(n1()) + u32::from(n1());
        pattern: f.pattern, { let a = n1(); (w!(), a) };
        unit: f.unit, { n1(); };
        constant: f.constant, !n1();
        fixed: f.fixed, n1() ^ 0x55;
        block: f.block, n1() ^ first;
        chosen: f.chosen, if k > 100 { n1() } else { !n1() };
        widened: f.widened, w!();
        returns: f.returns, match n1() { 0 => -1i16, x => x.into() };
        counted: f.counted, { n1(); 2 + n1() as usize };
        tried: f.tried, n1() / 2;
        boxed: f.boxed, w!();
        last: f.last, n1();
    }
    m.eq(c.position(), at as u64, || "map: position".into());
    m.state(format!("forms {} {}", big, k > 100));
    m.count("reads", 1);
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.times(300) {
        fallibles(m);
        for _ in 0..20 {
            forms(m);
        }
    }
    m.sample("22 error types x 6 places of a fallible map; 20 forms of map functions".into());
}
