// Every way to start a read, on types written by hand which record what they are called with.
use binread::{
    io::{Cursor, Read, Seek, SeekFrom},
    BinRead, BinReaderExt, BinResult, Endian, Error, ReadOptions,
};
use std::any::Any;
use std::cell::RefCell;
use std::convert::Infallible;
use std::marker::PhantomData;

#[derive(Debug, Clone, PartialEq)]
struct Call {
    second: bool,
    endian: &'static str,
    offset: u64,
    count: Option<usize>,
    args: String,
    at: u64,
    value: u64,
}

thread_local! {
    static LOG: RefCell<Vec<Call>> = RefCell::new(Vec::new());
    /// whether the first and the second stage fail
    static FAIL: RefCell<(Option<u64>, Option<u64>)> = RefCell::new((None, None));
    static NEXT: RefCell<u64> = RefCell::new(0);
}

const HOST: &str = if cfg!(target_endian = "big") { "big" } else { "little" };

fn order(e: Endian) -> &'static str {
    match e {
        Endian::Big => "big",
        Endian::Little => "little",
        Endian::Native => HOST,
    }
}

fn here<R: Seek>(r: &mut R) -> u64 {
    r.seek(SeekFrom::Current(0)).unwrap()
}

/// A type whose arguments are of type A and which has the given default for them.
struct Probe<A, D>(u64, PhantomData<(A, D)>);

/// leaves args_default alone
struct Inherited;

fn first<R: Read + Seek>(r: &mut R, o: &ReadOptions, args: String) -> BinResult<u64> {
    let at = here(r);
    let value = NEXT.with(|n| {
        *n.borrow_mut() += 1;
        *n.borrow()
    });
    LOG.with(|l| l.borrow_mut().push(Call { second: false, endian: order(o.endian), offset: o.offset, count: o.count, args, at, value }));
    r.seek(SeekFrom::Current(3))?;
    match FAIL.with(|f| f.borrow().0) {
        Some(k) => Err(Error::Custom { pos: at, err: Box::new(k) }),
        None => Ok(value),
    }
}

fn second<R: Read + Seek>(v: u64, r: &mut R, o: &ReadOptions, args: String) -> BinResult<()> {
    let at = here(r);
    LOG.with(|l| l.borrow_mut().push(Call { second: true, endian: order(o.endian), offset: o.offset, count: o.count, args, at, value: v }));
    match FAIL.with(|f| f.borrow().1) {
        Some(k) => Err(Error::Custom { pos: at, err: Box::new(k) }),
        None => Ok(()),
    }
}

impl<A: Any + Copy + std::fmt::Debug> BinRead for Probe<A, Inherited> {
    type Args = A;
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: A) -> BinResult<Self> {
        first(r, o, format!("{:?}", a)).map(|v| Probe(v, PhantomData))
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: A) -> BinResult<()> {
        second(self.0, r, o, format!("{:?}", a))
    }
}

/// a default of the type's own
struct Own;
impl BinRead for Probe<(u8, u16), Own> {
    type Args = (u8, u16);
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: Self::Args) -> BinResult<Self> {
        first(r, o, format!("{:?}", a)).map(|v| Probe(v, PhantomData))
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: Self::Args) -> BinResult<()> {
        second(self.0, r, o, format!("{:?}", a))
    }
    fn args_default() -> Option<Self::Args> {
        Some((7, 515))
    }
}
/// none, although it takes ()
struct Never;
impl BinRead for Probe<(), Never> {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: ()) -> BinResult<Self> {
        first(r, o, format!("{:?}", a)).map(|v| Probe(v, PhantomData))
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: ()) -> BinResult<()> {
        second(self.0, r, o, format!("{:?}", a))
    }
    fn args_default() -> Option<()> {
        None
    }
}

const WAYS: [&str; 5] = ["read", "read_type", "read_be", "read_le", "read_ne"];
const WITH: [&str; 7] = ["read_options", "both", "read_args", "read_type_args", "read_be_args", "read_le_args", "read_ne_args"];

fn judge<A, D>(m: &mut Mon, name: &str, way: &str, e: Endian, o: ReadOptions, args: &str, start: u64, by_ref: u8, f: impl FnOnce(&mut Cursor<Vec<u8>>) -> BinResult<Probe<A, D>>) {
    let fail = match m.rng.below(4) {
        0 => (Some(m.rng.next()), None),
        1 => (None, Some(m.rng.next())),
        _ => (None, None),
    };
    let direct = way == "read" || way == "read_args" || way == "read_options";
    let seen = match way {
        "read" | "read_args" => HOST,
        "read_options" | "both" => order(o.endian),
        "read_type" | "read_type_args" => order(e),
        "read_be" | "read_be_args" => "big",
        "read_le" | "read_le_args" => "little",
        _ => HOST,
    };
    let (offset, count) = if way == "read_options" || way == "both" { (o.offset, o.count) } else { (0, None) };
    FAIL.with(|x| *x.borrow_mut() = fail);
    LOG.with(|l| l.borrow_mut().clear());
    let mut c = Cursor::new(vec![0u8; 64]);
    c.set_position(start);
    let what = format!("{} of {} ({}, start {}, failures {:?}, through {})", way, name, order(e), start, fail, by_ref);
    m.state(format!("{} {} {} {:?}", way, name, order(e), (fail.0.is_some(), fail.1.is_some())));
    let got = match m.panics(|| f(&mut c)) {
        Ok(x) => x,
        Err(p) => return m.bad(format!("{}: panicked: {}", what, p)),
    };
    let calls = LOG.with(|l| l.borrow().clone());
    let value = NEXT.with(|n| *n.borrow());
    let mut want = vec![Call { second: false, endian: seen, offset, count, args: args.into(), at: start, value }];
    if fail.0.is_none() && !direct {
        want.push(Call { second: true, at: start + 3, ..want[0].clone() });
    }
    m.eq(calls, want, || what.clone());
    let expect = match (fail, direct) {
        ((Some(k), _), _) => Err((start, k)),
        ((_, Some(k)), false) => Err((start + 3, k)),
        _ => Ok(value),
    };
    let got = match got {
        Ok(x) => Ok(x.0),
        Err(Error::Custom { pos, err }) => Err((pos, *err.downcast_ref::<u64>().unwrap())),
        Err(x) => return m.bad(format!("{}: {:?}", what, x)),
    };
    m.eq(got, expect, || what.clone());
    m.eq(c.position(), start + 3, || format!("{}: position", what));
}

fn go<T: BinRead>(way: &str, e: Endian, by_ref: u8, c: &mut Cursor<Vec<u8>>) -> BinResult<T> {
    fn on<T: BinRead, R: Read + Seek>(way: &str, e: Endian, r: &mut R) -> BinResult<T> {
        match way {
            "read" => T::read(r),
            "read_type" => r.read_type(e),
            "read_be" => r.read_be(),
            "read_le" => r.read_le(),
            _ => r.read_ne(),
        }
    }
    match by_ref {
        0 => on(way, e, c),
        1 => on(way, e, &mut &mut *c),
        _ => on(way, e, &mut Box::new(&mut &mut *c).as_mut()),
    }
}

fn go_args<T: BinRead>(way: &str, e: Endian, o: &ReadOptions, a: T::Args, by_ref: u8, c: &mut Cursor<Vec<u8>>) -> BinResult<T>
where
    T::Args: Copy + 'static,
{
    fn on<T: BinRead, R: Read + Seek>(way: &str, e: Endian, o: &ReadOptions, a: T::Args, r: &mut R) -> BinResult<T>
    where
        T::Args: Copy + 'static,
    {
        match way {
            "both" => binread::error::read_options_then_after_parse(r, o, a),
            "read_options" => T::read_options(r, o, a),
            "read_args" => T::read_args(r, a),
            "read_type_args" => r.read_type_args(e, a),
            "read_be_args" => r.read_be_args(a),
            "read_le_args" => r.read_le_args(a),
            _ => r.read_ne_args(a),
        }
    }
    match by_ref {
        0 => on(way, e, o, a, c),
        1 => on(way, e, o, a, &mut &mut *c),
        _ => on(way, e, o, a, &mut Box::new(&mut &mut *c).as_mut()),
    }
}

/// A type for which nothing may be made up.
fn required<A: Any + Copy + std::fmt::Debug, D>(m: &mut Mon, name: &str, some: Option<A>)
where
    Probe<A, D>: BinRead<Args = A>,
{
    m.check(<Probe<A, D>>::args_default().is_none(), || format!("args_default of {} is not None", name));
    let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
    for way in WAYS.iter() {
        LOG.with(|l| l.borrow_mut().clear());
        let by_ref = m.rng.below(3) as u8;
        let mut c = Cursor::new(vec![0u8; 64]);
        let r = m.panics(|| go::<Probe<A, D>>(way, e, by_ref, &mut c).is_ok());
        match r {
            Ok(_) => m.bad(format!("{} of {} without its arguments went on", way, name)),
            Err(p) => m.check(p.contains("Must pass args"), || format!("{} of {} without its arguments: {}", way, name, p)),
        }
        m.eq(LOG.with(|l| l.borrow().len()), 0, || format!("{} of {} without its arguments: calls", way, name));
        m.eq(c.position(), 0, || format!("{} of {} without its arguments: position", way, name));
        m.state(format!("{} of {} is refused", way, name));
    }
    if let Some(a) = some {
        with::<A, D>(m, name, a);
    }
}

fn options(m: &mut Mon, e: Endian) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = e;
    o.offset = m.rng.below(1000);
    o.count = if m.rng.below(2) == 0 { None } else { Some(m.rng.below(9) as usize) };
    o
}

fn with<A: Any + Copy + std::fmt::Debug, D>(m: &mut Mon, name: &str, a: A)
where
    Probe<A, D>: BinRead<Args = A>,
{
    for way in WITH.iter() {
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        let o = options(m, e);
        let (start, by_ref) = (m.rng.below(60), m.rng.below(3) as u8);
        judge(m, name, way, e, o, &format!("{:?}", a), start, by_ref, |c| go_args::<Probe<A, D>>(way, e, &o, a, by_ref, c));
    }
}

fn optional<A: Any + Copy + std::fmt::Debug + PartialEq, D>(m: &mut Mon, name: &str, default: A)
where
    Probe<A, D>: BinRead<Args = A>,
{
    m.check(<Probe<A, D>>::args_default() == Some(default), || format!("args_default of {}", name));
    for way in WAYS.iter() {
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        let o = options(m, e);
        let (start, by_ref) = (m.rng.below(60), m.rng.below(3) as u8);
        judge(m, name, way, e, o, &format!("{:?}", default), start, by_ref, |c| go::<Probe<A, D>>(way, e, by_ref, c));
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct Token(());
#[derive(Debug, Clone, Copy)]
struct Empty {}
#[derive(Debug, Clone, Copy)]
struct Unit;

fn derived(m: &mut Mon) {
    #[derive(BinRead)]
    #[br(import(a: u8))]
    struct A {
        #[br(calc = a)]
        _a: u8,
    }
    #[derive(BinRead)]
    #[br(import())]
    struct B;
    #[derive(BinRead)]
    #[br(import_tuple(a: ()))]
    struct C {
        #[br(calc = a)]
        _a: (),
    }
    #[derive(BinRead)]
    #[br(import_tuple(a: Token))]
    struct D {
        #[br(calc = a)]
        _a: Token,
    }
    m.check(A::args_default().is_none(), || "derived: import(a: u8)".into());
    m.check(B::args_default() == Some(()), || "derived: import()".into());
    m.check(C::args_default() == Some(()), || "derived: import_tuple(a: ())".into());
    m.check(D::args_default().is_none(), || "derived: import_tuple(a: Token)".into());
    m.check(<Vec<A>>::args_default().is_none(), || "Vec".into());
    m.check(<Option<Box<D>>>::args_default().is_none(), || "Option<Box>".into());
    m.check(<binread::PosValue<D>>::args_default().is_none(), || "PosValue".into());
    m.check(<binread::FilePtr8<D>>::args_default().is_none(), || "FilePtr".into());
    m.check(<binread::FilePtr8<B>>::args_default() == Some(()), || "FilePtr".into());
    m.check(<(u8, B)>::args_default() == Some(()), || "tuple".into());
    m.check(u128::args_default() == Some(()) && char::args_default() == Some(()) && <()>::args_default() == Some(()), || "primitives".into());
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.times(120) {
        optional::<(), Inherited>(m, "()", ());
        optional::<(u8, u16), Own>(m, "(u8, u16) with a default", (7, 515));
        with::<(u8, u16), Own>(m, "(u8, u16) with a default", (3, 4));
        required::<(), Never>(m, "() without default", Some(()));
        required::<(u8,), Inherited>(m, "(u8,)", Some((9,)));
        required::<u64, Inherited>(m, "u64", Some(1 << 40));
        required::<bool, Inherited>(m, "bool", Some(true));
        required::<((),), Inherited>(m, "((),)", Some(((),)));
        required::<((), ()), Inherited>(m, "((), ())", Some(((), ())));
        required::<Token, Inherited>(m, "a newtype of ()", Some(Token(())));
        required::<Empty, Inherited>(m, "an empty struct", Some(Empty {}));
        required::<Unit, Inherited>(m, "a unit struct", Some(Unit));
        required::<PhantomData<u8>, Inherited>(m, "PhantomData", Some(PhantomData));
        required::<[u8; 0], Inherited>(m, "[u8; 0]", Some([]));
        required::<[(); 5], Inherited>(m, "[(); 5]", Some([(); 5]));
        required::<Infallible, Inherited>(m, "Infallible", None);
        required::<Option<Infallible>, Inherited>(m, "Option<Infallible>", Some(None));
        required::<&'static str, Inherited>(m, "&str", Some("text"));
        required::<&'static (), Inherited>(m, "&()", Some(&()));
        derived(m);
    }
}
