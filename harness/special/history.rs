// Reads one after the other, within each other and beside each other: large and small ones, whole
// and truncated ones, ones whose reader fails or panics. What each gives is known from its own
// input alone.
use binread::io::{self, Read, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{prelude::*, Endian, FilePtr16, FilePtr32, NullString, NullWideString, PosValue};

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Whole,
    /// the data end
    Cut,
    Fail,
    Panic,
}
use How::*;

/// Hands out `data` up to `limit` in pieces, and may do another read in the midst.
struct Rd {
    data: Vec<u8>,
    pos: u64,
    limit: u64,
    how: How,
    chunk: usize,
    inner: Option<(Op, u32)>,
    wrong: Option<String>,
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some((op, when)) = self.inner.take() {
            if when == 0 {
                if let Err(x) = op.go() {
                    self.wrong = Some(format!("within another: {}", x));
                }
            } else {
                self.inner = Some((op, when - 1));
            }
        }
        if b.is_empty() {
            return Ok(0);
        }
        let left = self.limit.saturating_sub(self.pos) as usize;
        if left == 0 {
            return match self.how {
                Fail => Err(io::Error::new(io::ErrorKind::Other, "history")),
                Panic => panic!("history"),
                _ => Ok(0),
            };
        }
        let n = b.len().min(left).min(self.chunk);
        b[..n].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Rd {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => (self.pos as i64 + d) as u64,
            SeekFrom::End(d) => (self.data.len() as i64 + d) as u64,
        };
        Ok(self.pos)
    }
}

#[derive(BinRead)]
#[br(import(n: u32))]
struct Bytes(#[br(count = n, parse_with = binread::helpers::read_bytes)] Vec<u8>);
#[derive(BinRead)]
#[br(import(n: u32))]
struct Words(#[br(count = n)] Vec<u32>);
#[derive(BinRead)]
#[br(import(n: u32))]
struct Mixed {
    #[br(count = n)]
    a: Vec<(u8, u16)>,
    #[br(count = n, parse_with = Punctuated::separated_trailing)]
    b: Punctuated<u8, u8>,
}
#[derive(BinRead)]
struct Until(#[br(parse_with = binread::until(|x: &u16| *x == 0))] Vec<u16>);
#[derive(BinRead)]
struct Excl(#[br(parse_with = binread::until_exclusive(|x: &u8| *x == 0))] Vec<u8>);
#[derive(BinRead)]
struct Eof(#[br(parse_with = binread::until_eof)] Vec<u16>);
#[derive(BinRead)]
#[br(import(n: u32))]
struct Text {
    // a string read bytewise: text of n bytes
    #[br(count = n, map = |x: Vec<u8>| x.iter().map(|b| *b as char).collect::<String>())]
    a: String,
}
#[derive(BinRead)]
#[br(import(n: u32))]
enum Either {
    #[br(magic = 0x11u8)]
    A {
        #[br(count = n)]
        x: Vec<u8>,
        #[br(assert(y != 0x5A5A5A5A, "y is {}", y))]
        y: u32,
    },
    #[br(magic = 0x22u8)]
    B {
        p: FilePtr16<u8>,
        #[br(count = n)]
        x: Vec<i16>,
    },
    #[br(magic = 0x33u8)]
    C(PosValue<u8>, #[br(args(n))] Words),
}
#[derive(BinRead)]
#[br(import(n: u32))]
struct Pointed {
    #[br(count = n, parse_with = FilePtr32::parse)]
    x: Vec<u8>,
    after: u16,
}
#[derive(BinRead)]
#[br(import(n: u32))]
struct Tries {
    #[br(try)]
    a: Option<Either1>,
    #[br(count = n)]
    b: Vec<u8>,
}
#[derive(BinRead)]
#[br(magic = 0xFFu8)]
struct Either1(u8);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    KBytes,
    KWords,
    KMixed,
    KUntil,
    KExcl,
    KEof,
    KNul,
    KWide,
    KText,
    KEitherA,
    KEitherB,
    KEitherC,
    KAssert,
    KNone,
    KPointed,
    KTries,
    KArray,
    KTuple,
}
use Kind::*;
const KINDS: [Kind; 18] = [
    KBytes, KWords, KMixed, KUntil, KExcl, KEof, KNul, KWide, KText, KEitherA, KEitherB, KEitherC, KAssert, KNone, KPointed, KTries, KArray, KTuple,
];

#[derive(Clone, Copy, Debug)]
struct Op {
    kind: Kind,
    n: u32,
    seed: u64,
    big: bool,
    how: How,
    /// per mille of the data which are there
    part: u32,
    chunk: usize,
    nest: Option<(u32, u32)>,
}

fn mixed(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 31)
}

struct W {
    d: Vec<u8>,
    want: Vec<u64>,
    big: bool,
    seed: u64,
    i: u64,
}
impl W {
    fn any(&mut self) -> u64 {
        self.i += 1;
        mixed(self.seed, self.i) >> 7
    }
    fn put(&mut self, x: u64, size: usize) -> u64 {
        let b = x.to_be_bytes();
        let b = &b[8 - size..];
        if self.big {
            self.d.extend_from_slice(b);
        } else {
            self.d.extend(b.iter().rev());
        }
        if size == 8 { x } else { x & ((1 << (8 * size)) - 1) }
    }
    /// data which are part of the value
    fn val(&mut self, x: u64, size: usize) {
        let x = self.put(x, size);
        self.want.push(x);
    }
    fn vals(&mut self, n: u32, size: usize) {
        for _ in 0..n {
            let x = self.any();
            self.val(x, size);
        }
    }
    fn nonzero(&mut self, n: u32, size: usize) {
        for _ in 0..n {
            let x = 1 + self.any() % 250;
            self.val(x, size);
        }
    }
}

impl Op {
    /// The data, the value and the bytes which have to be there.
    fn make(&self) -> (Vec<u8>, Vec<u64>, u64, u64) {
        let mut w = W { d: vec![], want: vec![], big: self.big, seed: self.seed, i: 0 };
        let n = self.n;
        let mut end = None;
        match self.kind {
            KBytes | KText => w.vals(n, 1),
            KWords => w.vals(n, 4),
            KMixed => {
                for _ in 0..n {
                    w.vals(1, 1);
                    w.vals(1, 2);
                }
                w.vals(2 * n, 1);
            }
            KUntil => {
                w.nonzero(n, 2);
                w.val(0, 2);
            }
            KExcl | KNul => {
                w.nonzero(n, 1);
                w.put(0, 1);
            }
            KWide => {
                w.nonzero(n, 2);
                w.put(0, 2);
            }
            KEof => w.vals(n, 2),
            KEitherA | KAssert => {
                w.put(0x11, 1);
                w.want.push(0);
                w.vals(n, 1);
                let x = if self.kind == KAssert { 0x5A5A5A5A } else { w.any() & 0xFFFFFF };
                w.val(x, 4);
            }
            KNone => {
                w.put(0x44, 1);
            }
            KEitherB => {
                w.put(0x22, 1);
                w.want.push(1);
                // the pointer is to the magic number
                w.put(0, 2);
                w.want.push(0x22);
                w.vals(n, 2);
            }
            KEitherC => {
                w.put(0x33, 1);
                w.want.push(2);
                w.want.push(1);
                w.vals(1, 1);
                w.vals(n, 4);
            }
            KPointed => {
                w.put(6, 4);
                let at = w.any();
                let x = w.put(at, 2);
                w.vals(n, 1);
                w.want.push(x);
                end = Some(6);
            }
            KTries => {
                // the optional part is not there, unless the first byte says so
                if n > 0 && self.seed % 3 == 0 {
                    w.put(0xFF, 1);
                    w.vals(1, 1);
                    w.vals(n, 1);
                } else {
                    for i in 0..n {
                        let x = w.any() % 0xFF;
                        w.val(x, 1);
                        let _ = i;
                    }
                }
            }
            KArray => w.vals(32, 8),
            KTuple => {
                w.vals(1, 1);
                w.vals(1, 2);
                w.vals(1, 4);
                w.vals(1, 8);
            }
        }
        let need = w.d.len() as u64;
        let end = end.unwrap_or(need);
        (w.d, w.want, need, end)
    }

    fn go(&self) -> Result<(), String> {
        let (mut data, want, need, end) = self.make();
        let whole = self.how == Whole || need == 0 || self.kind == KEof || self.kind == KTries;
        let limit = if whole { need } else { (need * u64::from(self.part) / 1000).min(need - 1) };
        let tail = if self.kind == KEof { 0 } else { 3 };
        let e = if self.big { Endian::Big } else { Endian::Little };
        data.extend(vec![0x77; tail]);
        let inner = self.nest.map(|(k, when)| {
            (Op { kind: KINDS[k as usize % KINDS.len()], n: k % 300, seed: self.seed ^ 0x55, big: !self.big, how: [Whole, Cut, Fail, Panic][(k / 7 % 4) as usize], part: 700, chunk: 1000, nest: None }, when)
        });
        let mut r = Rd { data, pos: 0, limit: if whole { need + tail as u64 } else { limit }, how: if whole { Whole } else { self.how }, chunk: self.chunk, inner, wrong: None };
        let n = self.n;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> BinResult<Vec<u64>> {
            let r = &mut r;
            let f8 = |v: &[u8]| v.iter().map(|x| u64::from(*x)).collect::<Vec<u64>>();
            let f16 = |v: &[u16]| v.iter().map(|x| u64::from(*x)).collect::<Vec<u64>>();
            let f32 = |v: &[u32]| v.iter().map(|x| u64::from(*x)).collect::<Vec<u64>>();
            Ok(match self.kind {
                KBytes => f8(&r.read_type_args::<Bytes>(e, (n,))?.0),
                KText => r.read_type_args::<Text>(e, (n,))?.a.chars().map(|c| c as u64).collect(),
                KWords => f32(&r.read_type_args::<Words>(e, (n,))?.0),
                KMixed => {
                    let x: Mixed = r.read_type_args(e, (n,))?;
                    let mut v: Vec<u64> = x.a.iter().flat_map(|x| vec![u64::from(x.0), u64::from(x.1)]).collect();
                    for (a, b) in x.b.iter().zip(&x.b.seperators) {
                        v.push(u64::from(*a));
                        v.push(u64::from(*b));
                    }
                    v
                }
                KUntil => f16(&r.read_type::<Until>(e)?.0),
                KExcl => f8(&r.read_type::<Excl>(e)?.0),
                KEof => f16(&r.read_type::<Eof>(e)?.0),
                KNul => f8(&r.read_type::<NullString>(e)?.0),
                KWide => f16(&r.read_type::<NullWideString>(e)?.0),
                KEitherA | KEitherB | KEitherC | KAssert | KNone => match r.read_type_args::<Either>(e, (n,))? {
                    Either::A { x, y } => {
                        let mut v = vec![0];
                        v.extend(f8(&x));
                        v.push(u64::from(y));
                        v
                    }
                    Either::B { p, x } => {
                        let mut v = vec![1, u64::from(*p)];
                        v.extend(x.iter().map(|x| u64::from(*x as u16)));
                        v
                    }
                    Either::C(p, x) => {
                        let mut v = vec![2, p.pos, u64::from(p.val)];
                        v.extend(f32(&x.0));
                        v
                    }
                },
                KPointed => {
                    let x: Pointed = r.read_type_args(e, (n,))?;
                    let mut v = f8(&x.x);
                    v.push(u64::from(x.after));
                    v
                }
                KTries => {
                    let x: Tries = r.read_type_args(e, (n,))?;
                    let mut v: Vec<u64> = x.a.iter().map(|x| u64::from(x.0)).collect();
                    v.extend(f8(&x.b));
                    v
                }
                KArray => r.read_type::<[u64; 32]>(e)?.iter().map(|x| *x).collect(),
                KTuple => {
                    let x: (u8, u16, u32, u64) = r.read_type(e)?;
                    vec![u64::from(x.0), u64::from(x.1), u64::from(x.2), x.3]
                }
            })
        }));
        if let Some(x) = r.wrong.take() {
            return Err(x);
        }
        let what = |x: String| Err(format!("{:?}: {}", self, x.chars().take(300).collect::<String>()));
        let got = match got {
            Ok(x) => x,
            Err(x) => {
                let text = rt::panic_text(x);
                if !whole && self.how == Panic && text.contains("history") {
                    return Ok(());
                }
                return what(format!("panicked: {}", text));
            }
        };
        if !whole && self.how == Panic {
            return what(format!("the panic of the reader is lost: {:?}", got.map(|x| x.len())));
        }
        // an enum notes what each of its variants found
        let nested = matches!(self.kind, KEitherA | KEitherB | KEitherC | KAssert | KNone);
        match (&got, whole) {
            (Ok(v), true) if self.kind != KAssert && self.kind != KNone => {
                if *v != want {
                    let i = v.iter().zip(&want).position(|(a, b)| a != b);
                    return what(format!("{} numbers instead of {}, the first which differs is {:?}", v.len(), want.len(), i));
                }
                if r.pos != end {
                    return what(format!("ends at {} instead of {}", r.pos, end));
                }
                Ok(())
            }
            (Err(x), true) if self.kind == KAssert => {
                let t = format!("{:?}", x);
                if t.contains(&format!("y is {}", 0x5A5A5A5Au32)) { Ok(()) } else { what(t) }
            }
            (Err(binread::Error::EnumErrors { variant_errors, pos: 0 }), true) if self.kind == KNone => {
                let ok = variant_errors.iter().map(|x| x.0).eq(["A", "B", "C"].iter().copied())
                    && variant_errors.iter().all(|x| match &x.1 {
                        binread::Error::BadMagic { pos: 0, found } => found.downcast_ref::<u8>() == Some(&0x44),
                        _ => false,
                    });
                if ok { Ok(()) } else { what(format!("{:?}", variant_errors)) }
            }
            (Err(x), false) => {
                let kind = if self.how == Cut { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::Other };
                let ok = |x: &binread::Error| match x {
                    binread::Error::Io(x) => x.kind() == kind,
                    _ => false,
                };
                let fine = match x {
                    binread::Error::EnumErrors { variant_errors, .. } if nested => variant_errors.len() == 3 && variant_errors.iter().any(|x| ok(&x.1)),
                    x => !nested && ok(x),
                };
                if !fine {
                    return what(format!("{:?}", x));
                }
                if r.pos != 0 && !matches!(self.kind, KNul | KWide | KArray | KTuple) {
                    return what(format!("the failed read leaves the reader at {}", r.pos));
                }
                Ok(())
            }
            (Ok(v), _) => what(format!("gives a value of {} numbers", v.len())),
            (Err(x), _) => what(format!("{:?}", x)),
        }
    }
}

fn op(r: &mut Rng, big_ones: bool) -> Op {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.pick(&[127, 128, 255, 256, 257]),
        3 => r.pick(&[4095, 4096, 4097, 8192]),
        4 | 5 if big_ones => r.pick(&[65535, 65536, 65537, 70_000, 131_073]),
        6 if big_ones => 10_000 + r.below(150_000) as u32,
        7 => 100 + r.below(3000) as u32,
        _ => r.below(40) as u32,
    };
    let kind = if r.below(4) == 0 { r.pick(&[KBytes, KBytes, KText, KNul]) } else { r.pick(&KINDS) };
    // the costly ones
    let n = if kind == KBytes || kind == KText { n } else { n.min(70_000) };
    Op {
        kind,
        n,
        seed: r.next() >> 1,
        big: r.below(2) == 0,
        how: r.pick(&[Whole, Whole, Whole, Cut, Cut, Fail, Panic]),
        part: r.pick(&[0, 1, 300, 500, 700, 999]),
        chunk: r.pick(&[1 << 30, 1 << 30, 1 << 30, 1000, 4096, if n < 5000 { 1 } else { 7777 }]),
        nest: if r.below(5) == 0 { Some((r.below(10_000) as u32, r.below(4) as u32)) } else { None },
    }
}

fn monitor(m: &mut Mon) {
    let show = |o: &Op| format!("{:?} {:?} {} {}", o.kind, o.how, 32 - o.n.leading_zeros(), o.nest.is_some());
    // each kind behind each, small behind large, at least once
    let mut last = String::new();
    let mut list = vec![];
    for (i, a) in KINDS.iter().enumerate() {
        for (j, b) in KINDS.iter().enumerate() {
            for how in [Cut, Fail, Panic, Whole] {
                if m.take() {
                    let mut x = op(&mut m.rng, false);
                    let mut y = op(&mut m.rng, false);
                    x.kind = *a;
                    x.how = how;
                    if (i + j) % 5 == 0 && m.div == 1 {
                        x.n = 66_000;
                        x.part = 999;
                    }
                    y.kind = *b;
                    y.how = Whole;
                    list.push(x);
                    list.push(y);
                }
            }
        }
    }
    for _ in 0..m.times(1500) {
        let x = op(&mut m.rng, m.div == 1);
        list.push(x);
    }
    for o in &list {
        let got = o.go();
        m.state(format!("{} behind {}", show(o), last));
        last = show(o);
        m.check(got.is_ok(), || format!("after {}: {}", last, got.unwrap_err()));
    }
    m.sample(format!("{:?}", list[0]));
    m.sample(format!("{:?}", list[list.len() - 1]));
    m.count("reads", list.len() as u64);
    m.count("reads with another read in their midst", list.iter().filter(|x| x.nest.is_some()).count() as u64);
    if cfg!(miri) {
        return;
    }
    // beside each other
    let rounds = m.times(3);
    for _ in 0..rounds {
        let per = 250;
        let lists: Vec<Vec<Op>> = (0..8).map(|_| (0..per).map(|_| op(&mut m.rng, m.div == 1)).collect()).collect();
        let start = std::sync::Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = lists
            .into_iter()
            .map(|l| {
                let start = start.clone();
                std::thread::spawn(move || {
                    start.wait();
                    l.iter().filter_map(|o| o.go().err()).take(3).collect::<Vec<String>>()
                })
            })
            .collect();
        for h in hs {
            let bad = h.join().unwrap_or_else(|_| vec!["the thread panicked".into()]);
            m.count("reads beside others", per);
            m.count("evaluations", per);
            for x in bad {
                m.bad(format!("beside 7 other threads: {}", x));
            }
        }
    }
}
