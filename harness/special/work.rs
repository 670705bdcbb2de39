// The work of reads which are as long as their data: memory asked for in total, operations of the
// reader, bytes handed out and time grow with the input, not with its square.
use binread::io::{self, Cursor, Read, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{prelude::*, Endian, FilePtr16, NullString, NullWideString, PosValue};
use std::collections::VecDeque;
use std::time::Instant;

struct Meterd<'a> {
    c: Cursor<&'a [u8]>,
    ops: u64,
    bytes: u64,
}
impl<'a> Read for Meterd<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.ops += 1;
        let n = self.c.read(b)?;
        self.bytes += n as u64;
        Ok(n)
    }
}
impl<'a> Seek for Meterd<'a> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.ops += 1;
        self.c.seek(p)
    }
}

#[derive(BinRead, Clone, Debug)]
struct Item {
    a: u8,
    #[br(if(a > 300u16 as u8))]
    b: u8,
    #[br(assert(c != 250 || a != 251))]
    c: u8,
}
#[derive(BinRead, Clone, Debug)]
enum Choice {
    #[br(magic = 0x4141u16)]
    A(u8),
    B(u16, #[br(map = |x: u8| x)] u8),
}
#[derive(BinRead, Clone, Debug, PartialEq)]
#[br(repr = u8)]
enum Unit {
    A = 0x41,
    Z = 0,
    Y = 1,
}
#[derive(BinRead, Clone, Debug)]
struct Trying {
    #[br(try)]
    a: Option<Never>,
    b: u8,
}
#[derive(BinRead, Clone, Debug)]
#[br(magic = 0x99u8)]
struct Never;

macro_rules! kinds {
    ($n:ident; $($name:ident { $($t:tt)* })*) => {$(
        #[derive(BinRead)]
        #[br(import($n: u32))]
        #[allow(unused)]
        struct $name { $($t)* }
    )*};
}
kinds! {
    n;
    VBytes { #[br(count = n)] x: Vec<u8> }
    VWords { #[br(count = n / 4)] x: Vec<u32> }
    VItems { #[br(count = n / 3)] x: Vec<Item> }
    VChoices { #[br(count = n / 3)] x: Vec<Choice> }
    VUnits { #[br(count = n)] x: Vec<Unit> }
    VTuples { #[br(count = n / 3)] x: Vec<(u8, [u8; 2])> }
    VTrying { #[br(count = n)] x: Vec<Trying> }
    VOptions { #[br(count = n)] x: Vec<Option<Box<u8>>> }
    VPos { #[br(count = n)] x: Vec<PosValue<u8>> }
    VPtr { #[br(count = n / 2)] x: Vec<FilePtr16<u8>> }
    VStrings { #[br(count = n / 4)] x: Vec<NullString> }
    Bulk { #[br(count = n, parse_with = binread::helpers::read_bytes)] x: Vec<u8> }
    HCount { #[br(parse_with = binread::count(n as usize))] x: Vec<u8> }
    HDeque { #[br(parse_with = binread::count(n as usize))] x: VecDeque<u8> }
    HUntil { #[br(parse_with = binread::until(|x: &u8| *x == 0))] x: Vec<u8> }
    HUntil16 { #[br(parse_with = binread::until(|x: &u16| *x == 0))] x: Vec<u16> }
    HExcl { #[br(parse_with = binread::until_exclusive(|x: &u8| *x == 0))] x: Vec<u8> }
    HExclDeque { #[br(parse_with = binread::until_exclusive(|x: &u16| *x == 0))] x: VecDeque<u16> }
    HEof { #[br(parse_with = binread::until_eof)] x: Vec<u8> }
    HEofItems { #[br(parse_with = binread::until_eof)] x: Vec<Item> }
    Sep { #[br(count = n / 2, parse_with = Punctuated::separated)] x: Punctuated<u8, u8> }
    SepTrail { #[br(count = n / 3, parse_with = Punctuated::separated_trailing)] x: Punctuated<u16, u8> }
    SNul { x: NullString }
    SWide { x: NullWideString }
    SText { #[br(map = |x: NullString| x.into_string())] x: String }
    SWideText { #[br(map = |x: NullWideString| x.into_string())] x: String }
    Fields { a: u8, #[br(count = n / 2)] x: Vec<u8>, #[br(count = 3, pad_size_to = 4, assert(y.len() == 3))] y: Vec<u8>, z: u8 }
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    total: usize,
    peak: usize,
    ops: u64,
    bytes: u64,
    nanos: u128,
}

fn go<T: BinRead<Args = (u32,)>>(data: &[u8], n: u32, e: Endian) -> (Cost, bool) {
    let mut r = Meterd { c: Cursor::new(data), ops: 0, bytes: 0 };
    let t0 = rt::alloc_total();
    rt::alloc_reset();
    let t = Instant::now();
    let x = r.read_type_args::<T>(e, (n,));
    let c = Cost { total: rt::alloc_total() - t0, peak: rt::alloc_peak(), ops: r.ops, bytes: r.bytes, nanos: t.elapsed().as_nanos() };
    (c, x.is_ok())
}

fn one<T: BinRead<Args = (u32,)>>(m: &mut Mon, name: &str, most: u32) {
    let mut small = None;
    for n in [300, 3000, 30_000, most] {
        // text for the whole of it, which ends where it has to
        for cut in [false, true] {
            let e = m.rng.pick(&[Endian::Big, Endian::Little]);
            let mut data = vec![0x41u8; n as usize];
            match name {
                "VPtr" => data.iter_mut().for_each(|x| *x = 0),
                "VStrings" => data.iter_mut().skip(3).step_by(4).for_each(|x| *x = 0),
                "VChoices" => data.iter_mut().skip(4).step_by(6).for_each(|x| *x = 7),
                _ => (),
            }
            let n2 = n - n % 2;
            data.truncate(n2 as usize);
            if cut {
                data.truncate(n2 as usize - 2);
            } else if !name.starts_with("HEof") {
                data.extend([0, 0, 0, 0]);
            }
            let n = n2;
            let bytes = data.len() as u64;
            let (mut c, ok) = match m.panics(|| go::<T>(&data, n, e)) {
                Ok(x) => x,
                Err(x) => {
                    m.bad(format!("{} of {} bytes panicked: {}", name, n, x));
                    continue;
                }
            };
            m.count("evaluations", 1);
            m.state(format!("{} {} {} {} {}", name, n, cut, 64 - c.ops.leading_zeros(), 64 - (c.total as u64).leading_zeros()));
            let what = format!("{} on {} bytes{}: {:?}", name, bytes, if cut { ", truncated" } else { "" }, c);
            let may = name.starts_with("HEof") || name == "Sep" || name == "SepTrail" || name == "Fields" || name == "VItems" || name == "VChoices" || name == "VTuples" || name == "VWords";
            m.check(ok != cut || (may && ok), || format!("{}, read: {}", what, ok));
            m.check(c.ops <= 64 + 40 * bytes, || format!("operations of the reader: {}", what));
            m.check(c.bytes <= 64 + 8 * bytes, || format!("bytes handed out: {}", what));
            m.check(c.total as u64 <= (1 << 18) + 400 * bytes, || format!("memory asked for and moved: {}", what));
            m.check(c.peak as u64 <= (1 << 18) + 200 * bytes, || format!("memory at once: {}", what));
            m.count("bytes read", c.bytes);
            m.count("operations", c.ops);
            if cut {
                continue;
            }
            if n == 30_000 {
                for _ in 0..2 {
                    c.nanos = c.nanos.max(go::<T>(&data, n, e).0.nanos);
                }
                small = Some(c);
            }
            if n > 30_000 {
                // a square would take a hundredfold; the best of several tries, for machines under load
                let s = small.unwrap().nanos;
                let times = u128::from(n / 30_000);
                let bound = s * times * times / 3 + 700_000_000;
                let mut best = c.nanos;
                for _ in 0..4 {
                    if best > bound {
                        best = best.min(go::<T>(&data, n, e).0.nanos);
                    }
                }
                m.check(best <= bound, || format!("time: {} ns, for a tenth of it {} ns: {}", best, s, what));
                m.sample(what);
            }
        }
    }
}

fn monitor(m: &mut Mon) {
    let most = if m.scale > 1 { 1_500_000 } else { 300_000 };
    macro_rules! all {
        ($($t:ident)*) => {$( one::<$t>(m, stringify!($t), most); )*};
    }
    all!(VBytes VWords VItems VChoices VUnits VTuples VTrying VOptions VPos VPtr VStrings Bulk HCount HDeque HUntil HUntil16 HExcl HExclDeque
        HEof HEofItems Sep SepTrail SNul SWide SText SWideText Fields);
    // what is made of a string
    for n in [3000usize, 30_000, most as usize] {
        for fill in [0x41u8, 0xC3, 0xFF] {
            let s = NullString(vec![fill; n]);
            let w = NullWideString(vec![if fill == 0x41 { 0x41 } else { 0xD800 + u16::from(fill) }; n]);
            let a = rt::alloc_total();
            let x = s.to_string().len() + w.to_string().len();
            let b = rt::alloc_total();
            let y = format!("{:?}{:?}", s, w).len();
            let c = rt::alloc_total();
            let z = s.into_string().len() + w.into_string().len();
            let d = rt::alloc_total();
            m.check(x == z && y > x, || "lengths of the texts".into());
            for (k, t) in [("to_string", b - a), ("Debug", c - b), ("into_string", d - c)] {
                m.check(t <= 4096 + 100 * n, || format!("{} of {} bytes of {:x} asked for and moved {} bytes", k, n, fill, t));
            }
        }
    }
}
