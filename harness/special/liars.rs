// Readers which are written in safe code and break the rules: claims of more than was asked for,
// claims without writing, panics, looks at the buffer, positions from nowhere. Whatever the
// library makes of them, memory stays in order.
use binread::io::{self, Cursor, Read, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{BinRead, BinReaderExt, BinResult, Endian, FilePtr16, FilePtr8, NullString, NullWideString, PosValue, ReadOptions};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::num::{NonZeroU16, NonZeroU8};

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// more than was asked for
    More,
    Max,
    /// all of it, without having written any
    Nothing,
    /// something, then a failure
    Half,
    Fail,
    Panic,
    /// nonsense as the position after a seek
    Far,
    SeekFail,
    SeekPanic,
    /// the exact methods are replaced
    ExactNothing,
    ExactPanic,
    Single,
}
use How::*;
const ALL: [How; 12] = [More, Max, Nothing, Half, Fail, Panic, Far, SeekFail, SeekPanic, ExactNothing, ExactPanic, Single];

struct Liar {
    c: Cursor<Vec<u8>>,
    at: u64,
    ops: u64,
    how: How,
    held: Vec<u8>,
}
impl Liar {
    fn now(&mut self) -> bool {
        self.ops += 1;
        if self.ops > if cfg!(miri) { 300 } else { 20_000 } {
            panic!("too many operations");
        }
        self.ops > self.at
    }
}
fn failed() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "liar")
}
impl Read for Liar {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        rt::touch(buf);
        if self.now() {
            match self.how {
                More => return Ok(buf.len() + 1),
                Max => return Ok(usize::MAX),
                Nothing => return Ok(buf.len()),
                Fail => return Err(failed()),
                Panic => panic!("read"),
                Half => {
                    let n = (buf.len() + 1) / 2;
                    let n = self.c.read(&mut buf[..n])?;
                    return if n > 0 && self.ops % 2 == 0 { Ok(n) } else { Err(failed()) };
                }
                Single if !buf.is_empty() => return self.c.read(&mut buf[..1]),
                _ => {}
            }
        }
        self.c.read(buf)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        rt::touch(buf);
        if self.ops >= self.at {
            match self.how {
                ExactNothing => {
                    self.now();
                    return Ok(());
                }
                ExactPanic => {
                    if let Some(b) = buf.first_mut() {
                        *b = 7;
                    }
                    panic!("read_exact")
                }
                _ => {}
            }
        }
        let mut rest = buf;
        while !rest.is_empty() {
            match self.read(rest) {
                Ok(0) => return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end")),
                Ok(n) => rest = &mut rest[n..],
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
}
impl Seek for Liar {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if self.now() {
            match self.how {
                Far => return Ok([u64::MAX, 1 << 63, 0, 3][(self.ops % 4) as usize]),
                SeekFail => return Err(failed()),
                SeekPanic => panic!("seek"),
                _ => {}
            }
        }
        self.c.seek(p)
    }
}

#[derive(BinRead, Debug)]
#[br(magic = b"AB")]
#[allow(dead_code)]
struct Mixed {
    n: u8,
    #[br(count = n)]
    a: Vec<u8>,
    s: NullString,
    #[br(align_before = 4, pad_after = 1)]
    w: NullWideString,
    #[br(restore_position)]
    r: [u16; 3],
    p: FilePtr8<u16>,
    #[br(try)]
    t: Option<[u32; 2]>,
}
#[derive(BinRead, Debug)]
#[allow(dead_code)]
enum Either {
    #[br(magic = 7u16)]
    A(NullString, [u8; 4]),
    B {
        a: PosValue<NullString>,
        #[br(count = 3)]
        b: Vec<(u8, u16)>,
    },
    #[br(assert(false))]
    C(Vec<u8>),
    D([u16; 0], u8),
}
#[derive(BinRead, Debug)]
#[allow(dead_code)]
struct Lists {
    #[br(count = 3, parse_with = Punctuated::separated)]
    a: Punctuated<u16, u8>,
    #[br(parse_with = binread::helpers::until(|x: &NullString| x.is_empty()))]
    b: Vec<NullString>,
    #[br(parse_with = binread::helpers::count(5))]
    c: VecDeque<u8>,
    #[br(parse_with = binread::until_eof)]
    d: Vec<[u8; 2]>,
}

fn go<T: BinRead<Args = ()> + Debug>(m: &mut Mon, name: &str, count: Option<usize>) {
    for how in ALL {
        for at in 0..14u64 {
            if !m.take() {
                continue;
            }
            let len = m.rng.below(40) as usize;
            let mut data = m.rng.bytes(len);
            for b in data.iter_mut() {
                match m.rng.below(5) {
                    0 => *b = 0,
                    1 => *b = 65,
                    2 => *b = m.rng.below(9) as u8,
                    _ => {}
                }
            }
            if m.rng.below(3) > 0 && data.len() > 3 {
                data[..2].copy_from_slice(b"AB");
            }
            let endian = m.rng.pick(&[Endian::Big, Endian::Little]);
            let start = m.rng.below(3);
            let mut kinds = [0u64; 3];
            let mut text = String::new();
            let left = rt::leaks(|| {
                let mut c = Cursor::new(data.clone());
                c.set_position(start);
                let mut r = Liar { c, at, ops: 0, how, held: vec![] };
                let mut o = ReadOptions::default();
                o.endian = endian;
                o.count = count;
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut v = T::read_options(&mut r, &o, ())?;
                    v.after_parse(&mut r, &o, ())?;
                    Ok::<_, binread::Error>(v)
                }));
                match x {
                    Ok(Ok(v)) => {
                        kinds[0] += 1;
                        text = format!("{:?}", v);
                    }
                    Ok(Err(e)) => {
                        kinds[1] += 1;
                        text = format!("{} {:?}", e, e);
                    }
                    Err(_) => {
                        kinds[2] += 1;
                        text = String::new();
                    }
                }
                std::hint::black_box(std::mem::take(&mut text).len());
            });
            m.check(left == 0, || format!("{} with {:?} from operation {} on {:02x?}: {} bytes stay allocated", name, how, at, data, left));
            m.count(["values", "errors", "panics"][kinds.iter().position(|x| *x > 0).unwrap()], 1);
            m.state(format!("{} {:?} {} {:?}", name, how, at, kinds.map(|x| x > 0)));
        }
    }
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.scale {
        go::<u8>(m, "u8", None);
        go::<u64>(m, "u64", None);
        go::<i128>(m, "i128", None);
        go::<f64>(m, "f64", None);
        go::<char>(m, "char", None);
        go::<[u8; 0]>(m, "[u8; 0]", None);
        go::<[u8; 5]>(m, "[u8; 5]", None);
        go::<[u8; 32]>(m, "[u8; 32]", None);
        go::<[u16; 7]>(m, "[u16; 7]", None);
        go::<[[u32; 2]; 3]>(m, "[[u32; 2]; 3]", None);
        go::<[NullString; 3]>(m, "[NullString; 3]", None);
        go::<[Box<u16>; 4]>(m, "[Box<u16>; 4]", None);
        go::<[Option<NullString>; 3]>(m, "[Option<NullString>; 3]", None);
        go::<Vec<u8>>(m, "Vec<u8> 0", Some(0));
        go::<Vec<u8>>(m, "Vec<u8> 9", Some(9));
        go::<Vec<u8>>(m, "Vec<u8> 4096", Some(4096));
        go::<Vec<u8>>(m, "Vec<u8> many", Some(usize::MAX / 2));
        go::<Vec<i8>>(m, "Vec<i8>", Some(5));
        go::<Vec<u16>>(m, "Vec<u16>", Some(5));
        go::<Vec<u64>>(m, "Vec<u64> many", Some(usize::MAX / 4));
        go::<Vec<[u8; 3]>>(m, "Vec<[u8; 3]>", Some(3));
        go::<Vec<NullString>>(m, "Vec<NullString>", Some(3));
        go::<Vec<NullWideString>>(m, "Vec<NullWideString>", Some(3));
        go::<Vec<Box<(u8, NullString)>>>(m, "Vec<Box<(u8, NullString)>>", Some(3));
        go::<Vec<NonZeroU8>>(m, "Vec<NonZeroU8>", None);
        go::<Vec<NonZeroU16>>(m, "Vec<NonZeroU16>", None);
        go::<NullString>(m, "NullString", None);
        go::<NullWideString>(m, "NullWideString", None);
        go::<(u8, NullString, u16, Box<u32>)>(m, "tuple", None);
        go::<PosValue<NullString>>(m, "PosValue<NullString>", None);
        go::<FilePtr8<NullString>>(m, "FilePtr8<NullString>", None);
        go::<FilePtr16<Vec<u8>>>(m, "FilePtr16<Vec<u8>>", Some(3));
        go::<FilePtr8<FilePtr8<[u16; 2]>>>(m, "FilePtr8<FilePtr8<[u16; 2]>>", None);
        go::<Mixed>(m, "Mixed", None);
        go::<Either>(m, "Either", None);
        go::<Lists>(m, "Lists", None);
        go::<Vec<Mixed>>(m, "Vec<Mixed>", Some(2));
        go::<Vec<Either>>(m, "Vec<Either>", Some(4));
    }
}
