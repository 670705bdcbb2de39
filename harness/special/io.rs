// The reader interface of the library (in this configuration: its own) in lock step
// with the one of the standard library.
use binread::io as L;
use std::io as S;
use L::{Read as _, Seek as _};

fn kind_l(e: &L::Error) -> String {
    format!("{:?}", e.kind())
}
fn kind_s(e: &S::Error) -> String {
    format!("{:?}", e.kind())
}
fn same<T: std::fmt::Debug>(a: &Result<T, L::Error>, b: &Result<T, S::Error>) -> (String, String) {
    (
        match a {
            Ok(x) => format!("Ok({:?})", x),
            Err(e) => kind_l(e),
        },
        match b {
            Ok(x) => format!("Ok({:?})", x),
            Err(e) => kind_s(e),
        },
    )
}

/// The bytes, or their sum when they are many.
fn brief(b: &[u8]) -> String {
    if b.len() < 80 {
        return format!("{:?}", b);
    }
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x100000001b3));
    format!("{} bytes, sum {:x}", b.len(), h)
}
/// How much to read from `len` bytes.
fn span(r: &mut Rng, len: usize) -> usize {
    if len < 200 {
        return r.pick(&[0usize, 1, 2, 3, 7, 64]);
    }
    match r.below(8) {
        0 => r.pick(&[0usize, 1, 2, 3, 7, 64]),
        1 => r.pick(&[127usize, 128, 255, 256, 257, 511, 512, 4096]),
        2 => r.pick(&[32767usize, 32768, 65535, 65536, 65537, 131072]),
        3 => len,
        4 => len + 1,
        _ => r.below(len as u64) as usize,
    }
}

fn amount(r: &mut Rng, len: u64) -> u64 {
    match r.below(12) {
        0 => u64::MAX - r.below(3),
        1 => i64::MAX as u64 - 1 + r.below(4),
        2 => len,
        3 => len + 1 + r.below(4),
        4 => 1 << 32 | r.below(5),
        5 => r.next(),
        _ => r.below(len + 2),
    }
}
fn delta(r: &mut Rng, len: u64) -> i64 {
    match r.below(12) {
        0 => i64::MIN + r.below(3) as i64,
        1 => i64::MAX - r.below(3) as i64,
        2 => -(len as i64),
        3 => -(len as i64) - 1,
        4 => r.next() as i64,
        5 => 0,
        _ => r.below(2 * len + 3) as i64 - len as i64,
    }
}

fn cursor<T, U>(m: &mut Mon, name: &str, own: T, std_: U, data: &[u8])
where
    T: AsRef<[u8]> + Clone,
    U: AsRef<[u8]> + Clone,
    S::Cursor<U>: S::Read + S::Seek,
{
    use S::{Read as _, Seek as _};
    let len = data.len() as u64;
    let mut a = L::Cursor::new(own);
    let mut b = S::Cursor::new(std_);
    let mut hist = String::new();
    for step in 0..30 {
        let op = m.rng.below(13);
        let what;
        let (x, y) = match op {
            0 | 1 => {
                let n = span(&mut m.rng, data.len());
                what = format!("read({})", n);
                let (mut p, mut q) = (vec![0xAAu8; n], vec![0xAAu8; n]);
                let r = L::Read::read(&mut a, &mut p).map(|k| (k, brief(&p)));
                let s = S::Read::read(&mut b, &mut q).map(|k| (k, brief(&q)));
                same(&r, &s)
            }
            2 | 3 => {
                let n = span(&mut m.rng, data.len());
                what = format!("read_exact({})", n);
                let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
                let r = L::Read::read_exact(&mut a, &mut p).map(|_| brief(&p));
                let s = S::Read::read_exact(&mut b, &mut q).map(|_| brief(&q));
                let res = same(&r, &s);
                if r.is_err() && s.is_err() {
                    // where a failing read_exact stops is not specified
                    a.set_position(b.position());
                }
                res
            }
            4 => {
                let n = amount(&mut m.rng, len);
                what = format!("seek(Start({}))", n);
                same(&L::Seek::seek(&mut a, L::SeekFrom::Start(n)), &S::Seek::seek(&mut b, S::SeekFrom::Start(n)))
            }
            5 | 6 => {
                let n = delta(&mut m.rng, len);
                what = format!("seek(Current({}))", n);
                same(&L::Seek::seek(&mut a, L::SeekFrom::Current(n)), &S::Seek::seek(&mut b, S::SeekFrom::Current(n)))
            }
            7 | 8 => {
                let n = delta(&mut m.rng, len);
                what = format!("seek(End({}))", n);
                same(&L::Seek::seek(&mut a, L::SeekFrom::End(n)), &S::Seek::seek(&mut b, S::SeekFrom::End(n)))
            }
            9 => {
                what = "stream_position".into();
                same(&L::Seek::stream_position(&mut a), &S::Seek::stream_position(&mut b))
            }
            10 => {
                let n = amount(&mut m.rng, len);
                what = format!("set_position({})", n);
                a.set_position(n);
                b.set_position(n);
                (String::new(), String::new())
            }
            11 => {
                let n = 1 + m.rng.below(5) as usize;
                what = format!("bytes x{}", n);
                let r: Vec<String> = L::Read::bytes(L::Read::by_ref(&mut a)).take(n).map(|x| x.map_or_else(|e| kind_l(&e), |v| v.to_string())).collect();
                let s: Vec<String> = S::Read::bytes(S::Read::by_ref(&mut b)).take(n).map(|x| x.map_or_else(|e| kind_s(&e), |v| v.to_string())).collect();
                (r.join(","), s.join(","))
            }
            _ => {
                what = "clone".into();
                let (a2, b2) = (a.clone(), b.clone());
                (format!("{}", a2.position()), format!("{}", b2.position()))
            }
        };
        hist.push_str(&what);
        hist.push(' ');
        m.count("operations", 1);
        m.eq(x.clone(), y, || format!("{}: {} on {} bytes", name, hist, len));
        m.eq(a.position(), b.position(), || format!("{}: position after {} on {} bytes", name, hist, len));
        m.state(format!("cursor {} {} {}", op, if a.position() > len { 2 } else if a.position() == len { 1 } else { 0 }, &x[..x.len().min(4)]));
    }
    m.eq(a.get_ref().as_ref().to_vec(), data.to_vec(), || format!("{}: get_ref", name));
    m.eq(a.get_mut().as_ref().to_vec(), data.to_vec(), || format!("{}: get_mut", name));
    m.eq(a.into_inner().as_ref().to_vec(), data.to_vec(), || format!("{}: into_inner", name));
    m.sample(format!("{}: {}", name, &hist[..hist.len().min(200)]));
}

/// A reader which follows a script: how many bytes the next call gives, or how it fails.
#[derive(Clone)]
struct Script {
    steps: Vec<(u8, usize)>,
    at: usize,
    next: u8,
    calls: Vec<usize>,
}
impl Script {
    fn go(&mut self, buf: &mut [u8]) -> Result<usize, u8> {
        self.calls.push(buf.len());
        let (what, n) = self.steps.get(self.at).copied().unwrap_or((0, 0));
        self.at += 1;
        if what != 0 {
            return Err(what);
        }
        let n = n.min(buf.len());
        for b in &mut buf[..n] {
            self.next = self.next.wrapping_add(37);
            *b = self.next;
        }
        Ok(n)
    }
}
struct OwnR(Script);
impl L::Read for OwnR {
    fn read(&mut self, buf: &mut [u8]) -> L::Result<usize> {
        self.0.go(buf).map_err(|k| L::Error::new(match k { 1 => L::ErrorKind::Interrupted, 2 => L::ErrorKind::Other, 3 => L::ErrorKind::UnexpectedEof, 4 => L::ErrorKind::WouldBlock, _ => L::ErrorKind::TimedOut }, "x"))
    }
}
struct StdR(Script);
impl S::Read for StdR {
    fn read(&mut self, buf: &mut [u8]) -> S::Result<usize> {
        self.0.go(buf).map_err(|k| S::Error::new(match k { 1 => S::ErrorKind::Interrupted, 2 => S::ErrorKind::Other, 3 => S::ErrorKind::UnexpectedEof, 4 => S::ErrorKind::WouldBlock, _ => S::ErrorKind::TimedOut }, "x"))
    }
}

fn scripts(m: &mut Mon) {
    script(m, 9, 20)
}
fn long_scripts(m: &mut Mon) {
    let step = if cfg!(miri) { 300 } else { m.rng.pick(&[200u64, 300, 5000, 70_000]) };
    script(m, step, 3 * step)
}
fn script(m: &mut Mon, step: u64, most: u64) {
    let n = m.rng.below(14) as usize;
    let steps: Vec<(u8, usize)> = (0..n)
        .map(|_| match m.rng.below(10) {
            0 | 1 | 2 => (1, 0),
            3 => (2 + m.rng.below(4) as u8, 0),
            4 => (0, 0),
            _ => (0, 1 + m.rng.below(step) as usize),
        })
        .collect();
    let s = Script { steps: steps.clone(), at: 0, next: 0, calls: vec![] };
    let mut a = OwnR(s.clone());
    let mut b = StdR(s);
    let mut hist = format!("{:?}: ", steps);
    for _ in 0..6 {
        let k = m.rng.below(most) as usize;
        let through = m.rng.below(2) == 0;
        if m.rng.below(3) > 0 {
            let (mut p, mut q) = (vec![0u8; k], vec![0u8; k]);
            let r = if through { L::Read::read_exact(&mut &mut a, &mut p) } else { L::Read::read_exact(&mut a, &mut p) };
            let s = S::Read::read_exact(&mut b, &mut q);
            write!(hist, "read_exact({}) ", k).unwrap();
            let (x, y) = same(&r, &s);
            m.eq(x, y, || hist.clone());
            if r.is_ok() {
                m.eq(brief(&p), brief(&q), || format!("{} content", hist));
            }
        } else {
            let k = k.min(5);
            let r: Vec<String> = if through { L::Read::bytes(&mut a).take(k).map(|x| x.map_or_else(|e| kind_l(&e), |v| v.to_string())).collect() } else { L::Read::by_ref(&mut a).bytes().take(k).map(|x| x.map_or_else(|e| kind_l(&e), |v| v.to_string())).collect() };
            let s: Vec<String> = S::Read::bytes(&mut b).take(k).map(|x| x.map_or_else(|e| kind_s(&e), |v| v.to_string())).collect();
            write!(hist, "bytes({}) ", k).unwrap();
            m.eq(r, s, || hist.clone());
        }
        m.eq(a.0.next, b.0.next, || format!("{} data taken", hist));
        m.eq(a.0.at, b.0.at, || format!("{} calls made", hist));
    }
    m.state(format!("script {:?}", steps.iter().take(3).collect::<Vec<_>>()));
}

fn kinds(m: &mut Mon) {
    use L::ErrorKind::*;
    for (k, n) in [(NotFound, "NotFound"), (PermissionDenied, "PermissionDenied"), (ConnectionRefused, "ConnectionRefused"), (ConnectionReset, "ConnectionReset"),
        (ConnectionAborted, "ConnectionAborted"), (NotConnected, "NotConnected"), (AddrInUse, "AddrInUse"), (AddrNotAvailable, "AddrNotAvailable"),
        (BrokenPipe, "BrokenPipe"), (AlreadyExists, "AlreadyExists"), (WouldBlock, "WouldBlock"), (InvalidInput, "InvalidInput"), (InvalidData, "InvalidData"),
        (TimedOut, "TimedOut"), (WriteZero, "WriteZero"), (Interrupted, "Interrupted"), (Other, "Other"), (UnexpectedEof, "UnexpectedEof")] {
        let e = L::Error::new(k, "text");
        m.eq(format!("{:?}", e.kind()), n.to_string(), || "kind".into());
        m.check(e.kind() == k && format!("{:?}", e).contains(n), || format!("Debug of an error of kind {}", n));
        let b: binread::Error = e.into();
        m.check(matches!(b, binread::Error::Io(ref x) if x.kind() == k), || format!("conversion of {}", n));
    }
}

fn monitor(m: &mut Mon) {
    for i in 0..m.times(3000) {
        let n = m.rng.pick(&[0usize, 1, 2, 5, 16, 40]);
        let data = m.rng.bytes(n);
        cursor(m, "Vec", data.clone(), data.clone(), &data);
        if i % 3 == 0 {
            cursor(m, "slice", &data[..], &data[..], &data);
            cursor(m, "Box", data.clone().into_boxed_slice(), data.clone().into_boxed_slice(), &data);
            let mut x = [0u8; 5];
            for (p, q) in x.iter_mut().zip(&data) {
                *p = *q;
            }
            cursor(m, "array", x, x, &x.clone());
        }
        for _ in 0..4 {
            scripts(m);
        }
    }
    for _ in 0..m.times(150) {
        let n = if cfg!(miri) { m.rng.pick(&[200usize, 256, 257]) } else { m.rng.pick(&[200usize, 255, 256, 257, 258, 700, 4096, 5000, 65535, 65536, 65537, 70_000, 131_073]) };
        let data = m.rng.bytes(n);
        cursor(m, "Vec", data.clone(), data.clone(), &data);
        cursor(m, "slice", &data[..], &data[..], &data);
        long_scripts(m);
    }
    let d: L::Cursor<Vec<u8>> = Default::default();
    m.eq((d.position(), d.get_ref().len()), (0, 0), || "Default".into());
    kinds(m);
}
