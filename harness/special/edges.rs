// No byte is asked for which does not belong to what is read: one field at a time, at
// every size class, alone in the stream and with other bytes around.
use binread::io::{self, Cursor, Read, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{prelude::*, Endian, FilePtr, NullString, NullWideString, PosValue};

/// Notes what is asked for outside of `[lo, hi)`, and fails there if `hard`.
struct Edge {
    inner: Cursor<Vec<u8>>,
    own: Vec<(u64, u64)>,
    hard: bool,
    out: Vec<(u64, u64)>,
    asked: u64,
}
impl Read for Edge {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let (at, n) = (self.inner.position(), b.len() as u64);
        self.asked += n;
        if n > 0 && !self.own.iter().any(|(lo, hi)| *lo <= at && at + n <= *hi) {
            self.out.push((at, n));
            if self.hard {
                return Err(io::Error::new(io::ErrorKind::Other, "out of bounds"));
            }
        }
        self.inner.read(b)
    }
}
impl Seek for Edge {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

/// One type over its own bytes, which may lie in several places.
fn go<T: BinRead>(m: &mut Mon, what: &str, args: T::Args, e: Endian, lead: usize, own: &[u8], parts: &[(usize, usize)], end: usize, show: fn(&T) -> Vec<u8>) {
    let mut first: Option<Result<Vec<u8>, String>> = None;
    m.state(format!("{} {} {}", what, own.len(), lead));
    for (tail, hard) in [(0usize, false), (0, true), (1, false), (9, true), (if cfg!(miri) { 900 } else { 70_000 }, true)] {
        let fill = m.rng.next();
        let mut d = vec![fill as u8; lead];
        d.extend_from_slice(own);
        d.extend((0..tail).map(|i| (fill >> (i % 8 * 8)) as u8));
        // bytes between the parts are nobody's
        for i in 0..own.len() {
            if !parts.iter().any(|(lo, hi)| (*lo..*hi).contains(&i)) {
                d[lead + i] = m.rng.next() as u8;
            }
        }
        let own: Vec<_> = parts.iter().map(|(lo, hi)| ((lead + lo) as u64, (lead + hi) as u64)).collect();
        let mut r = Edge { inner: Cursor::new(d), own, hard, out: vec![], asked: 0 };
        r.inner.set_position(lead as u64);
        let got = match m.panics(|| r.read_type_args::<T>(e, args)) {
            Ok(x) => x.map(|x| show(&x)).map_err(|x| format!("{:?}", x)),
            Err(x) => Err(format!("panic {}", x)),
        };
        let name = || format!("{} of {} bytes {:?}, {} bytes behind", what, end, e, tail);
        m.check(r.out.is_empty(), || format!("{}: asks for bytes outside: {:?}", name(), &r.out[..r.out.len().min(4)]));
        m.check(got.is_ok(), || format!("{}: {}", name(), got.as_ref().unwrap_err()));
        m.eq(r.inner.position(), (lead + end) as u64, || format!("{}: position", name()));
        m.count("bytes asked for", r.asked);
        m.count("reads", 1);
        match &first {
            None => first = Some(got),
            Some(f) => m.check(*f == got, || format!("{}: not the same value as alone", name())),
        }
    }
}

#[derive(BinRead)]
#[br(import(n: usize))]
struct Counted<T: BinRead<Args = ()> + 'static> {
    #[br(count = n)]
    v: Vec<T>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Bytes {
    #[br(count = n, parse_with = binread::helpers::read_bytes)]
    v: Vec<u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Helper {
    #[br(parse_with = binread::count(n))]
    v: Vec<u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Sep {
    #[br(count = n, parse_with = Punctuated::separated)]
    v: Punctuated<u8, u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Trail {
    #[br(count = n, parse_with = Punctuated::separated_trailing)]
    v: Punctuated<u8, u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Tried {
    #[br(count = n, try)]
    v: Option<Vec<u8>>,
}
#[derive(BinRead)]
struct Until {
    #[br(parse_with = binread::until(|x: &u8| *x == 0))]
    v: Vec<u8>,
}
#[derive(BinRead)]
struct Before {
    #[br(parse_with = binread::until_exclusive(|x: &u8| *x == 0))]
    v: Vec<u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Target {
    #[br(count = n)]
    v: Vec<u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Pointed {
    #[br(args(n))]
    p: FilePtr<u32, Target>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Padded {
    #[br(pad_after = n as i64)]
    a: u8,
    b: u8,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Sized_ {
    #[br(pad_size_to = n + 1)]
    a: u8,
    b: u8,
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Looks {
    #[br(restore_position, count = n)]
    a: Vec<u8>,
    #[br(count = n)]
    b: Vec<u8>,
}
#[derive(BinRead)]
#[br(import(n: usize))]
enum Either {
    #[br(magic = 0xFFu8)]
    A(#[br(count = n + 7)] Vec<u8>),
    #[br(magic = 1u8)]
    B(#[br(count = n)] Vec<u8>),
}
#[derive(BinRead)]
#[br(import(n: usize))]
struct Positioned {
    #[br(count = n)]
    v: PosValue<Vec<u8>>,
}

fn arrays(m: &mut Mon, e: Endian, lead: usize) {
    macro_rules! arr {
        ($($n:expr),*) => {$({
            let own = m.rng.bytes($n);
            go::<[u8; $n]>(m, "[u8; N]", (), e, lead, &own, &[(0, $n)], $n, |x| x.to_vec());
            let own = m.rng.bytes(2 * $n);
            go::<[u16; $n]>(m, "[u16; N]", (), e, lead, &own, &[(0, 2 * $n)], 2 * $n, |x| x.iter().flat_map(|x| x.to_be_bytes()).collect());
        })*};
    }
    arr!(0, 1, 2, 7, 16, 31, 32);
}

fn sizes(m: &mut Mon, n: usize, e: Endian) {
    let lead = m.rng.below(9) as usize;
    let own = m.rng.bytes(8 * n + 1);
    let zero = |k: usize, step: usize| {
        let mut d: Vec<u8> = own[..k].iter().map(|x| (*x).max(1)).collect();
        d.extend(std::iter::repeat(0).take(step));
        d
    };
    go::<Counted<u8>>(m, "Vec<u8>", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.v.clone());
    go::<Counted<u16>>(m, "Vec<u16>", (n,), e, lead, &own[..2 * n], &[(0, 2 * n)], 2 * n, |x| x.v.iter().flat_map(|x| x.to_be_bytes()).collect());
    go::<Counted<u64>>(m, "Vec<u64>", (n,), e, lead, &own[..8 * n], &[(0, 8 * n)], 8 * n, |x| x.v.iter().flat_map(|x| x.to_be_bytes()).collect());
    go::<Bytes>(m, "read_bytes", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.v.clone());
    go::<Helper>(m, "count", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.v.clone());
    go::<Tried>(m, "try", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.v.clone().unwrap());
    go::<Positioned>(m, "PosValue", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.v.val.clone());
    let k = (2 * n).saturating_sub(1);
    go::<Sep>(m, "separated", (n,), e, lead, &own[..k], &[(0, k)], k, |x| x.v.iter().copied().chain(x.v.seperators.iter().copied()).collect());
    go::<Trail>(m, "separated_trailing", (n,), e, lead, &own[..2 * n], &[(0, 2 * n)], 2 * n, |x| x.v.iter().copied().chain(x.v.seperators.iter().copied()).collect());
    let d = zero(n, 1);
    go::<Until>(m, "until", (), e, lead, &d, &[(0, n + 1)], n + 1, |x| x.v.clone());
    go::<Before>(m, "until_exclusive", (), e, lead, &d, &[(0, n + 1)], n + 1, |x| x.v.clone());
    go::<NullString>(m, "NullString", (), e, lead, &d, &[(0, n + 1)], n + 1, |x| x.0.clone());
    let d = zero(2 * n, 2);
    go::<NullWideString>(m, "NullWideString", (), e, lead, &d, &[(0, 2 * n + 2)], 2 * n + 2, |x| x.0.iter().flat_map(|x| x.to_be_bytes()).collect());
    go::<Looks>(m, "restore_position", (n,), e, lead, &own[..n], &[(0, n)], n, |x| x.b.clone());
    let mut d = vec![1];
    d.extend_from_slice(&own[..n]);
    go::<Either>(m, "enum", (n,), e, lead, &d, &[(0, n + 1)], n + 1, |x| match x {
        Either::A(v) | Either::B(v) => v.clone(),
    });
    // what lies between is not read
    let mut d = vec![5];
    d.extend_from_slice(&own[..n]);
    d.push(6);
    go::<Padded>(m, "pad_after", (n,), e, lead, &d, &[(0, 1), (n + 1, n + 2)], n + 2, |x| vec![x.a, x.b]);
    go::<Sized_>(m, "pad_size_to", (n,), e, lead, &d, &[(0, 1), (n + 1, n + 2)], n + 2, |x| vec![x.a, x.b]);
    // a pointer and its target, with a gap
    let gap = m.rng.below(5) as usize;
    let at = (lead + 4 + gap) as u32;
    let mut d = match e {
        Endian::Big => at.to_be_bytes(),
        Endian::Little => at.to_le_bytes(),
        Endian::Native => at.to_ne_bytes(),
    }
    .to_vec();
    d.resize(4 + gap, 0);
    d.extend_from_slice(&own[..n]);
    go::<Pointed>(m, "FilePtr", (n,), e, lead, &d, &[(0, 4), (4 + gap, 4 + gap + n)], 4, |x| x.p.v.clone());
}

fn monitor(m: &mut Mon) {
    let mut ns = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384];
    for _ in 0..m.times(20) {
        ns.push(m.rng.below(6000) as usize);
    }
    ns.extend([32767, 32768, 65535, 65536, 65537, 65536 + m.rng.below(70_000) as usize, 131_072]);
    if m.scale > 1 {
        ns.extend([262_143, 262_144, 1 << 20, (1 << 20) + 1]);
    }
    for n in ns {
        if !m.take() || m.div > 1 && n > if cfg!(miri) { 40 } else { 300 } {
            continue;
        }
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        sizes(m, n, e);
        if n < 40 {
            arrays(m, e, n);
            m.sample(format!("every field kind with {} items in {:?}, alone and with 1, 9 and 70000 bytes behind", n, e));
        }
    }
}
