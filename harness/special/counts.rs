// Collections, helpers and strings of every size class: what they hold, what they
// read and where they leave the reader.
use binread::io::{self, Cursor, Read, Seek, SeekFrom};
use binread::punctuated::Punctuated;
use binread::{prelude::*, Endian, NullString, NullWideString};

/// Notes the furthest byte handed out.
struct Watch {
    inner: Cursor<Vec<u8>>,
    far: u64,
}
impl Read for Watch {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.inner.read(b)?;
        self.far = self.far.max(self.inner.position());
        Ok(n)
    }
}
impl Seek for Watch {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

fn data(seed: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| (i.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(seed) >> 40) as u8).collect()
}

fn w(b: &[u8], e: Endian) -> u64 {
    let big = match e {
        Endian::Big => true,
        Endian::Little => false,
        Endian::Native => cfg!(target_endian = "big"),
    };
    let f = |acc: u64, x: &u8| acc << 8 | u64::from(*x);
    if big { b.iter().fold(0, f) } else { b.iter().rev().fold(0, f) }
}

macro_rules! counted {
    ($($name:ident, $cty:ty, $item:ty, $size:expr, $to:expr;)*) => {$(
        #[derive(BinRead)]
        #[br(import(n: $cty))]
        struct $name {
            #[br(count = n)]
            v: Vec<$item>,
            #[br(count = n, parse_with = binread::helpers::read_bytes)]
            b: Vec<u8>,
            #[br(parse_with = binread::count(n as usize))]
            c: Vec<$item>,
            #[br(count = n, parse_with = Punctuated::separated)]
            p: Punctuated<$item, u8>,
            #[br(count = n, parse_with = Punctuated::separated_trailing)]
            q: Punctuated<$item, u8>,
            last: u8,
        }
        impl $name {
            fn go(m: &mut Mon, n: usize, e: Endian) {
                if n as u128 > <$cty>::MAX as u128 {
                    return;
                }
                let what = || format!("{} x {} {:?}", n, stringify!($item), e);
                let s: usize = $size;
                let gaps = n.saturating_sub(1) + n;
                let total = 4 * n * s + n + gaps + 1;
                let seed = m.rng.next();
                let lead = m.rng.below(5) as usize;
                let d = data(seed, lead + total + 3);
                let mut r = Watch { inner: Cursor::new(d.clone()), far: 0 };
                r.inner.set_position(lead as u64);
                m.state(format!("{} {} {}", stringify!($item), stringify!($cty), n));
                let x: $name = match m.panics(|| r.read_type_args(e, (n as $cty,))) {
                    Ok(Ok(x)) => x,
                    Ok(Err(x)) => return m.bad(format!("{}: {:?}", what(), x)),
                    Err(x) => return m.bad(format!("{}: panic {}", what(), x)),
                };
                let to: fn(&$item) -> u64 = $to;
                let mut at = lead;
                let mut take = |k: usize| { at += k; &d[at - k..at] };
                m.eq(x.v.len(), n, || format!("{}: length of the vector", what()));
                m.check(x.v.iter().all(|i| to(i) == w(take(s), e)), || format!("{}: items of the vector", what()));
                let by = take(n);
                m.check(x.b == by, || format!("{}: read_bytes", what()));
                m.eq(x.c.len(), n, || format!("{}: length by helper", what()));
                m.check(x.c.iter().all(|i| to(i) == w(take(s), e)), || format!("{}: items by helper", what()));
                m.eq((x.p.len(), x.p.seperators.len()), (n, n.saturating_sub(1)), || format!("{}: separated", what()));
                m.eq((x.q.len(), x.q.seperators.len()), (n, n), || format!("{}: separated_trailing", what()));
                for (p, trailing) in [(&x.p, false), (&x.q, true)] {
                    let mut ok = true;
                    for i in 0..n {
                        ok &= p.get(i).map(to) == Some(w(take(s), e));
                        if trailing || i + 1 < n {
                            ok &= p.seperators.get(i) == Some(&take(1)[0]);
                        }
                    }
                    m.check(ok, || format!("{}: items or separators, trailing: {}", what(), trailing));
                }
                m.eq(x.last, take(1)[0], || format!("{}: the field behind", what()));
                m.eq((r.inner.position(), r.far), ((lead + total) as u64, (lead + total) as u64), || format!("{}: position and furthest byte read", what()));
                m.count("items", 4 * n as u64);
                // one byte too few
                let cut = if m.rng.below(2) == 0 { lead + total - 1 } else { lead + m.rng.below(total as u64) as usize };
                let mut r = Watch { inner: Cursor::new(d[..cut].to_vec()), far: 0 };
                r.inner.set_position(lead as u64);
                let got = m.panics(|| r.read_type_args::<$name>(e, (n as $cty,)).map(|_| ()));
                let ok = match &got {
                    Ok(Err(binread::Error::Io(x))) => x.kind() == io::ErrorKind::UnexpectedEof,
                    _ => false,
                };
                m.check(ok && r.inner.position() == lead as u64, || format!("{} cut to {} of {} bytes: {:?} at {}", what(), cut - lead, total, got, r.inner.position()));
            }
        }
    )*};
}
counted! {
    Bytes8, u8, u8, 1, |x| u64::from(*x);
    Bytes16, u16, u8, 1, |x| u64::from(*x);
    Bytes32, u32, u8, 1, |x| u64::from(*x);
    Bytes64, u64, i8, 1, |x| u64::from(*x as u8);
    BytesI, i64, char, 1, |x| *x as u64;
    Words, u32, u16, 2, |x| u64::from(*x);
    Longs, usize, i32, 4, |x| u64::from(*x as u32);
    Quads, i32, u64, 8, |x| *x;
    Boxes, u64, Box<u16>, 2, |x| u64::from(**x);
    Options, u128, Option<u8>, 1, |x| u64::from(x.unwrap());
}

#[derive(BinRead)]
struct Ends {
    #[br(parse_with = binread::until(|x: &u16| *x == 0xFFFF))]
    a: Vec<u16>,
    #[br(parse_with = binread::until_exclusive(|x: &u8| *x == 0xFF))]
    b: Vec<u8>,
    s: NullString,
    t: NullWideString,
    #[br(parse_with = binread::until_eof)]
    rest: Vec<u16>,
}

fn ends(m: &mut Mon, n: usize, e: Endian) {
    let what = || format!("{} items {:?}", n, e);
    let seed = m.rng.next();
    let raw = data(seed, 16 * n + 16);
    let mut d = vec![];
    let put = |d: &mut Vec<u8>, x: u16| match e {
        Endian::Big => d.extend_from_slice(&x.to_be_bytes()),
        Endian::Little => d.extend_from_slice(&x.to_le_bytes()),
        Endian::Native => d.extend_from_slice(&x.to_ne_bytes()),
    };
    let unit = |i: usize| (u16::from(raw[2 * i]) << 8 | u16::from(raw[2 * i + 1])).max(1).min(0xFFFE);
    let byte = |i: usize| raw[i].max(1).min(0xFE);
    for i in 0..n {
        put(&mut d, unit(i));
    }
    put(&mut d, 0xFFFF);
    d.extend((0..n).map(byte));
    d.push(0xFF);
    d.extend((0..n).map(|i| byte(i + 7)));
    d.push(0);
    for i in 0..n {
        put(&mut d, unit(i + 3));
    }
    put(&mut d, 0);
    for i in 0..n {
        put(&mut d, unit(i + 5));
    }
    let odd = m.rng.below(2) == 0;
    if odd {
        d.push(77);
    }
    let total = d.len() as u64;
    let mut r = Watch { inner: Cursor::new(d), far: 0 };
    m.state(format!("ends {} {:?} {}", n, e, odd));
    let x: Ends = match m.panics(|| r.read_type(e)) {
        Ok(Ok(x)) => x,
        Ok(Err(x)) => return m.bad(format!("{}: {:?}", what(), x)),
        Err(x) => return m.bad(format!("{}: panic {}", what(), x)),
    };
    m.eq(x.a.len(), n + 1, || format!("{}: until, length", what()));
    m.check(x.a.iter().enumerate().all(|(i, v)| *v == if i == n { 0xFFFF } else { unit(i) }), || format!("{}: until", what()));
    m.eq(x.b.len(), n, || format!("{}: until_exclusive, length", what()));
    m.check(x.b.iter().enumerate().all(|(i, v)| *v == byte(i)), || format!("{}: until_exclusive", what()));
    m.eq(x.s.len(), n, || format!("{}: NullString, length", what()));
    m.check(x.s.iter().enumerate().all(|(i, v)| *v == byte(i + 7)), || format!("{}: NullString", what()));
    m.eq(x.t.len(), n, || format!("{}: NullWideString, length", what()));
    m.check(x.t.iter().enumerate().all(|(i, v)| *v == unit(i + 3)), || format!("{}: NullWideString", what()));
    m.eq(x.rest.len(), n, || format!("{}: until_eof, length", what()));
    m.check(x.rest.iter().enumerate().all(|(i, v)| *v == unit(i + 5)), || format!("{}: until_eof", what()));
    m.eq(r.inner.position(), total - odd as u64, || format!("{}: position", what()));
    m.count("items", 5 * n as u64);
}

/// Counts which no memory holds: an error, not another count.
macro_rules! huge {
    ($($name:ident, $cty:ty, $sep:ident, $trail:ident;)*) => {$(
        #[derive(BinRead, Debug)]
        #[br(import(n: $cty))]
        struct $sep(#[br(count = n, parse_with = Punctuated::separated)] Punctuated<u8, u8>);
        #[derive(BinRead, Debug)]
        #[br(import(n: $cty))]
        struct $trail(#[br(count = n, parse_with = Punctuated::separated_trailing)] Punctuated<u8, u8>);
        #[derive(BinRead, Debug)]
        #[br(big)]
        struct $name {
            how: u8,
            n: $cty,
            #[br(if(how == 0), count = n)]
            v: Vec<u8>,
            #[br(if(how == 1), count = n, parse_with = binread::helpers::read_bytes)]
            b: Vec<u8>,
            #[br(if(how == 2), args(n))]
            p: Option<$sep>,
            #[br(if(how == 3), args(n))]
            q: Option<$trail>,
            #[br(if(how == 4), count = n)]
            w: Vec<(u8, Option<u16>)>,
        }
        impl $name {
            fn go(m: &mut Mon) {
                let most = <$cty>::MAX as u128;
                for k in [32u32, 33, 40, 48, 63, 64, 65, 96, 127] {
                    for low in [0u128, 1, 2, 3, 300] {
                        let n = match 1u128.checked_shl(k) {
                            Some(x) if x < most => x + low,
                            _ => continue,
                        };
                        // a reader of as many bytes as the lower part of the count says, and more
                        for how in 0..5u8 {
                            if cfg!(miri) && m.rng.below(20) != 0 {
                                continue;
                            }
                            let mut d = vec![how];
                            d.extend_from_slice(&(n as $cty).to_be_bytes());
                            let lead = d.len();
                            d.extend(vec![1u8; if cfg!(miri) { 310 } else { 1000 }]);
                            let mut c = Cursor::new(d);
                            let got = m.panics(|| c.read_be::<$name>().map(|x| (x.v.len(), x.b.len(), x.p.map(|x| x.0.len()), x.q.map(|x| x.0.len()), x.w.len())));
                            let ok = match &got {
                                Ok(Err(binread::Error::Io(x))) => x.kind() == io::ErrorKind::UnexpectedEof,
                                _ => false,
                            };
                            m.check(ok && c.position() == 0, || format!("{} items of kind {} in too few bytes behind {}: {:?}", n, how, lead, got));
                            m.state(format!("huge {} {} {} {}", stringify!($cty), k, low, how));
                        }
                    }
                }
            }
        }
    )*};
}
huge! {
    HugeU64, u64, SepU64, TrailU64;
    HugeI64, i64, SepI64, TrailI64;
    HugeU128, u128, SepU128, TrailU128;
    HugeI128, i128, SepI128, TrailI128;
}

fn monitor(m: &mut Mon) {
    HugeU64::go(m);
    HugeI64::go(m);
    if !cfg!(miri) || m.rng.below(2) == 0 {
        HugeU128::go(m);
    }
    HugeI128::go(m);
    let mut sizes = vec![0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537];
    sizes.push(65538 + m.rng.below(70_000) as usize);
    sizes.push((1 << 17) + m.rng.below(3) as usize);
    if m.scale > 1 {
        sizes.extend([(1 << 18) + 1, (1 << 20) + 1, (1 << 22) + 1]);
    }
    for _ in 0..m.times(10) {
        let n = m.rng.below(3000) as usize;
        sizes.push(n);
    }
    for (i, n) in sizes.into_iter().enumerate() {
        if !m.take() || m.div > 1 && n > 300 {
            continue;
        }
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        Bytes8::go(m, n, e);
        Bytes16::go(m, n, e);
        Words::go(m, n, e);
        Options::go(m, n, e);
        ends(m, n, e);
        let k = m.rng.below(3);
        if n < 70_000 || k == 0 {
            Bytes32::go(m, n, e);
            Bytes64::go(m, n, e);
        }
        if n < 70_000 || k == 1 {
            BytesI::go(m, n, e);
            Quads::go(m, n, e);
        }
        if n < 70_000 || k == 2 {
            Longs::go(m, n, e);
            Boxes::go(m, n, e);
        }
        if i < 2 {
            m.sample(format!("{} items in {:?}", n, e));
        }
    }
}
