use binread::{io, io::Cursor, BinRead, BinReaderExt, Endian, Error};

fn sync<T: Send + Sync + 'static>() {}

#[derive(Debug, Clone, PartialEq)]
struct Mine(u32, String);
#[derive(Debug, Clone, PartialEq)]
struct Other(u32);

#[derive(BinRead, Debug)]
#[br(import(limit: u8))]
struct Deep {
    a: u8,
    #[br(assert(b <= limit, Mine(b as u32, format!("{} > {}", b, limit))))]
    b: u8,
}
#[derive(BinRead, Debug)]
#[br(import(n: u8))]
struct Wrap {
    h: u16,
    #[br(args(n))]
    d: Deep,
    #[br(assert(t != 0, "t is {}", t))]
    t: u8,
}

fn kinds() -> Vec<io::ErrorKind> {
    use io::ErrorKind::*;
    vec![NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable,
        BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof]
}

fn all(m: &mut Mon, depth: u64) -> (Error, String, u64) {
    // an error, what its text has to name, its position
    let pos = m.rng.next() >> m.rng.below(64);
    match m.rng.below(if depth == 0 { 5 } else { 6 }) {
        0 => (Error::BadMagic { pos, found: Box::new(m.rng.next() as u16) }, format!("{:X}", pos), pos),
        1 => {
            let t = format!("text {}", m.rng.below(1000));
            (Error::AssertFail { pos, message: t.clone() }, t, pos)
        }
        2 => {
            let ks = kinds();
            let k = m.rng.pick(&ks);
            let e: Error = io::Error::new(k, "x").into();
            (e, String::new(), pos)
        }
        3 => (Error::Custom { pos, err: Box::new(Mine(7, "seven".into())) }, format!("{:X}", pos), pos),
        4 => (Error::NoVariantMatch { pos }, format!("{:X}", pos), pos),
        _ => {
            let (a, ta, _) = all(m, depth - 1);
            let (b, _, _) = all(m, depth - 1);
            let _ = b;
            (Error::EnumErrors { pos, variant_errors: vec![("Alpha", a), ("Beta", b)] }, ta, pos)
        }
    }
}

/// error::magic on its own
fn magic<T>(m: &mut Mon, name: &str, len: usize, make: impl Fn(&[u8], bool) -> T)
where
    T: BinRead<Args = ()> + PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static,
{
    let lead = m.rng.below(4) as usize;
    let mut data = m.rng.bytes(lead + len + 2);
    if len == 1 {
        data[lead] &= 127;
    }
    let big = m.rng.below(2) == 0;
    let there = make(&data[lead..lead + len], big);
    let mut other = data[lead..lead + len].to_vec();
    other[m.rng.below(len as u64) as usize] ^= 1 << m.rng.below(7);
    let wanted = if m.rng.below(2) == 0 { there.clone() } else { make(&other, big) };
    if m.rng.below(4) == 0 {
        data.truncate(lead + m.rng.below(len as u64) as usize);
    }
    let cut = data.len() < lead + len;
    let mut o = binread::ReadOptions::default();
    o.endian = if big { Endian::Big } else { Endian::Little };
    let mut c = Cursor::new(&data);
    c.set_position(lead as u64);
    let r = binread::error::magic(&mut c, wanted.clone(), &o);
    let what = format!("magic of {}: {:?} for {:?} in {:x?} at {}", name, r, wanted, data, lead);
    match r {
        Ok(()) => m.check(!cut && there == wanted && c.position() == (lead + len) as u64, || what.clone()),
        Err(Error::BadMagic { pos, ref found }) => m.check(!cut && there != wanted && pos == lead as u64 && found.downcast_ref::<T>() == Some(&there), || what.clone()),
        Err(Error::Io(ref e)) => m.check(cut && e.kind() == io::ErrorKind::UnexpectedEof, || what.clone()),
        Err(_) => m.bad(what.clone()),
    }
    m.state(format!("magic {} {} {} {}", name, cut, there == wanted, big));
}

/// error::assert on its own
#[allow(deprecated)]
fn assert_(m: &mut Mon) {
    let at = m.rng.next() >> m.rng.below(64);
    let mut c = Cursor::new([1u8, 2]);
    c.set_position(at);
    let (test, custom) = (m.rng.below(2) == 0, m.rng.below(2) == 0);
    let calls = std::cell::Cell::new(0);
    let text = format!("says {}", m.rng.below(100));
    let r = binread::error::assert(&mut c, test, &text, if custom { Some(|| { calls.set(calls.get() + 1); Mine(5, text.clone()) }) } else { None });
    let ok = match &r {
        Ok(()) => test,
        Err(Error::AssertFail { pos, message }) => !test && !custom && *pos == at && *message == text,
        Err(e @ Error::Custom { pos, .. }) => !test && custom && *pos == at && e.custom_err::<Mine>() == Some(&Mine(5, text.clone())),
        _ => false,
    };
    m.check(ok, || format!("assert({}, {:?}, custom {}) at {}: {:?}", test, text, custom, at, r));
    m.eq(calls.get(), (!test && custom) as i32, || "calls of the error's function".into());
    m.eq(c.position(), at, || "position behind assert".into());
}

static NAMES: [&str; 64] = [
    "Var0x", "Var1x", "Var2x", "Var3x", "Var4x", "Var5x", "Var6x", "Var7x", "Var8x", "Var9x", "Var10x", "Var11x", "Var12x", "Var13x", "Var14x", "Var15x", "Var16x", "Var17x", "Var18x", "Var19x", "Var20x", "Var21x", "Var22x", "Var23x", "Var24x", "Var25x", "Var26x", "Var27x", "Var28x", "Var29x", "Var30x", "Var31x", "Var32x", "Var33x", "Var34x", "Var35x", "Var36x", "Var37x", "Var38x", "Var39x", "Var40x", "Var41x", "Var42x", "Var43x", "Var44x", "Var45x", "Var46x", "Var47x", "Var48x", "Var49x", "Var50x", "Var51x", "Var52x", "Var53x", "Var54x", "Var55x", "Var56x", "Var57x", "Var58x", "Var59x", "Var60x", "Var61x", "Var62x", "Var63x"
];

#[derive(BinRead, Debug)]
enum Wide {
    #[br(magic = 100u8)]
    Var0x(u8),
    #[br(magic = 101u8)]
    Var1x(u8),
    #[br(magic = 102u8)]
    Var2x(u8),
    #[br(magic = 103u8)]
    Var3x(u8),
    #[br(magic = 104u8)]
    Var4x(u8),
    #[br(magic = 105u8)]
    Var5x(u8),
    #[br(magic = 106u8)]
    Var6x(u8),
    #[br(magic = 107u8)]
    Var7x(u8),
    #[br(magic = 108u8)]
    Var8x(u8),
    #[br(magic = 109u8)]
    Var9x(u8),
    #[br(magic = 110u8)]
    Var10x(u8),
    #[br(magic = 111u8)]
    Var11x(u8),
    #[br(magic = 112u8)]
    Var12x(u8),
    #[br(magic = 113u8)]
    Var13x(u8),
    #[br(magic = 114u8)]
    Var14x(u8),
    #[br(magic = 115u8)]
    Var15x(u8),
    #[br(magic = 116u8)]
    Var16x(u8),
    #[br(magic = 117u8)]
    Var17x(u8),
    #[br(magic = 118u8)]
    Var18x(u8),
    #[br(magic = 119u8)]
    Var19x(u8),
    #[br(magic = 120u8)]
    Var20x(u8),
    #[br(magic = 121u8)]
    Var21x(u8),
    #[br(magic = 122u8)]
    Var22x(u8),
    #[br(magic = 123u8)]
    Var23x(u8),
    #[br(magic = 124u8)]
    Var24x(u8),
    #[br(magic = 125u8)]
    Var25x(u8),
    #[br(magic = 126u8)]
    Var26x(u8),
    #[br(magic = 127u8)]
    Var27x(u8),
    #[br(magic = 128u8)]
    Var28x(u8),
    #[br(magic = 129u8)]
    Var29x(u8),
    #[br(magic = 130u8)]
    Var30x(u8),
    #[br(magic = 131u8)]
    Var31x(u8),
    #[br(magic = 132u8)]
    Var32x(u8),
    #[br(magic = 133u8)]
    Var33x(u8),
    #[br(magic = 134u8)]
    Var34x(u8),
    #[br(magic = 135u8)]
    Var35x(u8),
    #[br(magic = 136u8)]
    Var36x(u8),
    #[br(magic = 137u8)]
    Var37x(u8),
    #[br(magic = 138u8)]
    Var38x(u8),
    #[br(magic = 139u8)]
    Var39x(u8),
}

/// Errors of enums with many variants, deep ones, and long messages.
fn wide(m: &mut Mon) {
    let n = if cfg!(miri) { m.rng.pick(&[2, 9, 17]) } else { m.rng.pick(&[1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64]) };
    let mut texts = vec![];
    let errors: Vec<(&'static str, Error)> = NAMES[..n].iter().enumerate().map(|(i, name)| {
        let e = match m.rng.below(5) {
            0 => {
                let k = if cfg!(miri) { 20 } else { m.rng.pick(&[1, 5, 50, 127, 128, 129, 300, 5000]) };
                let t = format!("because{}{}", i, "m".repeat(k));
                texts.push(t.clone());
                Error::AssertFail { pos: i as u64, message: t }
            }
            1 => {
                let pos = (m.rng.next() | 1 << 63) >> m.rng.below(60);
                texts.push(format!("{:X}", pos));
                Error::NoVariantMatch { pos }
            }
            2 => {
                texts.push(format!("inner {}", i));
                Error::Custom { pos: 3, err: Box::new(Mine(i as u32, format!("inner {}", i))) };
                Error::AssertFail { pos: 3, message: format!("inner {}", i) }
            }
            3 => {
                let pos = 0xABC00 + i as u64;
                texts.push(format!("{:X}", pos));
                Error::BadMagic { pos, found: Box::new(5u8) }
            }
            _ => {
                let mut e = Error::AssertFail { pos: 1, message: format!("deepest {}", i) };
                texts.push(format!("deepest {}", i));
                for k in 0..m.rng.below(if cfg!(miri) { 3 } else { 12 }) {
                    e = Error::EnumErrors { pos: k, variant_errors: vec![("Deep", e)] };
                }
                e
            }
        };
        (*name, e)
    }).collect();
    let e = Error::EnumErrors { pos: 0xFEDC, variant_errors: errors };
    let d = match m.panics(|| format!("{}", e)) {
        Ok(x) => x,
        Err(x) => return m.bad(format!("formatting an error of {} variants panics: {}", n, x)),
    };
    m.state(format!("wide {}", n));
    for name in &NAMES[..n] {
        m.check(d.contains(name), || format!("the text of an error of {} variants does not name {}: {}", n, name, d.len()));
    }
    for t in &texts {
        m.check(d.contains(t), || format!("the text of an error of {} variants has no {:?}", n, &t[..t.len().min(60)]));
    }
    m.check(d.contains("FEDC"), || format!("the text of an error of {} variants has no position", n));
    if cfg!(miri) && m.rng.below(3) != 0 {
        return;
    }
    // read
    let lead = m.rng.below(3);
    let b = m.rng.pick(&[0u8, 99, 140, 255]);
    let mut c = Cursor::new(vec![b; 5]);
    c.set_position(lead);
    match m.panics(|| c.read_be::<Wide>()) {
        Ok(Err(e)) => {
            let d = format!("{}", e);
            match e {
                Error::EnumErrors { pos, variant_errors } => {
                    m.eq(pos, lead, || "position of an enum's error".into());
                    m.check(variant_errors.iter().map(|x| x.0).eq(NAMES[..40].iter().copied()), || format!("variants noted: {:?}", variant_errors));
                    m.check(NAMES[..40].iter().all(|x| d.contains(x)), || format!("not every variant is named: {}", d));
                    for (_, e) in variant_errors {
                        match e {
                            Error::BadMagic { pos, found } => m.eq((pos, found.downcast_ref::<u8>().copied()), (lead, Some(b)), || "magic found".into()),
                            e => m.bad(format!("instead of a bad magic: {:?}", e)),
                        }
                    }
                }
                e => m.bad(format!("an enum of 40 variants: {:?}", e)),
            }
        }
        x => m.bad(format!("an enum of 40 variants: {:?}", x)),
    }
    m.eq(c.position(), lead, || "position after the enum's error".into());
    let k = m.rng.below(40) as u8;
    let mut c = Cursor::new(vec![100 + k, 77]);
    let got = m.panics(|| c.read_be::<Wide>());
    m.check(format!("{:?}", got) == format!("Ok(Ok(Var{}x(77)))", k), || format!("variant {}: {:?}", k, got));
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.times(300) {
        wide(m);
    }
    sync::<Error>();
    for _ in 0..m.times(600) {
        magic(m, "u8", 1, |b, _| b[0]);
        magic(m, "i8", 1, |b, _| b[0] as i8);
        magic(m, "u16", 2, |b, big| if big { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) });
        magic(m, "char", 1, |b, _| b[0] as char);
        magic(m, "[u8; 7]", 7, |b, _| { let mut a = [0; 7]; a.copy_from_slice(b); a });
        magic(m, "i32", 4, |b, big| { let mut a = [0; 4]; a.copy_from_slice(b); if big { i32::from_be_bytes(a) } else { i32::from_le_bytes(a) } });
        magic(m, "u128", 16, |b, big| { let mut a = [0; 16]; a.copy_from_slice(b); if big { u128::from_be_bytes(a) } else { u128::from_le_bytes(a) } });
        magic(m, "(u8, u16)", 3, |b, big| (b[0], if big { u16::from_be_bytes([b[1], b[2]]) } else { u16::from_le_bytes([b[1], b[2]]) }));
        assert_(m);
    }
    for _ in 0..m.times(3000) {
        let (e, part, _) = all(m, 3);
        let r = m.panics(|| (format!("{}", e), format!("{:?}", e), format!("{:#?}", e)));
        let (d, g, alt) = match r {
            Ok(x) => x,
            Err(p) => {
                m.bad(format!("formatting an error panics: {}", p));
                continue;
            }
        };
        m.check(!d.is_empty() && !g.is_empty() && !alt.is_empty(), || format!("empty text of {}", part));
        m.check(d.contains(&part), || format!("{:?} does not name {:?}", d, part));
        let (name, custom) = match &e {
            Error::BadMagic { .. } => ("BadMagic", false),
            Error::AssertFail { .. } => ("AssertFail", false),
            Error::Io(_) => ("Io", false),
            Error::Custom { .. } => ("Custom", true),
            Error::NoVariantMatch { .. } => ("NoVariantMatch", false),
            Error::EnumErrors { .. } => ("EnumErrors", false),
            _ => ("?", false),
        };
        m.state(format!("{} {}", name, d.len() / 16));
        if name == "EnumErrors" {
            m.check(d.contains("Alpha") && d.contains("Beta"), || format!("{:?} does not name the variants", d));
        }
        m.eq(e.custom_err::<Mine>().cloned(), if custom { Some(Mine(7, "seven".into())) } else { None }, || format!("custom_err of {}", name));
        m.check(e.custom_err::<Other>().is_none() && e.custom_err::<String>().is_none() && e.custom_err::<u16>().is_none(), || format!("custom_err of another type on {}", name));
        m.sample(d);
    }
    // through real reads
    for _ in 0..m.times(3000) {
        let n = m.rng.below(7) as usize;
        let data: Vec<u8> = (0..n).map(|_| m.rng.below(5) as u8).collect();
        let limit = m.rng.below(5) as u8;
        let lead = m.rng.below(2);
        let mut c = Cursor::new(data.clone());
        c.set_position(lead);
        let r = m.panics(|| c.read_be_args::<Wrap>((limit,)));
        let d = data.get(lead as usize..).unwrap_or(&[]);
        let what = match r {
            Err(p) => {
                m.bad(format!("panic {} on {:?}", p, data));
                continue;
            }
            Ok(Ok(_)) => "ok",
            Ok(Err(ref e)) => match e {
                Error::Custom { .. } => {
                    let got = e.custom_err::<Mine>().cloned();
                    m.check(d.len() >= 4 && got == Some(Mine(d[3] as u32, format!("{} > {}", d[3], limit))), || format!("custom error {:?} on {:?}", got, data));
                    m.check(e.custom_err::<Other>().is_none(), || "wrong type".into());
                    "custom"
                }
                Error::AssertFail { message, .. } => {
                    m.eq(message.clone(), "t is 0".to_string(), || "message".into());
                    "assert"
                }
                Error::Io(x) => {
                    m.eq(x.kind(), io::ErrorKind::UnexpectedEof, || "kind".into());
                    "eof"
                }
                _ => "other",
            },
        };
        let want = if d.len() < 4 { "eof" } else if d[3] > limit { "custom" } else if d.len() < 5 { "eof" } else if d[4] == 0 { "assert" } else { "ok" };
        m.eq(what, want, || format!("outcome on {:?} limit {}", data, limit));
        m.state(format!("real {} {}", what, data.len()));
        if what != "ok" {
            m.eq(c.position(), lead, || "position after the error".into());
        }
    }
    #[cfg(not(feature = "nothing"))]
    {
        // a std error with a usable chain
        let e: Box<dyn std::any::Any> = Box::new(Error::NoVariantMatch { pos: 3 });
        m.check(e.downcast_ref::<Error>().is_some(), || "Any".into());
    }
}
