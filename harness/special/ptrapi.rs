use binread::{io::Cursor, io::SeekFrom, BinRead, BinReaderExt, Endian, FilePtr, FilePtr16, FilePtr32, ReadOptions, file_ptr::IntoSeekFrom};
use binread::punctuated::Punctuated;

fn opts(e: Endian, offset: u64, count: Option<usize>) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = e;
    o.offset = offset;
    o.count = count;
    o
}

fn get(data: &[u8], at: u64, n: usize, big: bool) -> Option<u64> {
    let at = usize::try_from(at).ok()?;
    let s = data.get(at..at.checked_add(n)?)?;
    let mut v = 0u64;
    for i in 0..n {
        v = v << 8 | s[if big { i } else { n - 1 - i }] as u64;
    }
    Some(v)
}

fn ptr<P>(m: &mut Mon, name: &str, size: usize, signed: bool)
where
    P: BinRead<Args = ()> + IntoSeekFrom + std::fmt::Debug + Into<i128>,
{
    let big = m.rng.below(2) == 0;
    let e = if big { Endian::Big } else { Endian::Little };
    let mut data = m.rng.bytes(60);
    let lead = m.rng.below(8);
    let offset = m.rng.below(40);
    let mut want = m.rng.below(30) as i64;
    if signed && m.rng.below(2) == 0 {
        want = -(m.rng.below(20) as i64);
    }
    for i in 0..size {
        let b = (want >> (8 * i).min(63)) as u8;
        data[lead as usize + if big { size - 1 - i } else { i }] = b;
    }
    let target = offset as i64 + want;
    let value = if target < 0 { None } else { get(&data, target as u64, 2, big).map(|x| x as u16) };
    let o = opts(e, offset, None);
    m.state(format!("{} {} {}", name, want < 0, value.is_some()));
    m.sample(format!("{} pointer {} relative to {}: {:?}", name, want, offset, value));

    let mut c = Cursor::new(data.clone());
    c.set_position(lead);
    let mut p = FilePtr::<P, u16>::read_options(&mut c, &o, ()).unwrap();
    let after = lead + size as u64;
    m.eq(c.position(), after, || format!("{}: position after the pointer", name));
    m.eq(p.ptr.into(), want as i128, || format!("{}: pointer", name));
    m.check(p.value.is_none(), || "not yet read".into());
    m.eq(format!("{:?}", p), "UnreadPointer".into(), || "Debug before reading".into());
    let r = m.panics(|| *p);
    m.check(r.is_err(), || "deref before reading has to panic".into());
    let away = m.rng.below(50);
    c.set_position(away);
    let r = p.after_parse(&mut c, &o, ());
    match value {
        Some(v) => {
            m.check(r.is_ok(), || format!("{}: {:?}", name, r));
            m.eq(p.value, Some(v), || format!("{}: value", name));
            m.eq(c.position(), away, || format!("{}: position is restored", name));
            m.eq(format!("{:?}", p), format!("{:?}", v), || "Debug".into());
            m.eq(*p, v, || "deref".into());
            *p ^= 0x5a5a;
            m.eq(p.into_inner(), v ^ 0x5a5a, || "DerefMut and into_inner".into());
            // all at once
            c.set_position(lead);
            m.eq(FilePtr::<P, u16>::parse(&mut c, &o, ()).ok(), Some(v), || format!("{}: parse", name));
            m.eq(c.position(), after, || format!("{}: position after parse", name));
            // equality looks through the pointer
            let a: FilePtr<P, u16> = { c.set_position(lead); let mut a = FilePtr::<P, u16>::read_options(&mut c, &o, ()).unwrap(); a.after_parse(&mut c, &o, ()).unwrap(); a };
            let mut b: FilePtr<P, u16> = { c.set_position(lead); let mut a = FilePtr::<P, u16>::read_options(&mut c, &o, ()).unwrap(); a.after_parse(&mut c, &o, ()).unwrap(); a };
            m.check(a == b, || "equal values".into());
            *b = v.wrapping_add(1);
            m.check(a != b, || "different values".into());
        }
        None => {
            m.check(matches!(r, Err(binread::Error::Io(_))), || format!("{}: a pointer outside of the file gives {:?}", name, r));
            m.check(p.value.is_none(), || "no value".into());
            c.set_position(lead);
            m.check(FilePtr::<P, u16>::parse(&mut c, &o, ()).is_err(), || "parse outside".into());
        }
    }
}

fn seek_from<P: IntoSeekFrom>(m: &mut Mon, p: P, want: i64) {
    m.check(matches!(p.into_seek_from(), SeekFrom::Current(x) if x == want), || format!("into_seek_from gives {:?} for {}", p.into_seek_from(), want));
}

fn punct(m: &mut Mon) {
    let n = m.rng.below(7) as usize;
    let lead = m.rng.below(4);
    let big = m.rng.below(2) == 0;
    let trailing = m.rng.below(2) == 0;
    let e = if big { Endian::Big } else { Endian::Little };
    let cut = m.rng.below(3) == 0;
    let mut data = m.rng.bytes(lead as usize + 3 * n + 5);
    if cut {
        let keep = lead as usize + m.rng.below(3 * n as u64 + 1) as usize;
        data.truncate(keep);
    }
    let mut at = lead;
    let mut items = Vec::new();
    let mut seps = Vec::new();
    let mut ok = true;
    for i in 0..n {
        match get(&data, at, 2, big) {
            Some(x) => items.push(x as u16),
            None => ok = false,
        }
        at += 2;
        if i + 1 < n || trailing {
            match get(&data, at, 1, big) {
                Some(x) => seps.push(x as u8),
                None => ok = false,
            }
            at += 1;
        }
    }
    m.state(format!("punct {} {} {}", n, trailing, ok));
    let o = opts(e, 0, Some(n));
    let mut c = Cursor::new(data.clone());
    c.set_position(lead);
    let r = if trailing {
        Punctuated::<u16, u8>::separated_trailing(&mut c, &o, ())
    } else {
        Punctuated::<u16, u8>::separated(&mut c, &o, ())
    };
    match r {
        Ok(mut p) => {
            m.check(ok, || format!("accepted a truncated list {:02x?}", data));
            m.eq((*p).clone(), items.clone(), || "items".into());
            m.eq(p.seperators.clone(), seps.clone(), || "separators".into());
            m.eq(p.len(), n, || "len".into());
            m.eq(format!("{:?}", p), format!("{:?}", items), || "Debug".into());
            m.eq(c.position(), at, || "position".into());
            if n > 0 {
                p[0] = 7;
                m.eq(p.iter().next().copied(), Some(7), || "DerefMut".into());
            }
        }
        Err(x) => m.check(!ok && matches!(x, binread::Error::Io(_)), || format!("{:?} on {:02x?}", x, data)),
    }
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.times(1500) {
        ptr::<u8>(m, "u8", 1, false);
        ptr::<u16>(m, "u16", 2, false);
        ptr::<u32>(m, "u32", 4, false);
        ptr::<u64>(m, "u64", 8, false);
        ptr::<i8>(m, "i8", 1, true);
        ptr::<i16>(m, "i16", 2, true);
        ptr::<i32>(m, "i32", 4, true);
        ptr::<i64>(m, "i64", 8, true);
        ptr::<i128>(m, "i128", 16, true);
        for _ in 0..6 {
            punct(m);
        }
        let x = m.rng.next() as i64 >> m.rng.below(64);
        seek_from(m, x as i8, x as i8 as i64);
        seek_from(m, x as i16, x as i16 as i64);
        seek_from(m, x as i32, x as i32 as i64);
        seek_from(m, x, x);
        seek_from(m, x as i128, x);
        seek_from(m, x as u8, x as u8 as i64);
        seek_from(m, x as u16, x as u16 as i64);
        seek_from(m, x as u32, x as u32 as i64);
        seek_from(m, x as u64 >> 1, (x as u64 >> 1) as i64);
        seek_from(m, (x as u64 >> 1) as u128, (x as u64 >> 1) as i64);
        // what no i64 holds is as far away as an i64 can say, and never somewhere else
        let far = 1u64 << 63 | x as u64;
        seek_from(m, far, i64::MAX);
        let wide = (far as u128) << (1 + m.rng.below(63)) | m.rng.next() as u128;
        seek_from(m, wide, i64::MAX);
        seek_from(m, (wide >> 1) as i128, i64::MAX);
        seek_from(m, -((wide >> 1) as i128) - 2, i64::MIN);
    }
}
