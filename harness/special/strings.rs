use binread::{io::Cursor, BinRead, BinReaderExt, Endian, NullString, NullWideString, ReadOptions};
use std::num::{NonZeroU16, NonZeroU8};

fn opt(e: Endian) -> ReadOptions {
    let mut o = ReadOptions::default();
    o.endian = e;
    o
}

fn utf8ish(r: &mut Rng, long: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.below(9) {
        match r.below(9) {
            0 => v.extend("é".bytes()),
            1 => v.extend("漢".bytes()),
            2 => v.extend("😀".bytes()),
            3 => v.push(0xC3),
            4 => v.extend([0xE2, 0x82]),
            5 => v.extend([0xF0, 0x9F, 0x98]),
            6 => v.push(r.below(256) as u8),
            7 => v.extend(b"\"\\\n"),
            _ => v.push(65 + r.below(26) as u8),
        }
    }
    if r.below(20) == 0 {
        let most = if long && r.below(12) == 0 { 150_000 } else { 5000 };
        let n = r.below(most) as usize;
        v.extend((0..n).map(|i| 65 + (i % 50) as u8));
    }
    // a plain beginning of any length before what is above, and perhaps a plain end
    if r.below(3) == 0 {
        let n = r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000, 1024, 1025]);
        let mut w: Vec<u8> = (0..n).map(|i| 48 + (i % 70) as u8).collect();
        w.append(&mut v);
        v = w;
        if r.below(3) == 0 {
            let k = r.below(70) as usize;
            v.extend(std::iter::repeat(66).take(k));
        }
    }
    v.retain(|b| *b != 0);
    v
}

fn utf16ish(r: &mut Rng, long: bool) -> Vec<u16> {
    let mut v = Vec::new();
    for _ in 0..r.below(9) {
        match r.below(7) {
            0 => v.extend([0xD83D, 0xDE00]),
            1 => v.push(0xD83D),
            2 => v.push(0xDE00),
            3 => v.push(r.below(65536) as u16),
            4 => v.push(0xFEFF),
            5 => v.push(0x0100 * (1 + r.below(255) as u16)),
            _ => v.push(65 + r.below(26) as u16),
        }
    }
    if r.below(20) == 0 {
        let most = if long && r.below(12) == 0 { 150_000 } else { 3000 };
        let n = r.below(most) as usize;
        v.extend((0..n).map(|i| 65 + (i % 50) as u16));
    }
    if r.below(3) == 0 {
        let n = r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000]);
        let mut w: Vec<u16> = (0..n).map(|i| 48 + (i % 70) as u16).collect();
        w.append(&mut v);
        v = w;
        if r.below(3) == 0 {
            let k = r.below(70) as usize;
            v.extend(std::iter::repeat(66).take(k));
        }
    }
    v.retain(|b| *b != 0);
    v
}

fn monitor(m: &mut Mon) {
    for _ in 0..m.times(4000) {
        let v = utf8ish(&mut m.rng, m.div == 1);
        let lossy = String::from_utf8_lossy(&v).to_string();
        let strict = String::from_utf8(v.clone());
        m.state(format!("u8 len {} valid {}", v.len().min(12), strict.is_ok()));
        // as read
        let mut file = m.rng.bytes(0);
        let lead = m.rng.below(4) as usize;
        file.extend(std::iter::repeat(0).take(lead));
        file.extend(&v);
        file.push(0);
        let tail = m.rng.below(3) as usize;
        file.extend(m.rng.bytes(tail));
        let mut c = Cursor::new(file.clone());
        c.set_position(lead as u64);
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        let s = match m.panics(|| NullString::read_options(&mut c, &opt(e), ())) {
            Ok(Ok(s)) => s,
            x => {
                m.bad(format!("reading {:02x?}: {:?}", file, x));
                continue;
            }
        };
        m.eq(c.position(), (lead + v.len() + 1) as u64, || format!("position after {:02x?}", v));
        m.eq(s.0.clone(), v.clone(), || "content".into());
        m.eq((*s).clone(), v.clone(), || "deref".into());
        m.eq(s.len(), v.len(), || "len".into());
        m.eq(s.to_string(), lossy.clone(), || format!("to_string of {:02x?}", v));
        let text = s.clone().into_string();
        m.check(std::str::from_utf8(text.as_bytes()).is_ok(), || format!("into_string of {:02x?} is not UTF-8", v));
        m.eq(text, lossy.clone(), || format!("into_string of {:02x?}", v));
        m.eq(s.clone().into_string_lossless().ok(), strict.clone().ok(), || format!("into_string_lossless of {:02x?}", v));
        if let (Err(a), Err(b)) = (s.clone().into_string_lossless(), strict) {
            m.eq(a.into_bytes(), b.into_bytes(), || "bytes of the error".into());
        }
        m.eq(format!("{:?}", s), format!("NullString({:?})", lossy), || "Debug".into());
        m.eq(Vec::<u8>::from(s.clone()), v.clone(), || "Into<Vec<u8>>".into());
        let nz: Vec<NonZeroU8> = v.iter().map(|x| NonZeroU8::new(*x).unwrap()).collect();
        m.check(NullString::from(nz.clone()) == s, || "From<Vec<NonZeroU8>>".into());
        c.set_position(lead as u64);
        m.eq(c.read_type::<Vec<NonZeroU8>>(e).unwrap(), nz, || "Vec<NonZeroU8>".into());
        let mut other = v.clone();
        other.push(1);
        m.check(NullString(other) != s, || "PartialEq".into());
        // no terminator: an error, at any length, and never a partial value
        let mut c = Cursor::new(v.clone());
        let r = m.panics(|| NullString::read_options(&mut c, &opt(e), ()));
        m.check(matches!(r, Ok(Err(binread::Error::Io(ref x))) if x.kind() == binread::io::ErrorKind::UnexpectedEof), || format!("unterminated {:02x?}: {:?}", v, r));
        m.sample(format!("NullString {:02x?} -> {:?}", v, lossy));
    }
    for _ in 0..m.times(4000) {
        let v = utf16ish(&mut m.rng, m.div == 1);
        let lossy = String::from_utf16_lossy(&v);
        let strict = String::from_utf16(&v);
        m.state(format!("u16 len {} valid {}", v.len().min(12), strict.is_ok()));
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        let big = match e {
            Endian::Big => true,
            Endian::Little => false,
            Endian::Native => cfg!(target_endian = "big"),
        };
        let mut file = Vec::new();
        let lead = m.rng.below(4) as usize;
        file.extend(std::iter::repeat(0).take(lead));
        for x in v.iter().chain(std::iter::once(&0u16)) {
            file.extend(if big { x.to_be_bytes() } else { x.to_le_bytes() });
        }
        let whole = file.len();
        let tail = m.rng.below(3) as usize;
        file.extend(m.rng.bytes(tail));
        let mut c = Cursor::new(file.clone());
        c.set_position(lead as u64);
        let s = match m.panics(|| NullWideString::read_options(&mut c, &opt(e), ())) {
            Ok(Ok(s)) => s,
            x => {
                m.bad(format!("reading {:02x?}: {:?}", file, x));
                continue;
            }
        };
        m.eq(c.position(), whole as u64, || format!("position after {:04x?}", v));
        m.eq(s.0.clone(), v.clone(), || "wide content".into());
        m.eq((*s).clone(), v.clone(), || "wide deref".into());
        m.eq(s.to_string(), lossy.clone(), || format!("to_string of {:04x?}", v));
        m.eq(s.clone().into_string(), lossy.clone(), || format!("into_string of {:04x?}", v));
        m.eq(s.clone().into_string_lossless().ok(), strict.ok(), || format!("into_string_lossless of {:04x?}", v));
        m.eq(format!("{:?}", s), format!("NullWideString({:?})", lossy), || "wide Debug".into());
        m.eq(Vec::<u16>::from(s.clone()), v.clone(), || "Into<Vec<u16>>".into());
        let nz: Vec<NonZeroU16> = v.iter().map(|x| NonZeroU16::new(*x).unwrap()).collect();
        m.check(NullWideString::from(nz.clone()) == s, || "From<Vec<NonZeroU16>>".into());
        c.set_position(lead as u64);
        m.eq(c.read_type::<Vec<NonZeroU16>>(e).unwrap(), nz, || "Vec<NonZeroU16>".into());
        // cut anywhere before the end: an error
        let cut = lead + m.rng.below((whole - lead) as u64) as usize;
        let mut c = Cursor::new(file[..cut].to_vec());
        c.set_position(lead as u64);
        let r = m.panics(|| NullWideString::read_options(&mut c, &opt(e), ()));
        m.check(matches!(r, Ok(Err(binread::Error::Io(ref x))) if x.kind() == binread::io::ErrorKind::UnexpectedEof), || format!("cut {:02x?} at {}: {:?}", file, cut, r));
    }
}
