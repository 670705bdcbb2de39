use binread::{io::{Cursor, Read, Seek, SeekFrom}, BinRead, BinReaderExt, Endian, PosValue};

#[derive(BinRead, Debug, Clone, PartialEq)]
struct Pair {
    a: u8,
    b: u16,
}

/// A reader far into a large file.
struct Far(Cursor<Vec<u8>>, u64);

impl Far {
    fn new(data: Vec<u8>, base: u64) -> Far {
        Far(Cursor::new(data), base)
    }
    fn set_position(&mut self, p: u64) {
        self.0.set_position(p - self.1)
    }
    fn position(&self) -> u64 {
        self.0.position() + self.1
    }
}

impl binread::io::Read for Far {
    fn read(&mut self, b: &mut [u8]) -> binread::io::Result<usize> {
        self.0.read(b)
    }
}

impl binread::io::Seek for Far {
    fn seek(&mut self, p: SeekFrom) -> binread::io::Result<u64> {
        let p = match p {
            SeekFrom::Start(x) => SeekFrom::Start(x.wrapping_sub(self.1)),
            x => x,
        };
        Ok(self.0.seek(p)? + self.1)
    }
}

fn base(m: &mut Mon) -> u64 {
    m.rng.pick(&[0, 0, 200, 65530, 0x7fff_fff0, 0xffff_fff8, 1 << 32, (1 << 40) + 5, (1 << 62) + 1, (1 << 63) - 120])
}

fn one<T>(m: &mut Mon, name: &str, e: Endian)
where
    T: BinRead<Args = ()> + std::fmt::Debug + Clone + PartialEq,
{
    let far = base(m);
    let lead = far + m.rng.below(20);
    let data = m.rng.bytes(64);
    let mut c = Far::new(data.clone(), far);
    c.set_position(lead);
    let plain: T = match c.read_type(e) {
        Ok(x) => x,
        Err(_) => return,
    };
    let end = c.position();
    c.set_position(lead);
    let mut p: PosValue<T> = match c.read_type(e) {
        Ok(x) => x,
        Err(x) => return m.bad(format!("{}: {:?}", name, x)),
    };
    m.state(format!("{} at {}", name, lead));
    m.eq(c.position(), end, || format!("{}: position", name));
    m.eq(p.pos, lead, || format!("{}: recorded position", name));
    m.check(p.val == plain && *p == plain, || format!("{}: value {:?} instead of {:?}", name, p.val, plain));
    m.check(p == plain, || format!("{}: equality with the value", name));
    m.eq(format!("{:?}", p), format!("{:?}", plain), || "Debug".into());
    m.eq(format!("{:#?}", p), format!("{:#?}", plain), || "alternate Debug".into());
    let q = p.clone();
    m.check(q.pos == lead && q.val == plain, || format!("{}: clone", name));
    // changed through DerefMut
    let at = far + m.rng.below(30);
    c.set_position(at);
    if let Ok(other) = c.read_type::<T>(e) {
        *p = other.clone();
        m.check(p.val == other && p.pos == lead, || format!("{}: DerefMut", name));
        m.check((p == plain) == (other == plain), || format!("{}: inequality", name));
        m.check(q.val == plain, || format!("{}: the clone is separate", name));
    }
}

fn monitor(m: &mut Mon) {
    for i in 0..m.times(600) {
        let e = m.rng.pick(&[Endian::Big, Endian::Little, Endian::Native]);
        one::<u8>(m, "u8", e);
        one::<u16>(m, "u16", e);
        one::<i32>(m, "i32", e);
        one::<u64>(m, "u64", e);
        one::<u128>(m, "u128", e);
        one::<[u16; 3]>(m, "[u16; 3]", e);
        one::<(u8, u32)>(m, "(u8, u32)", e);
        one::<Pair>(m, "Pair", e);
        one::<Option<u16>>(m, "Option<u16>", e);
        one::<Box<u16>>(m, "Box<u16>", e);
        one::<binread::NullString>(m, "NullString", e);
        // nested positions, and every element of an array has its own
        let far = base(m);
        let lead = far + m.rng.below(9);
        let mut c = Far::new(m.rng.bytes(64), far);
        c.set_position(lead);
        let xs: (PosValue<u16>, PosValue<u16>, PosValue<u16>, PosValue<u16>, PosValue<u16>) = c.read_type(e).unwrap();
        let xs = [xs.0, xs.1, xs.2, xs.3, xs.4];
        m.eq(xs.iter().map(|x| x.pos).collect::<Vec<_>>(), (0..5).map(|i| lead + 2 * i).collect(), || "array".into());
        c.set_position(lead);
        let n: (u8, PosValue<PosValue<u32>>, PosValue<()>) = c.read_type(e).unwrap();
        m.eq((n.1.pos, n.1.val.pos, n.2.pos), (lead + 1, lead + 1, lead + 5), || "nested".into());
        // a read that fails gives no value
        let have = m.rng.below(4) as usize;
        let mut c = Cursor::new(m.rng.bytes(have));
        m.check(c.read_type::<PosValue<u32>>(e).is_err(), || "truncated".into());
        if i < 2 {
            m.sample(format!("{:?} at {}", xs[0], xs[0].pos));
        }
    }
}
