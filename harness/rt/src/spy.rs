//! Types with a hand-written `BinRead` which record what they were given.
use super::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seen {
    pub endian: u8,
    pub offset: u64,
    pub count: Option<usize>,
    pub args: u64,
}

pub fn endian_code(e: Endian) -> u8 {
    match e {
        Endian::Big => 0,
        Endian::Little => 1,
        _ => 2,
    }
}

impl Seen {
    fn new(o: &ReadOptions, args: u64) -> Self {
        Seen { endian: endian_code(o.endian), offset: o.offset, count: o.count, args }
    }
    fn dump(&self, o: &mut String) {
        write!(o, "{}/{}/", self.endian, self.offset).unwrap();
        match self.count {
            Some(c) => write!(o, "{}", c).unwrap(),
            None => o.push('-'),
        }
        write!(o, "/{}", self.args).unwrap();
    }
}

/// Reads one byte and records the options it saw when it was read and when it
/// was postprocessed. A byte of 0xEE makes the postprocessing fail.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SpyOf<const A: usize> {
    pub byte: u8,
    pub read: Seen,
    pub after: Vec<Seen>,
}

pub type Spy = SpyOf<0>;
pub type Spy1 = SpyOf<1>;
pub type Spy2 = SpyOf<2>;

macro_rules! spies {
    ($($n:literal, $args:ty, |$a:ident| $e:expr;)*) => {
        $(impl BinRead for SpyOf<$n> {
            type Args = $args;
            fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, $a: $args) -> BinResult<Self> {
                let mut b = [0u8; 1];
                r.read_exact(&mut b)?;
                Ok(SpyOf { byte: b[0], read: Seen::new(o, $e), after: Vec::new() })
            }
            fn after_parse<R: Read + Seek>(&mut self, _: &mut R, o: &ReadOptions, $a: $args) -> BinResult<()> {
                ev(9000, self.byte as u64);
                self.after.push(Seen::new(o, $e));
                if self.byte == 0xEE {
                    return Err(Error::Custom { pos: 0, err: Box::new(CustomE(9000, 0xEE)) });
                }
                Ok(())
            }
        })*
    }
}
spies! {
    0, (), |_a| 0;
    1, (u32,), |a| a.0 as u64;
    2, (u8, u16), |a| (a.0 as u64) << 16 | a.1 as u64;
}

impl<const A: usize> Dump for SpyOf<A> {
    fn dump(&self, o: &mut String) {
        write!(o, "y({},", self.byte).unwrap();
        self.read.dump(o);
        for a in &self.after {
            o.push('+');
            a.dump(o);
        }
        o.push(')');
    }
}

/// Counts how many values are alive.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static MADE: AtomicI64 = AtomicI64::new(0);
pub static BAD_DROP: AtomicI64 = AtomicI64::new(0);

const ALIVE: u32 = 0xA11F_E000;

#[derive(Debug)]
pub struct Tracked<T> {
    pub val: T,
    mark: u32,
    boxed: Box<u32>,
}
impl<T> Tracked<T> {
    pub fn new(val: T) -> Self {
        LIVE.fetch_add(1, SeqCst);
        MADE.fetch_add(1, SeqCst);
        Tracked { val, mark: ALIVE, boxed: Box::new(ALIVE) }
    }
}
impl<T: Default> Default for Tracked<T> {
    fn default() -> Self {
        Tracked::new(T::default())
    }
}
impl<T> Drop for Tracked<T> {
    fn drop(&mut self) {
        if self.mark != ALIVE || *self.boxed != ALIVE {
            BAD_DROP.fetch_add(1, SeqCst);
        }
        self.mark = 0;
        LIVE.fetch_sub(1, SeqCst);
    }
}
impl<T: BinRead> BinRead for Tracked<T> {
    type Args = T::Args;
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, a: T::Args) -> BinResult<Self> {
        let val = T::read_options(r, o, a)?;
        Ok(Tracked::new(val))
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, a: T::Args) -> BinResult<()> {
        self.val.after_parse(r, o, a)
    }
}
impl<T: Dump> Dump for Tracked<T> {
    fn dump(&self, o: &mut String) {
        self.val.dump(o)
    }
}
