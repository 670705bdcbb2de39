// What containers do with their elements, for elements of several sizes: each is read once, in
// order, and gets its second stage once, in order, with the options and arguments of the container.
use binread::{
    io::{Cursor, Read, Seek, SeekFrom},
    BinRead, BinResult, Endian, Error, PosValue, ReadOptions,
};
use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq)]
struct Call {
    second: bool,
    big: bool,
    offset: u64,
    count: Option<usize>,
    args: u64,
    at: u64,
    value: Option<u64>,
}

thread_local! {
    static CALLS: RefCell<Vec<Call>> = RefCell::new(Vec::new());
    /// the calls of each stage which fail
    static FAIL: RefCell<(u64, u64)> = RefCell::new((0, 0));
}

fn log<R: Read + Seek>(r: &mut R, second: bool, o: &ReadOptions, args: u64, value: Option<u64>) -> BinResult<()> {
    let at = r.seek(SeekFrom::Current(0))?;
    let n = CALLS.with(|l| {
        let mut l = l.borrow_mut();
        l.push(Call { second, big: o.endian == Endian::Big, offset: o.offset, count: o.count, args, at, value });
        l.iter().filter(|c| c.second == second).count() as u64
    });
    let bad = FAIL.with(|f| if second { f.borrow().1 } else { f.borrow().0 });
    if n == bad {
        return Err(Error::Custom { pos: at, err: Box::new((second, n)) });
    }
    Ok(())
}

trait Elem: BinRead + Sized {
    fn seen(&self) -> Option<u64>;
    fn args(n: u64) -> Self::Args;
}

macro_rules! elem {
    ($name:ident, $args:ty, |$n:ident| $mk_args:expr, |$a:ident| $un_args:expr, $body:tt, |$b:ident| $mk:expr, |$s:ident| $get:expr) => {
        #[derive(Clone, Default, Debug)]
        struct $name $body;
        impl Elem for $name {
            fn seen(&self) -> Option<u64> { let $s = self; $get }
            fn args($n: u64) -> $args { $mk_args }
        }
        impl BinRead for $name {
            type Args = $args;
            fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, $a: $args) -> BinResult<Self> {
                let mut x = [0u8];
                let args = $un_args;
                log(r, false, o, args, None)?;
                r.read_exact(&mut x)?;
                let $b = x[0];
                Ok($mk)
            }
            fn after_parse<R: Read + Seek>(&mut self, r: &mut R, o: &ReadOptions, $a: $args) -> BinResult<()> {
                let args = $un_args;
                log(r, true, o, args, self.seen())
            }
        }
    };
}

elem!(Nothing, (), |_n| (), |_a| 0, (), |_b| Nothing(), |_s| None);
elem!(NothingArg, u8, |n| n as u8, |a| a as u64, (), |_b| NothingArg(), |_s| None);
elem!(Tiny, (), |_n| (), |_a| 0, (u8), |b| Tiny(b), |s| Some(s.0 as u64));
elem!(TinyArg, (u8,), |n| (n as u8,), |a| a.0 as u64, (u8), |b| TinyArg(b), |s| Some(s.0 as u64));
elem!(Half, u16, |n| n as u16 & 255, |a| a as u64, (u16), |b| Half(b as u16), |s| Some(s.0 as u64));
elem!(Word, (u8, u8), |n| (n as u8, 3), |a| a.0 as u64 + a.1 as u64 - 3, (u32), |b| Word(b as u32), |s| Some(s.0 as u64));
elem!(Long, (), |_n| (), |_a| 0, (u64), |b| Long(b as u64), |s| Some(s.0));
elem!(Wide, u8, |n| n as u8, |a| a as u64, ([u64; 5]), |b| Wide([b as u64; 5]), |s| Some(s.0[4]));
elem!(Heap, u64, |n| n & 255, |a| a, (Vec<u8>), |b| Heap(vec![b]), |s| Some(s.0[0] as u64));

/// The values inside of a container.
trait Inside {
    fn inside(&self, out: &mut Vec<Option<u64>>);
}
macro_rules! inside {
    ($($t:ty)*) => {$(impl Inside for $t { fn inside(&self, out: &mut Vec<Option<u64>>) { out.push(self.seen()) } })*};
}
inside!(Nothing NothingArg Tiny TinyArg Half Word Long Wide Heap);
impl<T: Inside> Inside for Vec<T> {
    fn inside(&self, out: &mut Vec<Option<u64>>) {
        self.iter().for_each(|x| x.inside(out))
    }
}
impl<T: Inside, const N: usize> Inside for [T; N] {
    fn inside(&self, out: &mut Vec<Option<u64>>) {
        self.iter().for_each(|x| x.inside(out))
    }
}
impl<T: Inside> Inside for Option<T> {
    fn inside(&self, out: &mut Vec<Option<u64>>) {
        self.as_ref().unwrap().inside(out)
    }
}
impl<T: Inside> Inside for Box<T> {
    fn inside(&self, out: &mut Vec<Option<u64>>) {
        (**self).inside(out)
    }
}
impl<T: Inside> Inside for PosValue<T> {
    fn inside(&self, out: &mut Vec<Option<u64>>) {
        self.val.inside(out)
    }
}
macro_rules! inside_tuple {
    ($($t:ident)+) => { impl<$($t: Inside),+> Inside for ($($t,)+) {
        #[allow(non_snake_case)]
        fn inside(&self, out: &mut Vec<Option<u64>>) { let ($($t,)+) = self; $($t.inside(out);)+ }
    } };
}
inside_tuple!(A);
inside_tuple!(A B);
inside_tuple!(A B C);
inside_tuple!(A B C D);
inside_tuple!(A B C D E);
inside_tuple!(A B C D E F G H);

/// counts: whether the container takes the count for itself
fn nest<T: BinRead + Inside>(m: &mut Mon, name: &str, n: usize, count: Option<usize>, args: impl Fn(u64) -> T::Args)
where
    T::Args: Clone,
{
    if !m.take() {
        return;
    }
    for round in 0..3 {
        let big = m.rng.below(2) == 0;
        let base = m.rng.below(1 << 40);
        let lead = m.rng.below(5);
        let a = m.rng.below(200);
        let zero_arg = std::any::type_name::<T::Args>() == "()";
        let want_args = if zero_arg { 0 } else { a };
        let data = m.rng.bytes(lead as usize + n + 3);
        let mut o = ReadOptions::default();
        o.endian = if big { Endian::Big } else { Endian::Little };
        o.offset = base;
        o.count = count.or_else(|| if m.rng.below(2) == 0 { Some(m.rng.below(9) as usize) } else { None });
        let (f1, f2) = match round {
            1 if n > 0 => (1 + m.rng.below(n as u64), 0),
            2 if n > 0 => (0, 1 + m.rng.below(n as u64)),
            _ => (0, 0),
        };
        let _ = CALLS.with(|l| l.take());
        FAIL.with(|f| f.replace((f1, f2)));
        let mut c = Cursor::new(&data);
        c.set_position(lead);
        let a_ = args(a);
        let r = T::read_options(&mut c, &o, a_.clone()).and_then(|mut v| {
            let at = c.position();
            v.after_parse(&mut c, &o, a_).map(|_| (v, at))
        });
        let calls = CALLS.with(|l| l.take());
        let what = || format!("{} (fails {:?}) made {:?}", name, (f1, f2), calls);
        match &r {
            Ok((v, at)) => {
                m.check(f1 == 0 && f2 == 0, || format!("the failure of an element is lost: {}", what()));
                let mut got = Vec::new();
                v.inside(&mut got);
                m.check(got.len() == n && got.iter().zip(&data[lead as usize..]).all(|(x, y)| x.map_or(true, |x| x == *y as u64)), || {
                    format!("{} holds {:?}, read from {:x?} at {}", name, got, data, lead)
                });
                m.eq(*at, lead + n as u64, || format!("position behind {}", name));
                m.eq(c.position(), lead + n as u64, || format!("position behind the second stage of {}", name));
            }
            Err(Error::Custom { err, .. }) => {
                let w = if f1 > 0 { (false, f1) } else { (true, f2) };
                m.check((f1 > 0 || f2 > 0) && err.downcast_ref::<(bool, u64)>() == Some(&w), || format!("another failure: {}", what()));
            }
            Err(e) => m.bad(format!("{}: {:?}", name, e)),
        }
        let (mut k1, mut k2) = (0usize, 0usize);
        let mut ok = true;
        for c in &calls {
            ok &= c.big == big && c.offset == base && c.args == want_args;
            if count.is_none() {
                ok &= c.count == o.count;
            }
            if c.second {
                // never before its own first stage
                ok &= k2 < k1 && c.value.map_or(true, |v| data.get(lead as usize + k2).map_or(false, |d| *d as u64 == v));
                k2 += 1;
            } else {
                ok &= c.at == lead + k1 as u64;
                k1 += 1;
            }
        }
        m.check(ok, || format!("an element is read out of order, or with other options than big {} offset {} count {:?} args {}: {}", big, base, o.count, want_args, what()));
        if f1 > 0 {
            m.check(k1 as u64 == f1, || format!("goes on after a failure: {}", what()));
        } else if f2 > 0 {
            m.check(k2 as u64 == f2, || format!("goes on after a failure of a second stage: {}", what()));
        } else {
            m.check(k1 == n && k2 == n, || format!("{} elements, {} and {} stages: {}", n, k1, k2, what()));
        }
        m.state(format!("{} {} {}", name, round, big));
    }
}

macro_rules! arrays {
    ($m:ident; $($n:literal)*) => {$(
        nest::<[Nothing; $n]>($m, concat!("[Nothing; ", $n, "]"), $n, None, Nothing::args);
        nest::<[NothingArg; $n]>($m, concat!("[NothingArg; ", $n, "]"), $n, None, NothingArg::args);
        nest::<[Tiny; $n]>($m, concat!("[Tiny; ", $n, "]"), $n, None, Tiny::args);
        nest::<[TinyArg; $n]>($m, concat!("[TinyArg; ", $n, "]"), $n, None, TinyArg::args);
        nest::<[Half; $n]>($m, concat!("[Half; ", $n, "]"), $n, None, Half::args);
        nest::<[Word; $n]>($m, concat!("[Word; ", $n, "]"), $n, None, Word::args);
        nest::<[Long; $n]>($m, concat!("[Long; ", $n, "]"), $n, None, Long::args);
        nest::<[Wide; $n]>($m, concat!("[Wide; ", $n, "]"), $n, None, Wide::args);
        nest::<[Heap; $n]>($m, concat!("[Heap; ", $n, "]"), $n, None, Heap::args);
    )*};
}

macro_rules! wrapped {
    ($m:ident; $($t:ident)*) => {$(
        nest::<$t>($m, stringify!($t), 1, None, $t::args);
        nest::<Box<$t>>($m, concat!("Box ", stringify!($t)), 1, None, $t::args);
        nest::<Option<$t>>($m, concat!("Option ", stringify!($t)), 1, None, $t::args);
        nest::<PosValue<$t>>($m, concat!("PosValue ", stringify!($t)), 1, None, $t::args);
        nest::<Box<Option<$t>>>($m, concat!("Box Option ", stringify!($t)), 1, None, $t::args);
        nest::<Option<PosValue<Box<$t>>>>($m, concat!("Option PosValue Box ", stringify!($t)), 1, None, $t::args);
        nest::<[[$t; 3]; 2]>($m, concat!("[[_; 3]; 2] ", stringify!($t)), 6, None, $t::args);
        nest::<[[$t; 0]; 2]>($m, concat!("[[_; 0]; 2] ", stringify!($t)), 0, None, $t::args);
        nest::<[Option<$t>; 4]>($m, concat!("[Option; 4] ", stringify!($t)), 4, None, $t::args);
        nest::<Box<[$t; 5]>>($m, concat!("Box [_; 5] ", stringify!($t)), 5, None, $t::args);
        for k in [0usize, 1, 2, 7, 30] {
            nest::<Vec<$t>>($m, &format!("Vec {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<Vec<Box<$t>>>($m, &format!("Vec Box {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<Box<Vec<$t>>>($m, &format!("Box Vec {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<Option<Vec<$t>>>($m, &format!("Option Vec {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<PosValue<Vec<$t>>>($m, &format!("PosValue Vec {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<Vec<PosValue<$t>>>($m, &format!("Vec PosValue {} {}", stringify!($t), k), k, Some(k), $t::args);
            nest::<Vec<[$t; 3]>>($m, &format!("Vec [_; 3] {} {}", stringify!($t), k), 3 * k, Some(k), $t::args);
            nest::<[Vec<$t>; 3]>($m, &format!("[Vec; 3] {} {}", stringify!($t), k), 3 * k, Some(k), $t::args);
        }
    )*};
}

fn tuples(m: &mut Mon) {
    nest::<(Tiny,)>(m, "(1)", 1, None, |_| ());
    nest::<(Tiny, Nothing)>(m, "(2)", 2, None, |_| ());
    nest::<(Nothing, Tiny)>(m, "(2)'", 2, None, |_| ());
    nest::<(Long, Tiny, Long)>(m, "(3)", 3, None, |_| ());
    nest::<(Tiny, Long, Nothing, Tiny)>(m, "(4)", 4, None, |_| ());
    nest::<(Tiny, Tiny, Tiny, Tiny, Tiny)>(m, "(5)", 5, None, |_| ());
    nest::<(Tiny, Long, Tiny, Nothing, Long, Tiny, Nothing, Tiny)>(m, "(8)", 8, None, |_| ());
    nest::<((Tiny, Long), [Tiny; 3], Box<Long>)>(m, "((2), [3], Box)", 6, None, |_| ());
    nest::<[(Tiny, Long); 3]>(m, "[(2); 3]", 6, None, |_| ());
    nest::<Vec<(Long, Tiny)>>(m, "Vec (2)", 8, Some(4), |_| ());
    nest::<(Vec<Tiny>, Vec<Long>)>(m, "(Vec, Vec)", 6, Some(3), |_| ());
    nest::<PosValue<(Tiny, Option<Nothing>)>>(m, "PosValue (2)", 2, None, |_| ());
}

fn all(m: &mut Mon) {
    for _ in 0..m.times(12) {
        arrays!(m; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        wrapped!(m; Nothing NothingArg Tiny TinyArg Half Word Long Wide Heap);
        tuples(m);
    }
}
