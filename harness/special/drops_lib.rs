use binread::io::{self, Cursor, Read, Seek};
use binread::punctuated::Punctuated;
use binread::{BinRead, BinReaderExt, BinResult, Endian, Error, FilePtr8, PosValue, ReadOptions};
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Default)]
struct Book {
    /// 1 alive, 2 dropped; the index is the identity
    state: Vec<u8>,
    wrong: Vec<String>,
    /// position and stage of every call
    calls: Vec<(u8, u64)>,
    reads: usize,
    afters: usize,
    /// stage, number of the call, error or panic
    script: Option<(u8, usize, bool)>,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}

fn born() -> usize {
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.state.push(1);
        b.state.len() - 1
    })
}
fn gone(id: usize) {
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        match b.state.get(id).copied() {
            Some(1) => b.state[id] = 2,
            x => b.wrong.push(format!("{} dropped in state {:?}", id, x)),
        }
    })
}
fn called<R: Read + Seek>(stage: u8, r: &mut R) -> BinResult<()> {
    let pos = r.seek(io::SeekFrom::Current(0)).unwrap();
    let s = BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.calls.push((stage, pos));
        let n = if stage == 0 { &mut b.reads } else { &mut b.afters };
        *n += 1;
        let n = *n - 1;
        match b.script {
            Some((st, k, how)) if st == stage && k == n => Some(how),
            _ => None,
        }
    });
    match s {
        Some(true) => panic!("element"),
        Some(false) => Err(Error::Custom { pos, err: Box::new(rt::CustomE(7, pos)) }),
        None => Ok(()),
    }
}

macro_rules! element {
    ($t:ident) => {
        #[derive(Debug)]
        struct $t {
            id: usize,
            val: u8,
            heap: Box<u8>,
        }
        impl Drop for $t {
            fn drop(&mut self) {
                if *self.heap != self.val {
                    BOOK.with(|b| b.borrow_mut().wrong.push("contents".into()));
                }
                gone(self.id)
            }
        }
        impl BinRead for $t {
            type Args = ();
            fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
                called(0, r)?;
                let val = u8::read_options(r, o, ())?;
                Ok($t { id: born(), val, heap: Box::new(val) })
            }
            fn after_parse<R: Read + Seek>(&mut self, r: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> {
                if BOOK.with(|b| b.borrow().state.get(self.id).copied()) != Some(1) || *self.heap != self.val {
                    BOOK.with(|b| b.borrow_mut().wrong.push("second stage of an element which is not alive".into()));
                }
                called(1, r)
            }
        }
        impl Els for $t {
            fn els(&self, o: &mut Vec<u8>) {
                if BOOK.with(|b| b.borrow().state.get(self.id).copied()) != Some(1) {
                    BOOK.with(|b| b.borrow_mut().wrong.push("a dead element in the result".into()));
                }
                o.push(self.val)
            }
        }
    };
}
element!(El);
element!(Bare);
impl Default for El {
    fn default() -> Self {
        El { id: born(), val: 0, heap: Box::new(0) }
    }
}

/// Zero-sized, and counted all the same.
#[derive(Debug)]
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        BOOK.with(|b| {
            let mut b = b.borrow_mut();
            match b.state.iter().position(|x| *x == 1) {
                Some(i) => b.state[i] = 2,
                None => b.wrong.push("one drop too many".into()),
            }
        })
    }
}
impl BinRead for Zst {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<Self> {
        called(0, r)?;
        u8::read_options(r, o, ())?;
        born();
        Ok(Zst)
    }
    fn after_parse<R: Read + Seek>(&mut self, r: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> {
        called(1, r)
    }
}
impl Els for Zst {
    fn els(&self, o: &mut Vec<u8>) {
        o.push(0)
    }
}

trait Els {
    fn els(&self, o: &mut Vec<u8>);
    /// bytes which are no elements
    const NOISE: bool = false;
    /// the elements are read in the second stage
    const LATE: bool = false;
}
impl<T: Els, const N: usize> Els for [T; N] {
    fn els(&self, o: &mut Vec<u8>) {
        self.iter().for_each(|x| x.els(o))
    }
}
impl<T: Els> Els for Vec<T> {
    fn els(&self, o: &mut Vec<u8>) {
        self.iter().for_each(|x| x.els(o))
    }
}
impl<T: Els> Els for VecDeque<T> {
    fn els(&self, o: &mut Vec<u8>) {
        self.iter().for_each(|x| x.els(o))
    }
}
impl<T: Els> Els for Box<T> {
    fn els(&self, o: &mut Vec<u8>) {
        (**self).els(o)
    }
}
impl<T: Els> Els for Option<T> {
    fn els(&self, o: &mut Vec<u8>) {
        self.iter().for_each(|x| x.els(o))
    }
}
impl<T: Els> Els for PosValue<T> {
    fn els(&self, o: &mut Vec<u8>) {
        (**self).els(o)
    }
}
impl<T: Els + BinRead, P: Els + BinRead> Els for Punctuated<T, P> {
    fn els(&self, o: &mut Vec<u8>) {
        let n = self.len();
        for i in 0..n {
            self[i].els(o);
            if i < self.seperators.len() {
                self.seperators[i].els(o)
            }
        }
    }
}
macro_rules! tuple {
    ($($t:ident)*) => {
        #[allow(non_snake_case)]
        impl<$($t: Els),*> Els for ($($t,)*) {
            fn els(&self, o: &mut Vec<u8>) { let ($($t,)*) = self; $($t.els(o);)* }
        }
    };
}
tuple!(P0);
tuple!(P0 P1);
tuple!(P0 P1 P2);
tuple!(P0 P1 P2 P3 P4 P5);

#[derive(BinRead, Debug)]
struct Fields {
    a: Bare,
    #[br(count = 2)]
    b: Vec<Bare>,
    c: (Bare, Bare),
    d: Box<Bare>,
}
impl Els for Fields {
    fn els(&self, o: &mut Vec<u8>) {
        self.a.els(o);
        self.b.els(o);
        self.c.els(o);
        self.d.els(o);
    }
}

#[derive(BinRead, Debug)]
struct Lists {
    #[br(count = 2, parse_with = Punctuated::separated)]
    a: Punctuated<Bare, Bare>,
    #[br(count = 2, parse_with = Punctuated::separated_trailing)]
    b: Punctuated<Bare, Bare>,
    #[br(parse_with = binread::helpers::count(3))]
    c: VecDeque<Bare>,
}
impl Els for Lists {
    fn els(&self, o: &mut Vec<u8>) {
        self.a.els(o);
        self.b.els(o);
        self.c.els(o);
    }
}

#[derive(BinRead, Debug)]
struct Until {
    #[br(parse_with = binread::until_eof)]
    a: Vec<Bare>,
}
impl Els for Until {
    fn els(&self, o: &mut Vec<u8>) {
        self.a.els(o);
    }
}

#[binread::derive_binread]
#[derive(Debug)]
struct Temps {
    a: Bare,
    #[br(temp)]
    t: Bare,
    #[br(temp, if(t.val != 255 || true))]
    u: Option<Bare>,
    #[br(map = |x: Bare| { let y: u8 = x.val; drop(x); y })]
    b: u8,
    c: Bare,
}
impl Els for Temps {
    fn els(&self, o: &mut Vec<u8>) {
        self.a.els(o);
        o.push(self.b);
        self.c.els(o);
    }
}

/// Variants which fail after having read elements.
#[derive(BinRead, Debug)]
enum Alts {
    #[br(assert(false))]
    A(#[br(count = 3)] Vec<Bare>, Bare),
    #[br(assert(_y.val == 1 && _y.val == 2))]
    B { _x: Bare, _y: Bare },
    C(Bare, [u8; 0], Box<Bare>),
}
impl Els for Alts {
    fn els(&self, o: &mut Vec<u8>) {
        match self {
            Alts::C(a, _, b) => {
                a.els(o);
                b.els(o)
            }
            _ => o.push(0xEE),
        }
    }
}

#[derive(BinRead, Debug)]
struct Tries {
    #[br(try)]
    a: Option<Fails>,
    #[br(try)]
    b: Option<(Bare, Bare)>,
    c: Bare,
}
#[derive(BinRead, Debug)]
#[br(assert(false))]
struct Fails {
    a: Bare,
    #[br(count = 2)]
    b: Vec<Bare>,
}

fn reset(script: Option<(u8, usize, bool)>) {
    BOOK.with(|b| *b.borrow_mut() = Book { script, ..Default::default() })
}

/// After the end: how many were made, and whether all is well.
fn audit(m: &mut Mon, what: &dyn Fn() -> String) -> (usize, usize, usize) {
    BOOK.with(|b| {
        let b = b.borrow();
        let alive = b.state.iter().filter(|x| **x == 1).count();
        m.count("elements_made", b.state.len() as u64);
        m.check(alive == 0, || format!("{}: {} of {} elements are never dropped", what(), alive, b.state.len()));
        m.check(b.wrong.is_empty(), || format!("{}: {:?}", what(), b.wrong));
        (b.state.len(), b.reads, b.afters)
    })
}

fn case<T: BinRead<Args = ()> + Els>(m: &mut Mon, name: &str, n: usize, count: Option<usize>) {
    let mut data = m.rng.bytes(n);
    data.push(0);
    let zst = name.contains("Zst");
    let several = name.contains("<Fields>") || name.contains("[Fields") || name == "Lists" || name == "Until";
    let lead = m.rng.below(4) as usize;
    let mut all = m.rng.bytes(lead);
    all.extend_from_slice(&data[..n]);
    let mut options = ReadOptions::default();
    options.count = count;
    options.endian = Endian::Big;
    let mut scripts: Vec<(Option<(u8, usize, bool)>, usize)> = vec![(None, n)];
    let mut ks: Vec<usize> = (0..n).collect();
    if ks.len() > 24 {
        ks = (0..24).map(|i| if i == 0 { 0 } else if i == 1 { n - 1 } else { m.rng.below(n as u64) as usize }).collect();
    }
    for &k in &ks {
        for how in [false, true] {
            scripts.push((Some((0, k, how)), n));
            scripts.push((Some((1, k, how)), n));
        }
        if !name.contains("Until") {
            scripts.push((None, k));
        }
    }
    for (script, len) in scripts {
        if !m.take() {
            continue;
        }
        let what = || format!("{} with {:?} on {} of {} bytes", name, script, len, n);
        reset(script);
        let mut c = Cursor::new(all[..lead + len].to_vec());
        c.set_position(lead as u64);
        let r = m.panics(|| {
            let mut v = T::read_options(&mut c, &options, ())?;
            let reads = BOOK.with(|b| b.borrow().reads);
            v.after_parse(&mut c, &options, ())?;
            Ok::<_, Error>((v, reads))
        });
        let kind = match &r {
            Ok(Ok(_)) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 2,
        };
        let want = match script {
            None if len == n => 0,
            None => 1,
            Some((_, _, false)) => 1,
            Some((_, _, true)) => 2,
        };
        m.eq(kind, want, || what());
        if let Ok(Ok((v, _))) = &r {
            let mut got = vec![];
            v.els(&mut got);
            let want = if zst { vec![0; n] } else { data[..n].to_vec() };
            m.eq(got, want, || format!("{}: elements", what()));
            let alive = BOOK.with(|b| b.borrow().state.iter().filter(|x| **x == 1).count());
            m.eq(alive, n, || format!("{}: elements alive with the result", what()));
        }
        if let Ok(Err(e)) = &r {
            match script {
                Some(_) => m.check(e.custom_err::<rt::CustomE>() == Some(&rt::CustomE(7, match e { Error::Custom { pos, .. } => *pos, _ => 0 })), || format!("{}: {:?}", what(), e)),
                None => m.check(matches!(e, Error::Io(e) if e.kind() == io::ErrorKind::UnexpectedEof), || format!("{}: {:?}", what(), e)),
            }
        }
        drop(r);
        let (_, reads, afters) = audit(m, &what);
        let want = match script {
            None if len == n => (n, n),
            None if several => (len + 1, afters),
            None => (len + 1, 0),
            Some((0, k, _)) if several => (k + 1, afters),
            Some((0, k, _)) => (k + 1, 0),
            // derived types complete their second stage before the next one is read
            Some((_, k, _)) if several => (reads, k + 1),
            Some((_, k, _)) => (n, k + 1),
        };
        // how the end is noticed is not fixed
        let reads = if name == "Until" { want.0 } else { reads };
        m.eq((reads, afters), want, || format!("{}: calls of the elements", what()));
        BOOK.with(|b| {
            let calls = &b.borrow().calls;
            let pos: Vec<u64> = calls.iter().filter(|c| c.0 == 0).map(|c| c.1).collect();
            let w: Vec<u64> = (0..pos.len() as u64).map(|i| lead as u64 + i).collect();
            if pos != w {
                m.bad(format!("{}: elements read at {:?}", what(), pos));
            }
        });
        m.state(format!("{} {:?} {}", name, script, len));
    }
}

/// Programs in which some elements are made and thrown away again.
fn free<T: BinRead<Args = ()>>(m: &mut Mon, name: &str, most: usize) {
    for stage in 0..2u8 {
        for k in 0..=most {
            for how in [false, true] {
                for len in [most, m.rng.below(most as u64 + 1) as usize] {
                    if !m.take() {
                        continue;
                    }
                    let script = if k == most { None } else { Some((stage, k, how)) };
                    let what = || format!("{} with {:?} on {} bytes", name, script, len);
                    reset(script);
                    let data = m.rng.bytes(len);
                    let mut c = Cursor::new(data);
                    let r = m.panics(|| c.read_be::<T>());
                    let ok = matches!(r, Ok(Ok(_)));
                    if matches!(r, Err(_)) && !matches!(script, Some((_, _, true))) {
                        m.bad(format!("{}: panic", what()));
                    }
                    drop(r);
                    audit(m, &what);
                    m.state(format!("{} {:?} {} {}", name, script, len, ok));
                }
            }
        }
    }
}

fn common(m: &mut Mon) {
    m.sample("containers of counting elements: a failure or panic at every read and at every second-stage call".into());
    for _ in 0..m.scale {
        case::<El>(m, "El", 1, None);
        case::<[El; 0]>(m, "[El; 0]", 0, None);
        case::<[El; 1]>(m, "[El; 1]", 1, None);
        case::<[El; 2]>(m, "[El; 2]", 2, None);
        case::<[El; 7]>(m, "[El; 7]", 7, None);
        case::<[El; 16]>(m, "[El; 16]", 16, None);
        case::<[El; 31]>(m, "[El; 31]", 31, None);
        case::<[El; 32]>(m, "[El; 32]", 32, None);
        case::<[[El; 3]; 4]>(m, "[[El; 3]; 4]", 12, None);
        case::<[Box<El>; 5]>(m, "[Box<El>; 5]", 5, None);
        case::<[Option<Bare>; 5]>(m, "[Option<Bare>; 5]", 5, None);
        case::<[(El, El); 3]>(m, "[(El, El); 3]", 6, None);
        case::<[Vec<Bare>; 3]>(m, "[Vec<Bare>; 3]", 6, Some(2));
        case::<Vec<Bare>>(m, "Vec<Bare> 0", 0, Some(0));
        case::<Vec<Bare>>(m, "Vec<Bare> 1", 1, Some(1));
        case::<Vec<Bare>>(m, "Vec<Bare> 9", 9, Some(9));
        case::<Vec<[El; 3]>>(m, "Vec<[El; 3]>", 6, Some(2));
        case::<Vec<(Bare, Bare)>>(m, "Vec<(Bare, Bare)>", 6, Some(3));
        case::<Vec<Fields>>(m, "Vec<Fields>", 12, Some(2));
        case::<(Bare, Bare)>(m, "(Bare, Bare)", 2, None);
        case::<(Bare, [El; 2], Box<Bare>, Option<Bare>, Bare, (Bare, Bare))>(m, "tuple", 8, None);
        case::<Box<Bare>>(m, "Box<Bare>", 1, None);
        case::<Box<Option<Box<Bare>>>>(m, "Box<Option<Box<Bare>>>", 1, None);
        case::<PosValue<Bare>>(m, "PosValue<Bare>", 1, None);
        case::<PosValue<(Bare, Bare)>>(m, "PosValue<(Bare, Bare)>", 2, None);
        case::<Fields>(m, "Fields", 6, None);
        case::<Lists>(m, "Lists", 10, None);
        case::<Until>(m, "Until", 5, None);
        case::<Vec<Zst>>(m, "Vec<Zst>", 5, Some(5));
        free::<Temps>(m, "Temps", 6);
        free::<Alts>(m, "Alts", 9);
        free::<Tries>(m, "Tries", 7);
        free::<FilePtr8<Bare>>(m, "FilePtr8<Bare>", 3);
        free::<FilePtr8<FilePtr8<Bare>>>(m, "FilePtr8<FilePtr8<Bare>>", 5);
        free::<(FilePtr8<Bare>, FilePtr8<Fields>)>(m, "pointers", 9);
        free::<FilePtr8<[El; 3]>>(m, "FilePtr8<[El; 3]>", 5);
    }
}
