//! A canonical text form of values and errors.
use super::*;
use binread::{punctuated::Punctuated, FilePtr, NullString, NullWideString, PosValue};
use std::num::{NonZeroU16, NonZeroU8};

pub trait Dump {
    fn dump(&self, o: &mut String);
}

macro_rules! ints {
    ($($t:ty)*) => { $(impl Dump for $t { fn dump(&self, o: &mut String) { write!(o, "{}", self).unwrap() } })* }
}
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize bool);

impl Dump for f32 {
    fn dump(&self, o: &mut String) {
        write!(o, "f{:x}", self.to_bits()).unwrap()
    }
}
impl Dump for f64 {
    fn dump(&self, o: &mut String) {
        write!(o, "d{:x}", self.to_bits()).unwrap()
    }
}
impl Dump for char {
    fn dump(&self, o: &mut String) {
        write!(o, "c{}", *self as u32).unwrap()
    }
}
impl Dump for () {
    fn dump(&self, o: &mut String) {
        o.push_str("()")
    }
}
impl<T> Dump for std::marker::PhantomData<T> {
    fn dump(&self, o: &mut String) {
        o.push_str("PD")
    }
}
pub fn dump_seq<'a, T: Dump + 'a>(it: impl IntoIterator<Item = &'a T>, o: &mut String) {
    o.push('[');
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',')
        }
        x.dump(o);
    }
    o.push(']');
}
impl<T: Dump, const N: usize> Dump for [T; N] {
    fn dump(&self, o: &mut String) {
        dump_seq(self.iter(), o)
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self, o: &mut String) {
        dump_seq(self.iter(), o)
    }
}
impl<T: Dump> Dump for std::collections::VecDeque<T> {
    fn dump(&self, o: &mut String) {
        dump_seq(self.iter(), o)
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(&self, o: &mut String) {
        (**self).dump(o)
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self, o: &mut String) {
        match self {
            None => o.push('N'),
            Some(x) => {
                o.push_str("S(");
                x.dump(o);
                o.push(')')
            }
        }
    }
}
impl Dump for NonZeroU8 {
    fn dump(&self, o: &mut String) {
        self.get().dump(o)
    }
}
impl Dump for NonZeroU16 {
    fn dump(&self, o: &mut String) {
        self.get().dump(o)
    }
}
impl Dump for String {
    fn dump(&self, o: &mut String) {
        o.push('"');
        for b in self.bytes() {
            write!(o, "{:02x}", b).unwrap();
        }
        o.push('"');
    }
}
impl<P: Dump + BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom, T: Dump + BinRead> Dump for FilePtr<P, T> {
    fn dump(&self, o: &mut String) {
        o.push_str("*(");
        self.ptr.dump(o);
        o.push(',');
        self.value.dump(o);
        o.push(')');
    }
}
impl<T: Dump> Dump for PosValue<T> {
    fn dump(&self, o: &mut String) {
        write!(o, "@{}=", self.pos).unwrap();
        self.val.dump(o);
    }
}
impl Dump for NullString {
    fn dump(&self, o: &mut String) {
        o.push_str("z");
        self.0.dump(o)
    }
}
impl Dump for NullWideString {
    fn dump(&self, o: &mut String) {
        o.push_str("w");
        self.0.dump(o)
    }
}
impl<T: BinRead + Dump, P: BinRead + Dump> Dump for Punctuated<T, P> {
    fn dump(&self, o: &mut String) {
        o.push_str("p");
        (**self).dump(o);
        self.seperators.dump(o);
    }
}

macro_rules! tuples {
    ($a:ident $($t:ident)*) => {
        #[allow(non_snake_case)]
        impl<$a: Dump, $($t: Dump),*> Dump for ($a, $($t,)*) {
            fn dump(&self, o: &mut String) {
                let ($a, $($t,)*) = self;
                o.push('(');
                $a.dump(o);
                $(o.push(','); $t.dump(o);)*
                o.push(')');
            }
        }
        tuples!($($t)*);
    };
    () => {};
}
tuples!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A30 A31 A32);

/// Dump the named parts of a generated type.
#[macro_export]
macro_rules! parts {
    ($o:expr; $($e:expr),*) => {{
        $o.push('{');
        $( $crate::Dump::dump($e, $o); $o.push(';'); )*
        $o.push('}');
    }};
}

pub fn io_kind(k: io::ErrorKind) -> String {
    format!("{:?}", k)
}

#[cfg(feature = "std")]
fn io_token(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|e| e.downcast_ref::<Token>()).map(|t| t.0)
}
#[cfg(not(feature = "std"))]
fn io_token(_: &io::Error) -> Option<u64> {
    None
}

macro_rules! try_found {
    ($f:expr, $o:expr; $($t:ty),*) => {
        $( if let Some(x) = $f.downcast_ref::<$t>() { $o.push_str(stringify!($t)); $o.push(':'); x.dump($o); return; } )*
    };
}

fn dump_found(f: &(dyn std::any::Any + Sync + Send), o: &mut String) {
    try_found!(f, o; u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char,
        [u8; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9]);
    o.push('?');
}

pub fn dump_error(e: &Error, o: &mut String) {
    match e {
        Error::BadMagic { pos, found } => {
            write!(o, "Magic@{}<", pos).unwrap();
            dump_found(&**found, o);
            o.push('>');
        }
        Error::AssertFail { pos, message } => {
            write!(o, "Assert@{}", pos).unwrap();
            message.dump(o)
        }
        Error::Io(e) => {
            write!(o, "Io:{}", io_kind(e.kind())).unwrap();
            if let Some(t) = io_token(e) {
                write!(o, "#{}", t).unwrap();
            }
        }
        Error::Custom { pos, err } => {
            write!(o, "Custom@{}<", pos).unwrap();
            if let Some(c) = err.downcast_ref::<CustomE>() {
                write!(o, "{},{}", c.0, c.1).unwrap();
                // `custom_err` has to find it too, and nothing else
                if e.custom_err::<CustomE>() != Some(c) || e.custom_err::<u128>().is_some() {
                    o.push_str("!custom_err");
                }
            } else if let Some(c) = err.downcast_ref::<Error>() {
                dump_error(c, o);
            } else if let Some(c) = err.downcast_ref::<io::Error>() {
                write!(o, "io:{}", io_kind(c.kind())).unwrap();
            } else if let Some(c) = err.downcast_ref::<String>() {
                c.dump(o);
            } else {
                o.push('?');
            }
            o.push('>');
        }
        Error::NoVariantMatch { pos } => write!(o, "NoVariant@{}", pos).unwrap(),
        Error::EnumErrors { pos, variant_errors } => {
            write!(o, "Enum@{}[", pos).unwrap();
            for (n, e) in variant_errors {
                write!(o, "{}:", n).unwrap();
                dump_error(e, o);
                o.push(';');
            }
            o.push(']');
        }
        _ => o.push_str("unknown error"),
    }
    if !matches!(e, Error::Custom { .. }) && e.custom_err::<CustomE>().is_some() {
        o.push_str("!custom_err");
    }
}
