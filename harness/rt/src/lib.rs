//! Runtime of the monitors: an instrumented reader, an event log, an allocation
//! meter and the executor which runs one recorded case at a time.
#![allow(clippy::all)]

pub use binread;
use binread::io::{self, Read, Seek, SeekFrom};
use binread::{BinRead, BinResult, Endian, Error, ReadOptions};
use std::cell::RefCell;
use std::fmt::Write as _;

mod alloc_meter;
mod dump;
mod spy;
pub use alloc_meter::*;
pub use dump::*;
pub use spy::*;

// ---------------------------------------------------------------- events

thread_local! {
    static LOG: RefCell<Vec<(u32, u64)>> = RefCell::new(Vec::new());
}

pub fn ev(id: u32, val: u64) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 10_000 {
            l.push((id, val))
        }
    });
}
/// An event which passes a value through.
pub fn evb(id: u32, val: bool) -> bool {
    ev(id, val as u64);
    val
}
pub fn evv<T>(id: u32, val: T) -> T {
    ev(id, 0);
    val
}
pub fn take_log() -> Vec<(u32, u64)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Error type for custom assertion and map errors.
#[derive(Debug, Clone, PartialEq)]
pub struct CustomE(pub u32, pub u64);

pub fn tmap<T>(ok: bool, id: u32, v: u64, val: T) -> Result<T, CustomE> {
    if ok {
        Ok(val)
    } else {
        Err(CustomE(id, v))
    }
}
pub fn tmap_io<T>(ok: bool, val: T) -> Result<T, io::Error> {
    if ok {
        Ok(val)
    } else {
        Err(io::Error::new(io::ErrorKind::PermissionDenied, "mapped"))
    }
}

// ---------------------------------------------------------------- reader

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub base: u64,
    pub start: u64,
    pub data: Vec<u8>,
    /// 0: reads are as long as asked for; n: at most n bytes; 255: varying
    pub short: u64,
    /// every nth read call fails once with `Interrupted`; 0: never
    pub intr: u64,
    /// persistent fault when a read touches this address
    pub fault_addr: Option<u64>,
    /// fault at the nth read or seek operation
    pub fault_op: Option<u64>,
    pub fault_once: bool,
    pub fault_kind: u64,
    pub limit: u64,
    /// 1: the bytes come from the library's Cursor, 2: from a BufReader around it
    pub inner: u64,
}

pub enum Inner {
    No,
    Cursor(io::Cursor<Vec<u8>>),
    #[cfg(feature = "std")]
    Buf(std::io::BufReader<io::Cursor<Vec<u8>>>),
}

pub struct Tr {
    pub cfg: Cfg,
    inner: Inner,
    pub pos: u64,
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub zero_reads: u64,
    /// 1: a read, 2: a seek
    pub faulted: u8,
    pub max_req: usize,
    rng: u64,
    intr_pending: bool,
    /// delivered ranges
    pub foot: Vec<(u64, u64)>,
    /// requested ranges
    pub req: Vec<(u64, u64)>,
}

pub const STEP_LIMIT: &str = "STEP-LIMIT";

pub fn fault_kind(k: u64) -> io::ErrorKind {
    match k {
        0 => io::ErrorKind::Other,
        1 => io::ErrorKind::PermissionDenied,
        2 => io::ErrorKind::TimedOut,
        3 => io::ErrorKind::BrokenPipe,
        4 => io::ErrorKind::InvalidData,
        5 => io::ErrorKind::ConnectionReset,
        6 => io::ErrorKind::WouldBlock,
        8 => io::ErrorKind::Interrupted,
        9 => io::ErrorKind::UnexpectedEof,
        10 => io::ErrorKind::InvalidInput,
        _ => io::ErrorKind::NotFound,
    }
}

/// Identifies an injected fault inside of an `io::Error`.
#[derive(Debug)]
pub struct Token(pub u64);
impl std::fmt::Display for Token {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "token {}", self.0)
    }
}
impl std::error::Error for Token {}

/// What the reader holds below its base address
pub fn below(addr: u64) -> u8 {
    (addr.wrapping_mul(167).wrapping_add(13) >> 1) as u8
}

impl Tr {
    pub fn new(cfg: Cfg) -> Self {
        let pos = cfg.start;
        let mut inner = Inner::No;
        if cfg.inner != 0 && cfg.base == 0 && cfg.short == 0 && cfg.fault_addr.is_none() {
            let mut c = io::Cursor::new(cfg.data.clone());
            c.set_position(pos);
            #[cfg(feature = "std")]
            if cfg.inner == 2 {
                inner = Inner::Buf(std::io::BufReader::with_capacity(5, c));
            } else {
                inner = Inner::Cursor(c);
            }
            #[cfg(not(feature = "std"))]
            {
                inner = Inner::Cursor(c);
            }
        }
        Tr {
            cfg,
            inner,
            pos,
            ops: 0,
            reads: 0,
            seeks: 0,
            zero_reads: 0,
            faulted: 0,
            max_req: 0,
            rng: 0x9E3779B97F4A7C15,
            intr_pending: true,
            foot: Vec::new(),
            req: Vec::new(),
        }
    }

    fn step(&mut self) {
        self.ops += 1;
        if self.cfg.limit != 0 && self.ops > self.cfg.limit {
            std::panic::panic_any(STEP_LIMIT);
        }
    }

    fn fault(&mut self, what: u8) -> io::Error {
        self.faulted |= what;
        // only a seek can be interrupted for good
        let kind = if self.cfg.fault_kind == 8 && what == 1 { 0 } else { self.cfg.fault_kind };
        io::Error::new(fault_kind(kind), Token(kind))
    }

    fn op_fault(&mut self) -> bool {
        match self.cfg.fault_op {
            Some(k) if self.cfg.fault_once => self.ops == k,
            Some(k) => self.ops >= k,
            None => false,
        }
    }

    fn note(v: &mut Vec<(u64, u64)>, a: u64, b: u64) {
        if a >= b {
            return;
        }
        if let Some(l) = v.last_mut() {
            if l.1 == a {
                l.1 = b;
                return;
            }
        }
        if v.len() < 100_000 {
            v.push((a, b));
        }
    }
}

/// A reader may look at what it is given.
pub fn touch(buf: &[u8]) {
    std::hint::black_box(buf.iter().fold(0u8, |a, b| a ^ *b));
}

impl Read for Tr {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.step();
        self.reads += 1;
        self.max_req = self.max_req.max(buf.len());
        #[cfg(miri)]
        touch(buf);
        if self.op_fault() {
            return Err(self.fault(1));
        }
        if self.cfg.intr != 0 {
            if self.intr_pending && self.reads % self.cfg.intr == 0 {
                self.intr_pending = false;
                return Err(io::Error::new(io::ErrorKind::Interrupted, Token(99)));
            }
            self.intr_pending = true;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let got = match &mut self.inner {
            Inner::No => None,
            Inner::Cursor(c) => Some(c.read(buf)?),
            #[cfg(feature = "std")]
            Inner::Buf(c) => Some(c.read(buf)?),
        };
        if let Some(n) = got {
            Self::note(&mut self.req, self.pos, self.pos.saturating_add(buf.len() as u64));
            Self::note(&mut self.foot, self.pos, self.pos + n as u64);
            if n == 0 {
                self.zero_reads += 1;
            }
            self.pos += n as u64;
            return Ok(n);
        }
        let end = self.cfg.base + self.cfg.data.len() as u64;
        let req_end = self.pos.saturating_add(buf.len() as u64);
        Self::note(&mut self.req, self.pos, req_end);
        if let Some(a) = self.cfg.fault_addr {
            if self.pos == a {
                return Err(self.fault(1));
            }
        }
        if self.pos >= end {
            self.zero_reads += 1;
            return Ok(0);
        }
        let mut n = (buf.len() as u64).min(end - self.pos);
        if let Some(a) = self.cfg.fault_addr {
            if self.pos < a {
                n = n.min(a - self.pos);
            }
        }
        if self.cfg.short == 255 {
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            n = n.min(1 + (self.rng >> 33) % 5);
        } else if self.cfg.short != 0 {
            n = n.min(self.cfg.short);
        }
        for i in 0..n {
            let a = self.pos + i;
            buf[i as usize] = if a < self.cfg.base {
                below(a)
            } else {
                self.cfg.data[(a - self.cfg.base) as usize]
            };
        }
        Self::note(&mut self.foot, self.pos, self.pos + n);
        self.pos += n;
        Ok(n as usize)
    }
}

impl Seek for Tr {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.step();
        self.seeks += 1;
        if self.op_fault() {
            return Err(self.fault(2));
        }
        match &mut self.inner {
            Inner::No => {}
            Inner::Cursor(c) => {
                self.pos = c.seek(to)?;
                return Ok(self.pos);
            }
            #[cfg(feature = "std")]
            Inner::Buf(c) => {
                self.pos = c.seek(to)?;
                return Ok(self.pos);
            }
        }
        let end = self.cfg.base + self.cfg.data.len() as u64;
        let new = match to {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(x) => self.pos.checked_add_signed(x),
            SeekFrom::End(x) => end.checked_add_signed(x),
        };
        match new {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "invalid seek to a negative or overflowing position",
            )),
        }
    }
}

// ---------------------------------------------------------------- executor

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prog: String,
    pub endian: u8,
    pub offset: u64,
    pub count: Option<usize>,
    /// how the value is read: 0 read_options + after_parse, 1 read_options only
    pub mode: u64,
    pub cfg: Cfg,
}

pub fn hex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

impl Case {
    pub fn parse(line: &str) -> Case {
        let mut c = Case::default();
        c.cfg.limit = 200_000;
        for kv in line.split(' ') {
            let (k, v) = match kv.split_once('=') {
                Some(x) => x,
                None => continue,
            };
            let n = || v.parse::<u64>().unwrap();
            match k {
                "p" => c.prog = v.to_string(),
                "e" => c.endian = n() as u8,
                "o" => c.offset = n(),
                "c" => c.count = Some(n() as usize),
                "m" => c.mode = n(),
                "x" => c.cfg.inner = n(),
                "b" => c.cfg.base = n(),
                "s" => c.cfg.start = n(),
                "d" => c.cfg.data = hex(v),
                "sh" => c.cfg.short = n(),
                "in" => c.cfg.intr = n(),
                "fa" => c.cfg.fault_addr = Some(n()),
                "fo" => c.cfg.fault_op = Some(n()),
                "f1" => c.cfg.fault_once = n() != 0,
                "fk" => c.cfg.fault_kind = n(),
                "l" => c.cfg.limit = n(),
                _ => {}
            }
        }
        c
    }
    pub fn endian(&self) -> Endian {
        match self.endian {
            0 => Endian::Big,
            1 => Endian::Little,
            _ => Endian::Native,
        }
    }
    pub fn options(&self) -> ReadOptions {
        let mut o = ReadOptions::default();
        o.endian = self.endian();
        o.offset = self.offset;
        o.count = self.count;
        o
    }
}

pub enum Outcome {
    Ok(String),
    Err(String, String),
    Panic(String),
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Where debug templates go: 0 nowhere, 1 into the observation, 2 to a writer which fails.
pub static TEMPLATE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

#[cfg(feature = "dbg")]
mod template {
    use std::sync::{Arc, Mutex};
    #[derive(Clone, Default)]
    pub struct Sink(pub Arc<Mutex<Vec<u8>>>, pub bool, u32);
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.2 += 1;
            if self.1 && self.2 % 3 != 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            self.0.lock().unwrap().extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub fn start() -> Option<Sink> {
        let mode = super::TEMPLATE.load(std::sync::atomic::Ordering::SeqCst);
        if mode == 0 {
            return None;
        }
        let s = Sink(Default::default(), mode == 2, 0);
        binread::binary_template::set_output(s.clone());
        Some(s)
    }
    pub fn stop(s: Option<Sink>) -> String {
        match s {
            None => String::new(),
            Some(s) => {
                binread::binary_template::unset_output();
                let b = s.0.lock().unwrap();
                String::from_utf8_lossy(&b).into_owned()
            }
        }
    }
}
#[cfg(not(feature = "dbg"))]
mod template {
    pub fn start() -> Option<()> {
        None
    }
    pub fn stop(_: Option<()>) -> String {
        String::new()
    }
}

pub struct Obs {
    pub template: String,
    pub outcome: Outcome,
    pub tr: Tr,
    pub log: Vec<(u32, u64)>,
    pub peak: usize,
    pub extra: String,
}

/// Read one value as the case says and record what happened.
pub fn run_with<T: Dump>(
    case: &Case,
    f: impl FnOnce(&mut Tr, &ReadOptions) -> BinResult<T>,
) -> Obs {
    let mut tr = Tr::new(case.cfg.clone());
    take_log();
    let options = case.options();
    let live = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    let sink = template::start();
    alloc_reset();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut tr, &options)));
    let peak = alloc_peak();
    let template = template::stop(sink);
    let log = take_log();
    let outcome = match res {
        Ok(Ok(v)) => {
            let mut s = String::new();
            v.dump(&mut s);
            Outcome::Ok(s)
        }
        Ok(Err(e)) => {
            let mut s = String::new();
            dump_error(&e, &mut s);
            Outcome::Err(s, format!("{}|{:?}", e, e))
        }
        Err(p) => Outcome::Panic(panic_text(p)),
    };
    // the value and the error are gone: so has to be everything they held
    let mut extra = String::new();
    if !THREADS.load(std::sync::atomic::Ordering::SeqCst) {
        let left = LIVE.load(std::sync::atomic::Ordering::SeqCst) - live;
        let bad = BAD_DROP.swap(0, std::sync::atomic::Ordering::SeqCst);
        if left != 0 || bad != 0 {
            write!(extra, "{} values alive, {} dropped wrongly", left, bad).unwrap();
        }
    }
    Obs { template, outcome, tr, log, peak, extra }
}

pub static THREADS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn read_mode<T: BinRead>(
    case: &Case,
    tr: &mut Tr,
    o: &ReadOptions,
    args: T::Args,
) -> BinResult<T> {
    use binread::BinReaderExt;
    match case.mode {
        0 => {
            let mut v = T::read_options(tr, o, args)?;
            v.after_parse(tr, o, args)?;
            Ok(v)
        }
        1 => T::read_options(tr, o, args),
        2 => tr.read_type_args(case.endian(), args),
        3 => tr.read_be_args(args),
        4 => tr.read_le_args(args),
        5 => tr.read_ne_args(args),
        6 => T::read_args(tr, args),
        7 => T::read(tr),
        8 => tr.read_type(case.endian()),
        9 => tr.read_be(),
        10 => tr.read_le(),
        _ => tr.read_ne(),
    }
}

pub fn run<T: BinRead + Dump>(case: &Case, args: T::Args) -> Obs {
    run_with(case, |tr, o| read_mode::<T>(case, tr, o, args))
}

/// Like `run`, for a parser function.
pub fn fmt_obs(o: &Obs) -> String {
    let mut s = String::new();
    match &o.outcome {
        Outcome::Ok(v) => write!(s, "K\t{}", v).unwrap(),
        Outcome::Err(v, _) => write!(s, "E\t{}", v).unwrap(),
        Outcome::Panic(v) => write!(s, "P\t{}", v.replace(['\t', '\n'], " ")).unwrap(),
    }
    write!(s, "\t{}\t", o.tr.pos).unwrap();
    for (id, v) in &o.log {
        write!(s, "{}={} ", id, v).unwrap();
    }
    write!(
        s,
        "\t{} {} {} {} {} {}\t",
        o.tr.ops, o.tr.reads, o.tr.seeks, o.tr.max_req, o.tr.faulted, o.peak
    )
    .unwrap();
    for (a, b) in o.tr.req.iter().take(2000) {
        write!(s, "{}-{} ", a, b).unwrap();
    }
    s.push('\t');
    if let Outcome::Err(_, d) = &o.outcome {
        s.push_str(&d.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r"));
    }
    s.push('\t');
    s.push_str(&o.extra);
    s.push('\t');
    s.push_str(&o.template.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r"));
    s
}

pub type Runner = fn(&Case) -> Obs;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Read cases from stdin, one per line, and write one observation per line.
pub fn main_loop(progs: &[(&str, Runner)]) {
    use std::io::{BufRead, Write};
    quiet_panics();
    let map: std::collections::HashMap<&str, Runner> = progs.iter().cloned().collect();
    let mut args = std::env::args().skip(1);
    let arg = args.next();
    if let Some("template") = arg.as_deref() {
        TEMPLATE.store(args.next().unwrap().parse().unwrap(), std::sync::atomic::Ordering::SeqCst);
    }
    if arg.as_deref() == Some("threads") {
        let n = args.next().unwrap().parse().unwrap();
        let rounds = args.next().unwrap().parse().unwrap();
        return threads(&map, n, rounds);
    }
    let leak = arg.as_deref() == Some("leak");
    let lean = arg.as_deref() == Some("lean");
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case = Case::parse(&line);
        let id = line.split_whitespace().next().unwrap_or("").to_string();
        {
            let mut out = stdout.lock();
            write!(out, "@{}\n", id).unwrap();
            out.flush().unwrap();
        }
        let text = match map.get(case.prog.as_str()) {
            Some(f) if leak => {
                let d = leaks(|| drop(f(&case)));
                let mut o = f(&case);
                if d != 0 {
                    write!(o.extra, " {} bytes stay allocated", d).unwrap();
                }
                fmt_obs(&o)
            }
            Some(f) => {
                let mut o = f(&case);
                if lean {
                    o.tr.req.clear();
                }
                fmt_obs(&o)
            }
            None => "?\tno such program".to_string(),
        };
        let mut out = stdout.lock();
        write!(out, "{}\t{}\n", id, text).unwrap();
        out.flush().unwrap();
    }
}

/// Run all cases on n threads at the same time, each in its own order, and
/// report every observation: `id thread observation`.
fn threads(map: &std::collections::HashMap<&str, Runner>, n: usize, rounds: usize) {
    use std::io::{BufRead, Write};
    use std::sync::{Arc, Barrier, Mutex};
    THREADS.store(true, std::sync::atomic::Ordering::SeqCst);
    let cases: Vec<(String, Case, Runner)> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.is_empty())
        .filter_map(|l| {
            let c = Case::parse(&l);
            let f = *map.get(c.prog.as_str())?;
            Some((l.split_whitespace().next().unwrap().to_string(), c, f))
        })
        .collect();
    let cases = Arc::new(cases);
    let gate = Arc::new(Barrier::new(n));
    let out = Arc::new(Mutex::new(Vec::new()));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (cases, gate, out) = (cases.clone(), gate.clone(), out.clone());
            std::thread::spawn(move || {
                let mut rng = 0x9E3779B97F4A7C15u64.wrapping_mul(t as u64 + 1) | 1;
                let mut order: Vec<usize> = (0..cases.len()).collect();
                let mut lines = Vec::new();
                for _ in 0..rounds {
                    for i in (1..order.len()).rev() {
                        rng ^= rng << 13;
                        rng ^= rng >> 7;
                        rng ^= rng << 17;
                        order.swap(i, (rng % (i as u64 + 1)) as usize);
                    }
                    gate.wait();
                    for &i in &order {
                        let (id, case, f) = &cases[i];
                        lines.push(format!("{}\t{}", id, fmt_obs(&f(case))));
                    }
                }
                out.lock().unwrap().extend(lines);
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    for l in out.lock().unwrap().iter() {
        writeln!(o, "{}", l).unwrap();
    }
}
