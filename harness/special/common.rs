use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub struct Mon {
    pub rng: Rng,
    pub scale: u64,
    /// divides the number of rounds, for slow executions
    pub div: u64,
    counts: BTreeMap<String, u64>,
    states: BTreeSet<String>,
    bad: u64,
    samples: u64,
}
impl Mon {
    pub fn new() -> Mon {
        let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
        Mon { rng: Rng(a[0].wrapping_mul(0x2545F4914F6CDD1D)), scale: a[1], div: a.get(2).copied().unwrap_or(1), counts: Default::default(), states: Default::default(), bad: 0, samples: 0 }
    }
    pub fn times(&self, n: u64) -> u64 {
        (n * self.scale / self.div).max(1)
    }
    /// Whether to do this step of an enumeration.
    pub fn take(&mut self) -> bool {
        self.div == 1 || self.rng.below(self.div) == 0
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn state(&mut self, k: String) {
        if self.states.len() < 20_000 {
            self.states.insert(k.replace('\n', " "));
        }
    }
    pub fn sample(&mut self, k: String) {
        self.samples += 1;
        if self.samples <= 2 {
            println!("S {}", k.replace('\n', " "));
        }
    }
    pub fn bad(&mut self, text: String) {
        self.bad += 1;
        if self.bad <= 10 {
            println!("V {}", text.replace('\n', " "));
        }
    }
    /// One judged observation.
    pub fn check(&mut self, ok: bool, text: impl FnOnce() -> String) {
        self.count("evaluations", 1);
        if !ok {
            self.bad(text());
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, what: impl FnOnce() -> String) {
        self.count("evaluations", 1);
        if got != want {
            let w = what();
            self.bad(format!("{}: observed {:?}, expected {:?}", w, got, want));
        }
    }
    pub fn panics<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(rt::panic_text)
    }
    pub fn finish(self) {
        for (k, n) in &self.counts {
            println!("N {} {}", k, n);
        }
        for s in &self.states {
            println!("D {}", s);
        }
    }
}

fn main() {
    rt::quiet_panics();
    let mut m = Mon::new();
    monitor(&mut m);
    m.finish();
}
