//! Small property-based-testing kit: choice-sequence generators with built-in shrinking,
//! deterministic parallel runner, crash/hang isolation, evidence and replay files.
//!
//! A case is fully determined by the sequence of bounded integers its generator drew.
//! Shrinking edits that sequence (delete, zero, minimise) and re-runs the same property,
//! so every shrunk case is one the generator could have produced.

pub mod ass;
mod run;
pub use run::main_with;

use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub type R = Result<(), String>;

/// One check of a property: `f` draws an input from `T` and judges it.
#[derive(Clone, Copy)]
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut T) -> R,
}

/// A recorded genuine defect: `f` runs the one fixed input; `Err` means it still fails.
#[derive(Clone, Copy)]
pub struct Known {
    pub id: &'static str,
    pub f: fn() -> R,
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub known: Vec<Known>,
    pub assumptions: &'static [&'static str],
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: fn(&mut T) -> R) -> Sub {
    Sub { name, quick, thorough, f }
}

#[derive(Clone)]
struct Rng(u64, u64);
impl Rng {
    fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = n();
        let b = n() | 1;
        Rng(a, b)
    }
    fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

enum Src {
    Random(Rng),
    Replay(Vec<u64>),
}

/// Test context: source of choices plus bookkeeping about the case.
pub struct T {
    src: Src,
    pub(crate) rec: Vec<u64>,
    pub(crate) verbose: bool,
    pub(crate) nontrivial: bool,
    pub(crate) labels: Vec<&'static str>,
    pub(crate) shown: Vec<(String, String)>,
    pub(crate) hash: u64,
    /// Evaluations this case stands for.
    pub evals: u64,
    stream: Option<std::fs::File>,
}

pub fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    h.hash(&mut s);
    s.finish()
}

impl T {
    pub(crate) fn random(seed: u64, verbose: bool) -> T {
        T::mk(Src::Random(Rng::new(seed)), verbose)
    }
    pub(crate) fn replay(c: Vec<u64>, verbose: bool) -> T {
        T::mk(Src::Replay(c), verbose)
    }
    fn mk(src: Src, verbose: bool) -> T {
        T {
            src,
            rec: Vec::new(),
            verbose,
            nontrivial: false,
            labels: Vec::new(),
            shown: Vec::new(),
            hash: 0,
            evals: 1,
            stream: None,
        }
    }

    /// Uniform in `0..n` (n >= 1). 0 is the simplest choice.
    pub fn u(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.src {
            Src::Random(r) => {
                if n == u64::MAX { r.next() } else { (((r.next() as u128) * (n as u128)) >> 64) as u64 }
            }
            Src::Replay(c) => {
                let i = self.rec.len();
                c.get(i).copied().unwrap_or(0).min(n - 1)
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.stream {
            use std::io::Write;
            let _ = write!(f, "{v},");
        }
        v
    }
    pub(crate) fn stream_to(&mut self, p: &str) {
        self.stream = std::fs::File::create(p).ok();
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.u(n as u64) as usize
    }
    /// Inclusive range; shrinks towards `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        let span = (hi as i128 - lo as i128 + 1) as u128;
        let v = if span > u64::MAX as u128 { self.u(u64::MAX) } else { self.u(span as u64) };
        (lo as i128 + v as i128) as i64
    }
    /// Inclusive range over usize.
    pub fn span(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u(den) >= den - num.min(den)
    }
    pub fn pick<'b, X: ?Sized>(&mut self, xs: &[&'b X]) -> &'b X {
        let i = self.us(xs.len());
        xs[i]
    }
    pub fn pick_c<X: Clone>(&mut self, xs: &[X]) -> X {
        let i = self.us(xs.len());
        xs[i].clone()
    }
    /// Index drawn with integer weights; shrinks towards index 0.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.u(tot);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    /// Length skewed to small values, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let a = self.us(max + 1);
        let b = self.us(max + 1);
        a.min(b)
    }
    pub fn vec<X>(&mut self, max: usize, mut f: impl FnMut(&mut T) -> X) -> Vec<X> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn string_of(&mut self, max: usize, alphabet: &[&str]) -> String {
        let n = self.len(max);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(self.pick(alphabet));
        }
        s
    }

    /// The case satisfies the property's non-triviality rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// Record part of the generated input: always hashed (for distinctness), kept when verbose.
    pub fn input(&mut self, name: &str, v: &str) {
        self.hash = hash_of(&(self.hash, name, v));
        if self.verbose {
            self.shown.push((name.to_string(), v.to_string()));
        }
    }
    pub fn input_dbg<D: Debug + ?Sized>(&mut self, name: &str, v: &D) {
        let s = format!("{v:?}");
        self.input(name, &s);
    }
    /// Is the listed finding `id` recorded as known (so its trigger is excluded by construction)?
    pub fn known(&self, id: &str) -> bool {
        known(id)
    }
}

pub fn known(id: &str) -> bool {
    run::known_ids().iter().any(|k| k == id)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)+), a, b));
        }
    }};
}
