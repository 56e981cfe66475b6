//! Shared driver of the concrete replays: every case is run against the real
//! crates and compared with an oracle written here from the property text.
pub mod al;
pub mod types;
pub mod enumtab;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    /// integers biased to boundaries
    pub fn edgy(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => self.below(300),
            2 => { let k = self.below(64); (1u64 << k).wrapping_add(self.below(5)).wrapping_sub(2) }
            3 => u64::MAX - self.below(4),
            4 => (1u64 << 63).wrapping_add(self.below(5)).wrapping_sub(2),
            5 => u32::MAX as u64 - 2 + self.below(6),
            6 => { let k = self.below(64); self.next() >> k }
            _ => self.next(),
        }
    }
}

thread_local! { static IN_CASE: std::cell::Cell<bool> = std::cell::Cell::new(false); }
thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    out: String,
    case_file: String,
    only: Option<u64>,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub hard: bool,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

impl Run {
    /// args: PROP TIER SEED OUT_JSON [INDEX]
    pub fn from_args() -> Run {
        let a: Vec<String> = std::env::args().collect();
        assert!(a.len() >= 5, "usage: bin PROP TIER SEED OUT.json [INDEX]");
        let seed = a[3].parse().unwrap_or(1);
        std::panic::set_hook(Box::new(|info| {
            let m = format!("{info}");
            if !IN_CASE.with(|c| c.get()) { eprintln!("harness: {m}"); }
            PANIC.with(|p| *p.borrow_mut() = m);
        }));
        let r = Run {
            prop: a[1].clone(), thorough: a[2] == "thorough", seed, rng: Rng::new(seed ^ hash_of(&a[1])),
            out: a[4].clone(), case_file: format!("{}.case", a[4]), only: a.get(5).map(|x| x.parse().unwrap()),
            evals: 0, distinct: HashSet::new(), samples: vec![], hard: false,
        };
        let _ = std::fs::remove_file(&r.case_file);
        let _ = std::fs::remove_file(&r.out);
        r
    }
    pub fn scale(&self, quick: u64) -> u64 { if self.thorough { quick.saturating_mul(20) } else { quick } }
    /// Run one case. `desc` describes the input completely; `f` returns Err(expected/actual) on disagreement.
    /// A panic inside `f` is a disagreement.
    pub fn case(&mut self, key: impl Hash, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.evals += 1;
        let idx = self.evals;
        if let Some(o) = self.only { if o != idx { return; } }
        self.distinct.insert(hash_of(&key));
        if self.samples.len() < 6 && (idx == 1 || idx % 997 == 0) { self.samples.push(desc()); }
        if self.hard { let _ = std::fs::write(&self.case_file, format!("{{\"property\":{},\"index\":{},\"seed\":{},\"input\":{},\"result\":\"the process died (stack overflow, abort or hang) on this input\"}}\n", json_str(&self.prop), idx, self.seed, json_str(&desc()))); }
        PANIC.with(|p| p.borrow_mut().clear());
        IN_CASE.with(|c| c.set(true));
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
        };
        IN_CASE.with(|c| c.set(false));
        if let Err(m) = r {
            let s = format!("{{\"property\":{},\"index\":{},\"seed\":{},\"input\":{},\"result\":{}}}\n", json_str(&self.prop), idx, self.seed, json_str(&desc()), json_str(&m));
            std::fs::write(&self.out, &s).unwrap();
            println!("FAIL {}", s.trim());
            std::process::exit(3);
        }
    }
    pub fn finish(self) {
        let _ = std::fs::remove_file(&self.case_file);
        let ss: Vec<String> = self.samples.iter().map(|s| json_str(s)).collect();
        let s = format!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}]}}", self.evals, self.distinct.len(), ss.join(","));
        std::fs::write(&self.out, &s).unwrap();
        println!("OK {s}");
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// The data as a plain list of bits, lowest bit of each byte first.
pub struct Bits<'a> { pub d: &'a [u8], pub len: usize }
impl<'a> Bits<'a> {
    pub fn nbits(&self) -> usize { self.len * 8 }
    pub fn bit(&self, i: usize) -> bool { (self.d[i / 8] >> (i % 8)) & 1 == 1 }
    /// the integer at p..p+n
    pub fn rd(&self, p: usize, n: usize) -> u128 { (0..n).filter(|i| self.bit(p + i)).map(|i| 1u128 << i).sum() }
    pub fn read(&self, p: usize, n: usize) -> Option<u64> {
        if n == 0 || n >= 64 || p + n > self.nbits() { None } else { Some(self.rd(p, n) as u64) }
    }
    /// VBR: (value, end)
    pub fn vbr(&self, p: usize, w: usize) -> Option<(u64, usize)> {
        if !(2..=32).contains(&w) { return None; }
        let (mut p, mut shift, mut v) = (p, 0usize, 0u128);
        loop {
            if p + w > self.nbits() || shift >= 64 { return None; }
            let c = self.rd(p, w);
            p += w;
            v += (c & ((1 << (w - 1)) - 1)) << shift;
            if v > u64::MAX as u128 { return None; }
            if c >> (w - 1) == 0 { return Some((v as u64, p)); }
            shift += w - 1;
        }
    }
    pub fn align32(&self, p: usize) -> usize { ((p + 31) / 32 * 32).min(self.nbits()) }
}
/// bit writer
#[derive(Default, Clone)]
pub struct Writer { pub bits: Vec<bool> }
impl Writer {
    pub fn new() -> Writer { Writer { bits: vec![] } }
    pub fn put(&mut self, v: u64, n: usize) { for i in 0..n { self.bits.push(i < 64 && (v >> i) & 1 == 1); } }
    pub fn vbr(&mut self, mut v: u64, w: usize) {
        let h = 1u64 << (w - 1);
        loop {
            let c = v & (h - 1);
            v >>= w - 1;
            if v == 0 { self.put(c, w); break; }
            self.put(c | h, w);
        }
    }
    pub fn align32(&mut self) { while self.bits.len() % 32 != 0 { self.bits.push(false); } }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; (self.bits.len() + 7) / 8];
        for (i, b) in self.bits.iter().enumerate() { if *b { v[i / 8] |= 1 << (i % 8); } }
        v
    }
}
