//! Support for executable contracts: seeded generation, violation records, coverage counts, a watchdog.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { (lo as i128 + ((self.u64() as u128 * ((hi as i128 - lo as i128 + 1) as u128)) >> 64) as i128) as i64 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); } }
    /// a 64-bit pattern biased to boundaries
    pub fn edge(&mut self) -> u64 {
        match self.below(8) {
            0 => *self.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 32, (1 << 32) - 1, (1 << 53), (1 << 53) + 1, 0xFFFF_FFFF_0000_0000]),
            1 => 1u64 << self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(1),
            3 => !(1u64 << self.below(64)),
            4 => self.below(16),
            5 => self.u64() >> self.below(64),
            6 => u64::MAX - self.below(16),
            _ => self.u64(),
        }
    }
}

pub struct V { pub key: String, pub what: String, pub case: String }

pub struct H {
    pub prop: String,
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    seen: HashSet<u64>,
    pub nontrivial: u64,
    samples: Vec<String>,
    violations: BTreeMap<String, V>,
    pub counters: BTreeMap<String, u64>,
    deadline: Instant,
    started: Instant,
    beat: Arc<AtomicU64>,
    cur: Arc<Mutex<String>>,
    only: Option<String>,
}

fn fnv(s: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); } h }

thread_local! { static LASTPANIC: RefCell<String> = RefCell::new(String::new()); static DEPTH: RefCell<u32> = RefCell::new(0); }
fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> { DEPTH.with(|d| *d.borrow_mut() += 1); let r = catch_unwind(AssertUnwindSafe(f)); DEPTH.with(|d| *d.borrow_mut() -= 1); r }

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}

impl H {
    /// budget_s: wall-clock budget at quick tier (x6 thorough)
    pub fn start(prop: &str, budget_s: f64) -> H {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(0) as u64;
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        let b = budget_s * if thorough { 6.0 } else { 1.0 } * scale;
        std::panic::set_hook(Box::new(|i| { let m = format!("{}", i); if DEPTH.with(|d| *d.borrow() == 0) && std::thread::current().name() == Some("main") { eprintln!("uncaught: {m}"); } LASTPANIC.with(|l| *l.borrow_mut() = m.chars().take(400).collect()); }));
        let beat = Arc::new(AtomicU64::new(0));
        let cur = Arc::new(Mutex::new(String::new()));
        let (b2, c2, p2) = (beat.clone(), cur.clone(), prop.to_string());
        std::thread::spawn(move || {
            let mut last = 0; let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = b2.load(Ordering::Relaxed);
                if n != last { last = n; since = Instant::now(); }
                else if since.elapsed().as_secs() > 100 {
                    let c = c2.try_lock().map(|g| g.clone()).unwrap_or_default();
                    println!("{{\"property\":\"{}\",\"hang\":true,\"violations\":[{{\"key\":\"hang\",\"what\":\"no answer within 100 s\",\"case\":\"{}\"}}],\"evaluations\":{},\"distinct_nontrivial\":0,\"samples\":[],\"counters\":{{}}}}", p2, esc(&c), n);
                    std::process::exit(0);
                }
            }
        });
        H { prop: prop.into(), rng: Rng::new(seed), seed, thorough, evals: 0, seen: HashSet::new(), nontrivial: 0, samples: vec![], violations: BTreeMap::new(),
            counters: BTreeMap::new(), deadline: Instant::now() + Duration::from_millis((b * 1000.0) as u64), started: Instant::now(), beat, cur, only: std::env::var("VH_ONLY").ok() }
    }
    pub fn scale(&self, n: u64) -> u64 { if self.thorough { n * 6 } else { n } }
    /// enter a named group; false if filtered out
    pub fn group(&mut self, name: &str) -> bool { *self.counters.entry(name.into()).or_insert(0) += 0; self.only.as_ref().map(|o| o == name).unwrap_or(true) }
    pub fn out_of_time(&self) -> bool { Instant::now() >= self.deadline }
    /// share the remaining budget: runs `f` until `frac` of the total budget has been used for it or n iterations
    pub fn rounds(&mut self, name: &str, secs: f64, n: u64, mut f: impl FnMut(&mut H)) {
        if !self.group(name) { return; }
        let secs = secs * if self.thorough { 6.0 } else { 1.0 };
        let end = Instant::now() + Duration::from_millis((secs * 1000.0) as u64);
        let n = self.scale(n);
        let mut k = 0;
        while k < n && Instant::now() < end { f(self); k += 1; if self.violations.len() > 12 { break; } }
        *self.counters.entry(name.into()).or_insert(0) += k;
    }
    pub fn tick(&mut self) { self.evals += 1; self.beat.fetch_add(1, Ordering::Relaxed); }
    /// count one evaluated case; `case` identifies it; nontrivial by caller's rule
    pub fn case(&mut self, case: &str, nontrivial: bool) {
        self.tick();
        if nontrivial && self.seen.len() < 2_000_000 && self.seen.insert(fnv(case.as_bytes())) {
            self.nontrivial += 1;
            if self.samples.len() < 6 || (self.samples.len() < 12 && self.nontrivial.is_power_of_two()) { self.samples.push(case.chars().take(300).collect()); }
        }
        if let Ok(mut g) = self.cur.try_lock() { g.clear(); g.push_str(&case.chars().take(2000).collect::<String>()); }
    }
    pub fn count(&mut self, name: &str) { *self.counters.entry(name.into()).or_insert(0) += 1; }
    pub fn violation(&mut self, key: &str, what: impl Into<String>, case: impl Into<String>) {
        let (what, case) = (what.into(), case.into());
        let e = self.violations.get(key).map(|v| v.case.len()).unwrap_or(usize::MAX);
        if case.len() < e { self.violations.insert(key.into(), V { key: key.into(), what: what.chars().take(3000).collect(), case: case.chars().take(6000).collect() }); }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String, case: impl FnOnce() -> String) -> bool { if !ok { self.violation(key, what(), case()); } ok }
    /// run code under test; a panic is a violation
    pub fn guard<T>(&mut self, key: &str, case: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match caught(f) {
            Ok(v) => Some(v),
            Err(_) => { let m = LASTPANIC.with(|l| l.borrow().clone()); self.violation(&format!("panic-{key}"), format!("unexpected panic: {m}"), case()); None }
        }
    }
    pub fn finish(self) -> ! {
        let vs: Vec<String> = self.violations.values().map(|v| format!("{{\"key\":\"{}\",\"what\":\"{}\",\"case\":\"{}\"}}", esc(&v.key), esc(&v.what), esc(&v.case))).collect();
        let ss: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let cs: Vec<String> = self.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        println!("{{\"property\":\"{}\",\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"counters\":{{{}}},\"wall_s\":{:.2},\"violations\":[{}]}}",
            self.prop, self.seed as i64, self.evals, self.nontrivial, ss.join(","), cs.join(","), self.started.elapsed().as_secs_f64(), vs.join(","));
        std::process::exit(0)
    }
}

/// Did `f` panic? (panic expected or irrelevant)
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    caught(f).map_err(|_| LASTPANIC.with(|l| l.borrow().clone()))
}
pub fn last_panic() -> String { LASTPANIC.with(|l| l.borrow().clone()) }

/// Minimal independent unsigned bignum (base 10^9 big-endian free, little-endian u32 limbs) used as an oracle.
pub mod big {
    /// signed big integer, little-endian base 2^32, independent of the code under test
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Z { pub neg: bool, pub m: Vec<u32> }
    fn trim(m: &mut Vec<u32>) { while m.last() == Some(&0) { m.pop(); } }
    fn cmpm(a: &[u32], b: &[u32]) -> std::cmp::Ordering { if a.len() != b.len() { return a.len().cmp(&b.len()); } for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } } std::cmp::Ordering::Equal }
    fn addm(a: &[u32], b: &[u32]) -> Vec<u32> { let mut o = vec![]; let mut c = 0u64; for i in 0..a.len().max(b.len()) { let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64; o.push(s as u32); c = s >> 32; } if c > 0 { o.push(c as u32); } o }
    fn subm(a: &[u32], b: &[u32]) -> Vec<u32> { let mut o = vec![]; let mut c = 0i64; for i in 0..a.len() { let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c; c = 0; if d < 0 { d += 1 << 32; c = 1; } o.push(d as u32); } trim(&mut o); o }
    impl Z {
        pub fn new(neg: bool, mut m: Vec<u32>) -> Z { trim(&mut m); let neg = neg && !m.is_empty(); Z { neg, m } }
        pub fn from_i128(x: i128) -> Z { let mut u = x.unsigned_abs(); let mut m = vec![]; while u > 0 { m.push(u as u32); u >>= 32; } Z::new(x < 0, m) }
        pub fn from_u64s(neg: bool, l: &[u64]) -> Z { let mut m = vec![]; for x in l { m.push(*x as u32); m.push((*x >> 32) as u32); } Z::new(neg, m) }
        pub fn is_zero(&self) -> bool { self.m.is_empty() }
        pub fn neg(&self) -> Z { Z::new(!self.neg, self.m.clone()) }
        pub fn abs(&self) -> Z { Z::new(false, self.m.clone()) }
        pub fn add(&self, o: &Z) -> Z { if self.neg == o.neg { Z::new(self.neg, addm(&self.m, &o.m)) } else { match cmpm(&self.m, &o.m) { std::cmp::Ordering::Less => Z::new(o.neg, subm(&o.m, &self.m)), _ => Z::new(self.neg, subm(&self.m, &o.m)) } } }
        pub fn sub(&self, o: &Z) -> Z { self.add(&o.neg()) }
        pub fn mul(&self, o: &Z) -> Z { let mut r = vec![0u32; self.m.len() + o.m.len() + 1]; for i in 0..self.m.len() { let mut c = 0u64; for j in 0..o.m.len() { let t = r[i + j] as u64 + self.m[i] as u64 * o.m[j] as u64 + c; r[i + j] = t as u32; c = t >> 32; } let mut k = i + o.m.len(); while c > 0 { let t = r[k] as u64 + c; r[k] = t as u32; c = t >> 32; k += 1; } } Z::new(self.neg != o.neg, r) }
        /// truncated division (bitwise, independent algorithm)
        pub fn divrem(&self, o: &Z) -> (Z, Z) {
            assert!(!o.is_zero());
            if o.m.len() == 1 { let d = o.m[0] as u64; let mut q = vec![0u32; self.m.len()]; let mut r = 0u64; for i in (0..self.m.len()).rev() { let c = (r << 32) | self.m[i] as u64; q[i] = (c / d) as u32; r = c % d; } return (Z::new(self.neg != o.neg, q), Z::new(self.neg, vec![r as u32])); }
            let mut q = vec![0u32; self.m.len()]; let mut r: Vec<u32> = vec![];
            for i in (0..self.m.len() * 32).rev() { let mut c = (self.m[i / 32] >> (i % 32)) & 1; for x in r.iter_mut() { let n = *x >> 31; *x = (*x << 1) | c; c = n; } if c > 0 { r.push(c); } trim(&mut r); if cmpm(&r, &o.m) != std::cmp::Ordering::Less { r = subm(&r, &o.m); q[i / 32] |= 1 << (i % 32); } }
            (Z::new(self.neg != o.neg, q), Z::new(self.neg, r))
        }
        pub fn pow(&self, e: u32) -> Z { let mut r = Z::from_i128(1); for _ in 0..e { r = r.mul(self); } r }
        pub fn cmp(&self, o: &Z) -> std::cmp::Ordering { match (self.neg, o.neg) { (true, false) => std::cmp::Ordering::Less, (false, true) => std::cmp::Ordering::Greater, (false, false) => cmpm(&self.m, &o.m), (true, true) => cmpm(&o.m, &self.m) } }
        pub fn gcd(&self, o: &Z) -> Z { let (mut a, mut b) = (self.abs(), o.abs()); while !b.is_zero() { let r = a.divrem(&b).1; a = b; b = r; } a }
        /// floor division
        pub fn divfloor(&self, o: &Z) -> Z { let (q, r) = self.divrem(o); if !r.is_zero() && (r.neg != o.neg) { q.sub(&Z::from_i128(1)) } else { q } }
        pub fn modp(&self, o: &Z) -> Z { let r = self.divrem(o).1; if r.neg { r.add(&o.abs()) } else { r } }
        pub fn to_i128(&self) -> Option<i128> { if self.m.len() > 4 { return None; } let mut u = 0u128; for (i, x) in self.m.iter().enumerate() { u |= (*x as u128) << (32 * i); } if self.neg { if u <= 1u128 << 127 { Some((u as i128).wrapping_neg()) } else { None } } else if u < 1u128 << 127 { Some(u as i128) } else { None } }
        pub fn bits(&self) -> usize { if self.m.is_empty() { 0 } else { self.m.len() * 32 - self.m.last().unwrap().leading_zeros() as usize } }
        pub fn shl(&self, n: u32) -> Z { self.mul(&Z::from_i128(2).pow(n)) }
        pub fn dec(&self) -> String {
            if self.m.is_empty() { return "0".into(); }
            let mut m = self.m.clone(); let mut parts = vec![];
            while !m.is_empty() { let mut r = 0u64; for x in m.iter_mut().rev() { let c = (r << 32) | *x as u64; *x = (c / 1_000_000_000) as u32; r = c % 1_000_000_000; } trim(&mut m); parts.push(r); }
            let mut s = String::new(); if self.neg { s.push('-'); } s.push_str(&parts.last().unwrap().to_string()); for p in parts.iter().rev().skip(1) { s.push_str(&format!("{:09}", p)); } s
        }
        pub fn parse(s: &str) -> Option<Z> { let (neg, d) = match s.as_bytes().first()? { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) }; if d.is_empty() { return None; } let mut r = Z::from_i128(0); for c in d.bytes() { if !c.is_ascii_digit() { return None; } r = r.mul(&Z::from_i128(10)).add(&Z::from_i128((c - b'0') as i128)); } if neg { r = r.neg(); } Some(r) }
    }
}
