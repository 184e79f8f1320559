//! Case runner: deterministic pseudo-random, edge-biased evaluation of contracts on the real code.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Src { s: [u64; 4], pub idx: u64, h: u64, trivial: bool, pub note: String, pub thorough: bool }
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

#[allow(dead_code)]
impl Src {
    pub fn new(seed: u64, case: &str, idx: u64) -> Src {
        let mut x = seed ^ fnv(case.as_bytes()) ^ idx.wrapping_mul(0xd6e8feb86659fd93);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Src { s, idx, h: idx, trivial: false, note: String::new(), thorough: false }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        self.h = (self.h ^ r).wrapping_mul(0x100000001b3).rotate_left(23);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below((b - a + 1) as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { let i = self.below(v.len() as u64) as usize; v[i].clone() }
    pub fn trivial(&mut self) { self.trivial = true }
    pub fn fill(&mut self, o: &mut [u8]) { for c in o.chunks_mut(8) { let b = self.u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    /// edge-biased bytes: random, constant, sparse, runs
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        match self.below(12) {
            0 => {}
            1 => v.fill(0xff),
            2 => { let b = self.u64() as u8; v.fill(b) }
            3 => { for _ in 0..3 { if n > 0 { let i = self.below(n as u64) as usize; v[i] = 1 << self.below(8); } } }
            4 => { self.fill(&mut v); // runs of 00/ff
                let mut i = 0; while i < n { let l = self.range(1, 12).min(n - i); match self.below(3) { 0 => v[i..i + l].fill(0), 1 => v[i..i + l].fill(0xff), _ => {} } i += l; } }
            _ => self.fill(&mut v),
        }
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { self.bytes(N).try_into().unwrap() }
    pub fn rnd<const N: usize>(&mut self) -> [u8; N] { let mut o = [0; N]; self.fill(&mut o); o }
    /// a length up to `max`, biased to multiples of the given block sizes +-1 and to small values
    pub fn len(&mut self, max: usize) -> usize {
        let r = match self.below(6) {
            0 => self.range(0, 40),
            1 | 2 => { let b = self.pick(&[16usize, 64, 128, 136, 168, 72, 256, 512, 1024]); let k = self.range(0, max / b); (k * b + self.range(0, 2)).saturating_sub(1) }
            3 => self.range(0, max.min(600)),
            _ => self.range(0, max),
        };
        r.min(max)
    }
    /// split `m` into chunks, edge biased, including empty ones
    pub fn split<'a>(&mut self, m: &'a [u8], blk: usize) -> Vec<&'a [u8]> {
        let mut out = vec![]; let mut i = 0;
        let style = self.below(6);
        while i < m.len() {
            let r = m.len() - i;
            let l = match style {
                0 => r,
                1 => self.range(0, 3),
                2 => self.range(0, 2 * blk),
                3 => self.pick(&[0, 1, blk - 1, blk, blk + 1, 2 * blk, 2 * blk - 1]),
                4 => self.range(0, 5 * blk),
                _ => { let to = blk - (i % blk); self.pick(&[to, to.saturating_sub(1), to + 1, to + blk, to + 3 * blk, to + 2 * blk + 1]) }
            }.min(r);
            out.push(&m[i..i + l]); i += l;
            if out.len() > 4000 { out.push(&m[i..]); i = m.len(); }
        }
        if self.chance(1, 3) { let p = self.range(0, out.len()); out.insert(p, &[]); }
        out
    }
    pub fn flip(&mut self, v: &mut [u8]) -> usize { let i = self.below(v.len() as u64 * 8) as usize; v[i / 8] ^= 1 << (i % 8); i }
    /// edge-biased 64-bit word
    pub fn word(&mut self) -> u64 {
        match self.below(9) { 0 => 0, 1 => 1, 2 => u64::MAX, 3 => u64::MAX - 1, 4 => 1 << 63, 5 => 1u64 << self.below(64), 6 => (1u64 << self.below(64)).wrapping_sub(1), _ => self.u64() }
    }
    pub fn words(&mut self, n: usize) -> Vec<u64> {
        let style = self.below(5);
        (0..n).map(|_| match style { 0 => self.u64(), 1 => self.pick(&[0, u64::MAX]), 2 => self.pick(&[u64::MAX, u64::MAX, u64::MAX, u64::MAX - 1, 0]), _ => self.word() }).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 { return format!("{}..({} bytes)..{}", hex(&b[..96]), b.len(), hex(&b[b.len() - 96..])); }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! eq { ($a:expr, $b:expr, $($x:tt)*) => { match (&$a[..], &$b[..]) { (a, b) => { let (a, b): (&[u8], &[u8]) = (a, b); if a != b { return Err(format!("{}: got {} want {}", format!($($x)*), $crate::core::hex(a), $crate::core::hex(b))); } } } } }

/// `min`: evaluations always made; `weight`: share of the remaining time
#[derive(Clone)]
pub struct Case { pub name: &'static str, pub min: u64, pub max: u64, pub weight: u64, pub f: fn(&mut Src) -> R }
pub const fn case(name: &'static str, min: u64, weight: u64, f: fn(&mut Src) -> R) -> Case { Case { name, min, max: u64::MAX, weight, f } }
pub const fn once(name: &'static str, n: u64, f: fn(&mut Src) -> R) -> Case { Case { name, min: n, max: n, weight: 0, f } }

pub struct Opts { pub prop: String, pub seed: u64, pub secs: f64, pub threads: usize, pub out: String, pub only: Option<(String, u64)>, pub mult: u64, pub cap: u64, pub filter: Option<String> }

thread_local! { static CUR: std::cell::RefCell<(String, u64)> = const { std::cell::RefCell::new((String::new(), 0)) }; }

extern "C" fn on_crash(sig: i32) {
    CUR.with(|c| {
        if let Ok(c) = c.try_borrow() {
            let s = format!("\nCRASH signal={} case={} idx={}\n", sig, c.0, c.1);
            unsafe { libc::write(2, s.as_ptr() as *const _, s.len()); }
        }
    });
    unsafe { libc::_exit(77) }
}
pub fn install() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            libc::signal(s, on_crash as *const () as libc::sighandler_t);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PMSG.with(|p| *p.borrow_mut() = m);
    }));
}
thread_local! { pub static PMSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn run_one(c: &Case, seed: u64, idx: u64, thorough: bool) -> (R, u64, bool, String) {
    CUR.with(|x| *x.borrow_mut() = (c.name.to_string(), idx));
    let mut s = Src::new(seed, c.name, idx);
    s.thorough = thorough;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.f)(&mut s)));
    let r = match r { Ok(r) => r, Err(_) => Err(format!("panic: {}", PMSG.with(|p| p.borrow().clone()))) };
    (r, s.h, s.trivial, s.note)
}

pub fn jesc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" }

pub fn run(cases: &[Case], o: &Opts) -> i32 {
    install();
    if let Some((n, i)) = &o.only {
        let c = cases.iter().find(|c| c.name == n).expect("no such case");
        let (r, _, _, note) = run_one(c, o.seed, *i, o.mult > 1);
        match r { Ok(()) => { println!("OK {}", note); return 0 } Err(e) => { println!("FAIL case={} idx={} {} [{}]", n, i, e, note); return 1 } }
    }
    let cases: Vec<Case> = cases.iter().filter(|c| o.filter.as_ref().map_or(true, |f| f.split(',').any(|f| c.name.starts_with(f)))).cloned().collect();
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(o.secs);
    let counters: Vec<AtomicU64> = cases.iter().map(|_| AtomicU64::new(0)).collect();
    let spent: Vec<AtomicU64> = cases.iter().map(|_| AtomicU64::new(1)).collect();
    let stop = AtomicBool::new(false);
    let fails = Mutex::new(Vec::<(String, u64, String, String)>::new());
    let distinct = Mutex::new(HashSet::<u64>::new());
    let samples = Mutex::new(BTreeMap::<String, String>::new());
    let mins: Vec<u64> = cases.iter().map(|c| if c.max == c.min { c.min } else { (c.min * o.mult).min(o.cap) }).collect();
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                let mut local = HashSet::new();
                loop {
                    if stop.load(Ordering::Relaxed) { break; }
                    // first pass: mandatory evaluations
                    let mut pickd = None;
                    for (i, _) in cases.iter().enumerate() {
                        let v = counters[i].load(Ordering::Relaxed);
                        if v < mins[i] { let v = counters[i].fetch_add(1, Ordering::Relaxed); if v < mins[i] { pickd = Some((i, v)); break; } }
                    }
                    if pickd.is_none() {
                        if Instant::now() >= deadline { break; }
                        // least time spent relative to weight
                        let mut best = None;
                        for (i, c) in cases.iter().enumerate() {
                            if c.weight == 0 || counters[i].load(Ordering::Relaxed) >= c.max { continue; }
                            let k = spent[i].load(Ordering::Relaxed) as f64 / c.weight as f64;
                            if best.map_or(true, |(b, _)| k < b) { best = Some((k, i)); }
                        }
                        match best { None => break, Some((_, i)) => pickd = Some((i, counters[i].fetch_add(1, Ordering::Relaxed))) }
                    }
                    let (i, idx) = pickd.unwrap();
                    let t = Instant::now();
                    let (r, h, triv, note) = run_one(&cases[i], o.seed, idx, o.mult > 1);
                    spent[i].fetch_add(t.elapsed().as_nanos() as u64, Ordering::Relaxed);
                    if !triv && local.len() < 2_000_000 { local.insert(h ^ fnv(cases[i].name.as_bytes())); }
                    if !note.is_empty() && idx == 0 { samples.lock().unwrap().insert(cases[i].name.to_string(), note.clone()); }
                    if let Err(e) = r {
                        let mut f = fails.lock().unwrap();
                        f.push((cases[i].name.to_string(), idx, e, note));
                        if f.len() >= 4 { stop.store(true, Ordering::Relaxed); }
                    }
                }
                distinct.lock().unwrap().extend(local);
            }).unwrap();
        }
    });
    let fails = fails.into_inner().unwrap();
    let mut j = String::from("{");
    let tot: u64 = cases.iter().enumerate().map(|(i, _)| counters[i].load(Ordering::Relaxed)).sum();
    j += &format!("\"evaluations\":{},\"distinct\":{},\"wall\":{:.3},\"cases\":{{", tot, distinct.into_inner().unwrap().len(), start.elapsed().as_secs_f64());
    j += &cases.iter().enumerate().map(|(i, c)| format!("{}:{}", jesc(c.name), counters[i].load(Ordering::Relaxed).min(c.max))).collect::<Vec<_>>().join(",");
    j += "},\"samples\":{";
    j += &samples.into_inner().unwrap().iter().map(|(k, v)| format!("{}:{}", jesc(k), jesc(v))).collect::<Vec<_>>().join(",");
    j += "},\"failures\":[";
    j += &fails.iter().map(|(c, i, e, n)| format!("{{\"case\":{},\"idx\":{},\"error\":{},\"note\":{}}}", jesc(c), i, jesc(e), jesc(n))).collect::<Vec<_>>().join(",");
    j += "]}\n";
    std::fs::write(&o.out, j).unwrap();
    if fails.is_empty() { 0 } else { 1 }
}
