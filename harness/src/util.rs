//! Randomness, checksums, panic capture, allocation monitor and run statistics.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn of(parts: &[u64]) -> Self {
        let mut r = Rng::new(0x5851_F42D_4C95_7F2D);
        for p in parts { r.0 = r.next().wrapping_add(p.wrapping_mul(0xD6E8_FEB8_6659_FD93)); }
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn fill(&mut self, b: &mut [u8]) {
        match self.below(6) {
            0 => b.fill(0),
            1 => b.fill(0xFF),
            _ => for c in b.chunks_mut(8) { let v = self.next().to_le_bytes(); let n = c.len(); c.copy_from_slice(&v[..n]); },
        }
    }
    /// a value of `bytes` bytes, extremes and bit patterns favoured
    pub fn interesting(&mut self, bytes: usize) -> u128 {
        let bits = bytes * 8;
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.below(8) {
            0 => 0,
            1 => u128::MAX,
            2 => 1u128 << (bits - 1),
            3 => (1u128 << (bits - 1)) - 1,
            4 => 1u128 << self.below(bits),
            5 => self.below(4) as u128,
            _ => ((self.next() as u128) << 64) | self.next() as u128,
        };
        v & mask
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); } }
}

pub fn put_le(o: &mut Vec<u8>, v: u128, n: usize) { o.extend_from_slice(&v.to_le_bytes()[..n]); }

fn crc_table() -> &'static [u32; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 { c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 }; }
            *e = c;
        }
        t
    })
}
/// CRC-32 (IEEE), own implementation: the oracle must not share the library's.
pub fn crc32(b: &[u8]) -> u32 {
    let t = crc_table();
    let mut c = !0u32;
    for x in b { c = t[((c ^ *x as u32) & 0xFF) as usize] ^ (c >> 8); }
    !c
}
pub fn fnv(b: &[u8]) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100_0000_01b3); } h }

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() { if i == hexmax() { s.push_str(&format!("..({} bytes)", b.len())); break; } s.push_str(&format!("{x:02x}")); }
    s
}

// ---------------------------------------------------------------- panic capture
thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) > 0 {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            LAST.with(|l| *l.borrow_mut() = format!("panic at {loc}: {msg}"));
        } else { prev(i) }
    }));
}
/// Runs library code; a panic inside it becomes an observation (Err with location and message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

// ---------------------------------------------------------------- allocation monitor
pub struct Mon;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
}
fn note(sz: usize) {
    let _ = CUR.try_with(|c| { let v = c.get() + sz as i64; c.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
    let _ = BIG.try_with(|b| if sz as u64 > b.get() { b.set(sz as u64) });
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { let _ = CUR.try_with(|c| c.set(c.get() - l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _ = CUR.try_with(|c| c.set(c.get() - l.size() as i64)); note(n); System.realloc(p, l, n) }
}
/// Peak of live bytes and largest single request of this thread while `f` runs (relative to its start).
pub fn alloc_watch<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    BIG.with(|b| b.set(0));
    let r = f();
    let peak = (PEAK.with(|p| p.get()) - start).max(0) as u64;
    (r, peak, BIG.with(|b| b.get()))
}

// ---------------------------------------------------------------- statistics of a run
#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub fresh: Vec<u64>,
    pub samples: Vec<String>,
    pub trivial: u64,
    pub cases: u64,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) { *self.counts.entry(k).or_insert(0) += n; }
    pub fn max(&mut self, k: &'static str, n: u64) { let e = self.counts.entry(k).or_insert(0); if n > *e { *e = n } }
    /// a distinct non-trivial situation observed (by fingerprint)
    pub fn seen(&mut self, h: u64) { self.fresh.push(h); }
    /// end of a case: what a trivial case showed does not count as distinct
    pub fn close_case(&mut self, trivial_before: u64) { self.cases += 1; if self.trivial == trivial_before { self.distinct.extend(self.fresh.drain(..)) } else { self.fresh.clear() } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 3 { let s = f(); self.samples.push(s) } }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts { if k.starts_with("max_") { self.max(k, v) } else { self.add(k, v) } }
        self.distinct.extend(o.distinct);
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s) } }
        self.trivial += o.trivial;
        self.cases += o.cases;
    }
}
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn tick() { PROGRESS.fetch_add(1, Ordering::Relaxed); }

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
fn hexmax() -> usize { std::env::var("MON_HEX").ok().and_then(|v| v.parse().ok()).unwrap_or(96) }
