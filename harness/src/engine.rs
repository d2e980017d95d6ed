//! A small choice-sequence property-testing engine.
//!
//! Every random decision of a case is drawn through `Src` and recorded as bytes; a case is
//! a pure function of those bytes, so replaying and shrinking work on the byte string alone.
//! A draw past the end of a replayed string yields zeros, and zero is always the simplest choice.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identification, matched against the known-findings file
    pub key: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        key: key.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($fmt:tt)*) => {
        if !($cond) {
            return Err($crate::engine::Fail { key: String::from($key), msg: format!($($fmt)*) });
        }
    };
}

static RECORDING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static RECORD: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
/// write every draw to `path` as it is made (for cases that kill the process)
pub fn record_to(path: &str) {
    *RECORD.lock().unwrap() = std::fs::File::create(path).ok();
    RECORDING.store(true, std::sync::atomic::Ordering::Relaxed);
}

pub struct Src {
    rng: u64,
    replay: Option<Vec<u8>>,
    pos: usize,
    pub rec: Vec<u8>,
    pub labels: Vec<&'static str>,
    pub note: String,
    pub nontrivial: bool,
    /// digest of everything the code under test produced, for cross-configuration comparison
    pub out: u64,
    pub idx: u64,
}

impl Src {
    pub fn random(seed: u64, idx: u64) -> Self {
        Self::mk(seed, None, idx)
    }
    pub fn replay(bytes: Vec<u8>, idx: u64) -> Self {
        Self::mk(0, Some(bytes), idx)
    }
    fn mk(rng: u64, replay: Option<Vec<u8>>, idx: u64) -> Self {
        Self {
            rng,
            replay,
            pos: 0,
            rec: Vec::new(),
            labels: Vec::new(),
            note: String::new(),
            nontrivial: false,
            out: 0,
            idx,
        }
    }
    fn raw(&mut self, out: &mut [u8]) {
        match &self.replay {
            Some(b) => {
                for o in out.iter_mut() {
                    *o = b.get(self.pos).copied().unwrap_or(0);
                    self.pos += 1;
                }
            }
            None => {
                for c in out.chunks_mut(8) {
                    let v = splitmix(&mut self.rng).to_le_bytes();
                    c.copy_from_slice(&v[..c.len()]);
                }
            }
        }
        self.rec.extend_from_slice(out);
        if RECORDING.load(std::sync::atomic::Ordering::Relaxed) {
            if let Ok(mut g) = RECORD.lock() {
                if let Some(f) = g.as_mut() {
                    use std::io::Write;
                    let _ = f.write_all(out);
                }
            }
        }
    }
    pub fn u8(&mut self) -> u8 {
        let mut b = [0; 1];
        self.raw(&mut b);
        b[0]
    }
    pub fn u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.raw(&mut b);
        u64::from_be_bytes(b)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if n <= 1 << 8 {
            self.u8() as u64
        } else if n <= 1 << 16 {
            let mut b = [0; 2];
            self.raw(&mut b);
            u16::from_be_bytes(b) as u64
        } else if n <= 1 << 32 {
            let mut b = [0; 4];
            self.raw(&mut b);
            u32::from_be_bytes(b) as u64
        } else {
            self.u64()
        };
        v % n
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.idx(s.len());
        &s[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// exactly-recorded bytes (shrinkable individually); use for short values
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.raw(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.raw(&mut v);
        v
    }
    /// long data expanded from a short recorded seed
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        if n == 0 {
            return Vec::new();
        }
        if n <= 8 {
            return self.bytes(n);
        }
        let mode = self.weighted(&[1, 12, 1, 1, 1]);
        match mode {
            0 => vec![0; n],
            2 => vec![0xff; n],
            3 => (0..n).map(|i| i as u8).collect(),
            4 => {
                // sparse: zeros with a few set bytes
                let mut v = vec![0; n];
                for _ in 0..3 {
                    let i = self.idx(n);
                    v[i] = self.u8();
                }
                v
            }
            _ => {
                let mut seed = self.u64();
                let mut v = vec![0; n];
                for c in v.chunks_mut(8) {
                    let x = splitmix(&mut seed).to_le_bytes();
                    c.copy_from_slice(&x[..c.len()]);
                }
                v
            }
        }
    }
    pub fn barr<const N: usize>(&mut self) -> [u8; N] {
        self.blob(N).try_into().unwrap()
    }
    /// fixed-width big-endian-or-little-endian value with edge-heavy structure
    pub fn edgy<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0u8; N];
        match self.weighted(&[2, 6, 2, 2, 2, 2]) {
            0 => {
                v[N - 1] = self.u8();
            }
            1 => {
                let mut seed = self.u64();
                for c in v.chunks_mut(8) {
                    let x = splitmix(&mut seed).to_le_bytes();
                    c.copy_from_slice(&x[..c.len()]);
                }
            }
            2 => {
                // all ones with perturbation
                v = [0xff; N];
                let i = self.idx(N);
                v[i] = self.u8();
            }
            3 => {
                // words each 0, all ones, or random
                for c in v.chunks_mut(8) {
                    match self.idx(4) {
                        0 => {}
                        1 => c.fill(0xff),
                        2 => {
                            let x = self.u8();
                            c[0] = x;
                        }
                        _ => {
                            let mut seed = self.u8() as u64;
                            let x = splitmix(&mut seed).to_le_bytes();
                            let l = c.len();
                            c.copy_from_slice(&x[..l]);
                        }
                    }
                }
            }
            4 => {
                // a run of one bits
                let a = self.idx(N * 8);
                let b = self.idx(N * 8);
                for i in a.min(b)..=a.max(b) {
                    v[i / 8] |= 1 << (i % 8);
                }
            }
            _ => {
                // sparse bits
                for _ in 0..=self.idx(4) {
                    let i = self.idx(N * 8);
                    v[i / 8] |= 1 << (i % 8);
                }
            }
        }
        v
    }
    /// a length, heavy on small values and on neighbourhoods of block sizes
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.weighted(&[4, 4, 4, 1]) {
            0 => self.idx(40),
            1 => {
                let m = *self.pick(&[8usize, 16, 32, 48, 64, 128, 136, 168, 256, 512, 72, 96]);
                let k = self.range(1, 8);
                let d = self.idx(5) as i64 - 2;
                ((m * k) as i64 + d).max(0) as usize
            }
            2 => self.idx(700),
            _ => self.idx(max + 1),
        };
        v.min(max)
    }
    /// split `n` into pieces (possibly empty ones) whose sizes sum to `n`
    pub fn partition(&mut self, n: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut left = n;
        let style = self.idx(4);
        let mut guard = 0;
        while left > 0 {
            guard += 1;
            let k = match style {
                0 => left,
                1 => self.idx(left + 1),
                2 => {
                    let m = *self.pick(&[1usize, 16, 63, 64, 65, 127, 128, 129, 0, 136, 168, 72]);
                    m.min(left)
                }
                _ => self.idx(300.min(left) + 1),
            };
            let k = if guard > 200 { left } else { k };
            out.push(k);
            left -= k;
        }
        if style != 0 && self.one_in(4) {
            out.push(0);
        }
        out
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.note = s.into();
    }
    pub fn emit(&mut self, b: &[u8]) {
        self.out = fnv(&[&self.out.to_le_bytes(), b]);
    }
    pub fn emit_ok(&mut self, b: bool) {
        self.emit(&[b as u8]);
    }
}

pub type CheckFn = fn(&mut Src) -> R;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cfgs {
    /// host CPU only
    One,
    /// every reduced CPU feature set the library can run with
    All,
}

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    pub cfgs: Cfgs,
    /// compare emitted outputs across configurations
    pub cross: bool,
}

impl Sub {
    pub const fn new(name: &'static str, f: CheckFn, quick: u64, thorough: u64) -> Self {
        Sub {
            name,
            f,
            quick,
            thorough,
            cfgs: Cfgs::One,
            cross: false,
        }
    }
    pub const fn all(mut self) -> Self {
        self.cfgs = Cfgs::All;
        self
    }
    pub const fn cross(mut self) -> Self {
        self.cfgs = Cfgs::All;
        self.cross = true;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {m}")));
    }));
}

/// Runs code that must not panic; `Err` holds the panic message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub fn run_case(f: CheckFn, s: &mut Src) -> R {
    crate::rngshim::reset();
    crate::watch::reset();
    let r = match no_panic(|| f(s)) {
        Ok(r) => r,
        Err(m) => {
            // key without line numbers: message only
            let what = m.splitn(2, ": ").nth(1).unwrap_or("").to_string();
            let mut k: String = what.chars().take(60).collect();
            if k.is_empty() {
                k = "panic".into();
            }
            fail(&format!("panic:{k}"), m)
        }
    };
    crate::rngshim::reset();
    r
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    fnv(&[
        &seed.to_le_bytes(),
        prop.as_bytes(),
        sub.as_bytes(),
        &idx.to_le_bytes(),
    ])
}

/// Generic byte-string shrinker; `test` returns true while the failure (any failure with the
/// same key) persists.
pub fn shrink(mut best: Vec<u8>, mut test: impl FnMut(&[u8]) -> bool, budget: usize, secs: u64) -> Vec<u8> {
    let start = std::time::Instant::now();
    let mut used = 0;
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Vec<u8> = $c;
            used += 1;
            if used > budget || start.elapsed().as_secs() >= secs {
                return best;
            }
            if test(&c) {
                best = c;
                true
            } else {
                false
            }
        }};
    }
    // strip trailing zeros: identical by construction
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // truncate
        let mut n = best.len();
        while n > 0 {
            n /= 2;
            if n < best.len() {
                attempt!(best[..n].to_vec());
            }
        }
        // delete chunks / zero chunks
        let mut size = best.len().max(1).next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt!(c) {
                    continue;
                }
                if best[i..e].iter().any(|b| *b != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower individual bytes
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut hi = best[i];
            let mut step = hi / 2;
            while step > 0 && i < best.len() {
                let mut c = best.clone();
                c[i] = hi - step;
                if attempt!(c) {
                    hi -= step;
                }
                step /= 2;
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before {
            return best;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..24]), b.len())
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    s.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

static BEAT: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn set_beat(p: *mut u64) {
    BEAT.store(p, std::sync::atomic::Ordering::Relaxed);
}
/// a long case tells the runner that it is still making progress
pub fn beat() {
    let p = BEAT.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        unsafe { std::ptr::write_volatile(p, std::ptr::read_volatile(p) + 1) }
    }
}
