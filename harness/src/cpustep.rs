//! Runs a piece of code as if the processor had only some of its features: `cpuid` and `xgetbv` are
//! answered accordingly, and every instruction executed from this program's own text is checked against
//! them. Either one instruction at a time (x86 trap flag), or with breakpoints in the place of all
//! instructions that the processor lacks.
use std::arch::x86_64::{__cpuid_count, _xgetbv};

macro_rules! features {
    ($($id:ident = $name:literal),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(u32)]
        enum F { $($id),* }
        $(pub const $id: u32 = 1 << F::$id as u32;)*
        pub const NAMES: &[&str] = &[$($name),*];
    };
}
features!(
    SSE3 = "sse3",
    SSSE3 = "ssse3",
    SSE41 = "sse4.1",
    SSE42 = "sse4.2",
    MOVBE = "movbe",
    POPCNT = "popcnt",
    LZCNT = "lzcnt",
    AES = "aes",
    PCLMUL = "pclmulqdq",
    AVX = "avx",
    F16C = "f16c",
    FMA = "fma",
    AVX2 = "avx2",
    BMI1 = "bmi1",
    BMI2 = "bmi2",
    ADX = "adx",
    SHA = "sha",
    VAES = "vaes",
    VPCLMUL = "vpclmulqdq",
    GFNI = "gfni",
    AVX512F = "avx512f",
    AVX512VL = "avx512vl",
    AVX512BW = "avx512bw",
    AVX512DQ = "avx512dq",
    AVX512X = "avx512 (others)",
);
pub const ALL: u32 = (1 << NAMES.len()) - 1;

pub fn names(m: u32) -> String {
    NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join(" ")
}

/// what a processor with a feature also has
const NEEDS: &[(u32, u32)] = &[
    (SSSE3, SSE3),
    (SSE41, SSSE3),
    (SSE42, SSE41 | POPCNT),
    (AVX, SSE42),
    (F16C, AVX),
    (FMA, AVX),
    (AVX2, AVX),
    (VAES, AVX | AES),
    (VPCLMUL, AVX | PCLMUL),
    (AVX512F, AVX2 | FMA | F16C),
    (AVX512VL, AVX512F),
    (AVX512BW, AVX512F),
    (AVX512DQ, AVX512F),
    (AVX512X, AVX512F),
];
/// drops what cannot be there for want of something else
pub fn close(mut m: u32) -> u32 {
    loop {
        let n = NEEDS.iter().fold(m, |m, (f, n)| if m & n == *n { m } else { m & !f });
        if n == m {
            return m;
        }
        m = n;
    }
}

type Bit = (u32, u32, usize, u32, u32);
/// leaf, subleaf, register (a b c d), bit, feature
const BITS: &[Bit] = &[
    (1, 0, 2, 0, SSE3),
    (1, 0, 2, 1, PCLMUL),
    (1, 0, 2, 9, SSSE3),
    (1, 0, 2, 12, FMA),
    (1, 0, 2, 19, SSE41),
    (1, 0, 2, 20, SSE42),
    (1, 0, 2, 22, MOVBE),
    (1, 0, 2, 23, POPCNT),
    (1, 0, 2, 25, AES),
    (1, 0, 2, 28, AVX),
    (1, 0, 2, 29, F16C),
    (7, 0, 1, 3, BMI1),
    (7, 0, 1, 5, AVX2),
    (7, 0, 1, 8, BMI2),
    (7, 0, 1, 16, AVX512F),
    (7, 0, 1, 17, AVX512DQ),
    (7, 0, 1, 19, ADX),
    (7, 0, 1, 21, AVX512X),
    (7, 0, 1, 28, AVX512X),
    (7, 0, 1, 29, SHA),
    (7, 0, 1, 30, AVX512BW),
    (7, 0, 1, 31, AVX512VL),
    (7, 0, 2, 1, AVX512X),
    (7, 0, 2, 6, AVX512X),
    (7, 0, 2, 8, GFNI),
    (7, 0, 2, 9, VAES),
    (7, 0, 2, 10, VPCLMUL),
    (7, 0, 2, 11, AVX512X),
    (7, 0, 2, 12, AVX512X),
    (7, 0, 2, 14, AVX512X),
    (7, 0, 3, 8, AVX512X),
    (7, 0, 3, 23, AVX512X),
    (7, 1, 0, 0, AVX512X),
    (7, 1, 0, 4, AVX512X),
    (7, 1, 0, 5, AVX512X),
    (0x8000_0001, 0, 2, 5, LZCNT),
];

pub fn host() -> u32 {
    let mut m = ALL;
    let max = unsafe { __cpuid_count(0, 0) }.eax;
    for (l, s, r, b, f) in BITS {
        if *f == AVX512X {
            continue;
        }
        let x = if *l < 0x8000_0000 && *l > max { [0; 4] } else { cpuid(*l, *s) };
        if x[*r] >> b & 1 == 0 {
            m &= !f;
        }
    }
    close(m)
}
fn cpuid(l: u32, s: u32) -> [u32; 4] {
    #[allow(unused_unsafe)]
    let r = unsafe { __cpuid_count(l, s) };
    [r.eax, r.ebx, r.ecx, r.edx]
}

pub struct St {
    on: bool,
    has: u32,
    /// state the operating system keeps
    xcr0: u64,
    text: (u64, u64),
    pub steps: u64,
    pub asked: u64,
    /// first instruction that needs what is not there
    pub bad: u64,
    pub lacks: u32,
    pub used: u32,
    table: Vec<(u32, u32, [u32; 4])>,
    asks: Vec<(i32, bool)>,
    broken: Vec<(i32, u32)>,
    leave: Option<fn()>,
}
static mut ST: St = St {
    on: false,
    has: 0,
    xcr0: 0,
    text: (0, 0),
    steps: 0,
    asked: 0,
    bad: 0,
    lacks: 0,
    used: 0,
    table: vec![],
    asks: vec![],
    broken: vec![],
    leave: None,
};
pub fn st() -> &'static mut St {
    unsafe { &mut *std::ptr::addr_of_mut!(ST) }
}

/// the features an instruction needs
pub unsafe fn needs(p: *const u8) -> u32 {
    let mut i = 0;
    let (mut p66, mut pf2, mut pf3) = (false, false, false);
    loop {
        match *p.add(i) {
            0x66 => p66 = true,
            0xf2 => (pf2, pf3) = (true, false),
            0xf3 => (pf2, pf3) = (false, true),
            0x67 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 => {}
            _ => break,
        }
        i += 1;
    }
    if *p.add(i) & 0xf0 == 0x40 {
        i += 1;
    }
    match *p.add(i) {
        0x0f => legacy(p.add(i + 1), p66, pf2, pf3),
        0xc5 => {
            let x = *p.add(i + 1);
            vex(1, *p.add(i + 2), x >> 2 & 1, x & 3, 0, *p.add(i + 3))
        }
        0xc4 => {
            let (x, y) = (*p.add(i + 1), *p.add(i + 2));
            vex(x & 0x1f, *p.add(i + 3), y >> 2 & 1, y & 3, y >> 7, *p.add(i + 4))
        }
        0x62 => {
            let (x, y, z) = (*p.add(i + 1), *p.add(i + 2), *p.add(i + 3));
            evex(x & 7, *p.add(i + 4), z >> 5 & 3, y & 3, y >> 7, *p.add(i + 5))
        }
        _ => 0,
    }
}
unsafe fn legacy(p: *const u8, p66: bool, pf2: bool, pf3: bool) -> u32 {
    let op = *p.add(1);
    match *p {
        0x38 => match op {
            0x00..=0x0b | 0x1c..=0x1e => SSSE3,
            0x37 => SSE42,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 => SSE41,
            0xc8..=0xcd => SHA,
            0xcf => GFNI,
            0xdb..=0xdf => AES,
            0xf0 | 0xf1 => {
                if pf2 {
                    SSE42
                } else {
                    MOVBE
                }
            }
            0xf6 if p66 || pf3 => ADX,
            _ => 0,
        },
        0x3a => match op {
            0x0f => SSSE3,
            0x44 => PCLMUL,
            0x60..=0x63 => SSE42,
            0xcc => SHA,
            0xce | 0xcf => GFNI,
            0xdf => AES,
            0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => SSE41,
            _ => 0,
        },
        0xb8 if pf3 => POPCNT,
        0xbd if pf3 => LZCNT,
        0x12 if pf2 || pf3 => SSE3,
        0x16 if pf3 => SSE3,
        0xf0 if pf2 => SSE3,
        0xd0 | 0x7c | 0x7d if p66 || pf2 => SSE3,
        _ => 0,
    }
}
fn vex(map: u8, op: u8, l: u8, pp: u8, w: u8, modrm: u8) -> u32 {
    match (map, op) {
        // general registers
        (2, 0xf2 | 0xf3) => BMI1,
        (2, 0xf7) if pp == 0 => BMI1,
        (2, 0xf5..=0xf7) => BMI2,
        (3, 0xf0) => BMI2,
        // masks
        (1, 0x41 | 0x42 | 0x44..=0x47 | 0x90 | 0x91 | 0x98) => match (w, pp) {
            (0, 0) => AVX512F,
            (0, _) => AVX512DQ,
            _ => AVX512BW,
        },
        (1, 0x92 | 0x93) => match pp {
            0 => AVX512F,
            1 => AVX512DQ,
            _ => AVX512BW,
        },
        (1, 0x4a | 0x99) => {
            if w == 0 {
                AVX512DQ
            } else {
                AVX512BW
            }
        }
        (1, 0x4b) => {
            if pp == 1 {
                AVX512F
            } else {
                AVX512BW
            }
        }
        (3, 0x30 | 0x32) => {
            if w == 1 {
                AVX512F
            } else {
                AVX512DQ
            }
        }
        (3, 0x31 | 0x33) => AVX512BW,
        // vectors
        (1, 0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe) if l == 1 => AVX2,
        (2, 0x13) | (3, 0x1d) => F16C,
        (2, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) => FMA,
        (2, 0x50..=0x53) => AVX512X,
        (2, 0xcf) | (3, 0xce | 0xcf) => GFNI | AVX,
        (2, 0xdb) | (3, 0xdf) => AES | AVX,
        (2, 0xdc..=0xdf) => {
            if l == 1 {
                VAES
            } else {
                AES | AVX
            }
        }
        (3, 0x44) => {
            if l == 1 {
                VPCLMUL
            } else {
                PCLMUL | AVX
            }
        }
        (2, 0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93) => AVX2,
        (2, 0x18 | 0x19) if modrm >= 0xc0 => AVX2,
        (2, 0x0c..=0x0f | 0x17..=0x1a | 0x2c..=0x2f) => AVX,
        (2, _) if l == 1 => AVX2,
        (3, 0x00..=0x02 | 0x38 | 0x39 | 0x46) => AVX2,
        (3, 0x0e | 0x0f | 0x42 | 0x4c) if l == 1 => AVX2,
        _ => AVX,
    }
}
fn evex(map: u8, op: u8, ll: u8, pp: u8, w: u8, modrm: u8) -> u32 {
    let mut f = AVX512F;
    let scalar = map == 1 && matches!(op, 0x10 | 0x11 | 0x2a | 0x2c..=0x2f | 0x51 | 0x58..=0x5f | 0x6e | 0x7e | 0xd6) && (pp >= 2 || op >= 0x6e || matches!(op, 0x2e | 0x2f));
    if ll < 2 && !scalar {
        f |= AVX512VL;
    }
    f | match (map, op) {
        (1, 0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xc4 | 0xc5) => AVX512BW,
        (1, 0xd1 | 0xd5 | 0xd8..=0xda | 0xdc..=0xde | 0xe0 | 0xe1 | 0xe3..=0xe5 | 0xe8..=0xea | 0xec..=0xee | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd) => AVX512BW,
        (1, 0x6f | 0x7f) if pp == 3 => AVX512BW,
        (1, 0x70) if pp >= 2 => AVX512BW,
        (1, 0x73) if matches!(modrm >> 3 & 7, 3 | 7) => AVX512BW,
        (1, 0x54..=0x57) => AVX512DQ,
        (2, 0x00 | 0x04 | 0x0b | 0x1c | 0x1d | 0x26 | 0x2b | 0x66 | 0x78..=0x7b) => AVX512BW,
        (2, 0x10..=0x12) if w == 1 && pp == 1 => AVX512BW,
        (2, 0x20 | 0x30 | 0x38 | 0x3a | 0x3c | 0x3e) if pp == 1 => AVX512BW,
        (2, 0x20 | 0x30 | 0x10) if pp == 2 => AVX512BW,
        (2, 0x28 | 0x29) if pp == 2 => AVX512BW,
        (2, 0x38 | 0x39) if pp == 2 => AVX512DQ,
        (2, 0x75 | 0x7d | 0x8d) => {
            if w == 1 {
                AVX512BW
            } else {
                AVX512X
            }
        }
        (2, 0x40) if w == 1 => AVX512DQ,
        (2, 0x19 | 0x1b | 0x59 | 0x5b) if w == 0 => 0,
        (2, 0x1a | 0x5a) if w == 1 => AVX512DQ,
        (2, 0x50..=0x55 | 0x62 | 0x63 | 0x70..=0x73 | 0xb4 | 0xb5 | 0xc4 | 0x8f | 0x83) => AVX512X,
        (2, 0xcf) | (3, 0xce | 0xcf) => GFNI,
        (2, 0xdc..=0xdf) => VAES,
        (3, 0x44) => VPCLMUL,
        (3, 0x0f | 0x14 | 0x15 | 0x20 | 0x3e | 0x3f | 0x42) => AVX512BW,
        (3, 0x16 | 0x22) => AVX512DQ,
        (3, 0x18 | 0x19 | 0x38 | 0x39) if w == 1 => AVX512DQ,
        (3, 0x1a | 0x1b | 0x3a | 0x3b) if w == 0 => AVX512DQ,
        (3, 0x70..=0x73) => AVX512X,
        _ => 0,
    }
}

/// what `cpuid` or `xgetbv` says; returns its length
fn answer(s: &mut St, r: &mut [i64; 23], id: bool) -> i64 {
    let c = r[libc::REG_RCX as usize] as u32;
    if !id {
        let x = if c == 0 { s.xcr0 } else { 0 };
        r[libc::REG_RAX as usize] = (x & 0xffff_ffff) as i64;
        r[libc::REG_RDX as usize] = (x >> 32) as i64;
        return 3;
    }
    s.asked += 1;
    let l = r[libc::REG_RAX as usize] as u32;
    let mut x = s.table.iter().find(|e| e.0 == l && (e.1 == c || !matches!(l, 7 | 13))).map(|e| e.2).unwrap_or([0; 4]);
    for (bl, bs, reg, bit, f) in BITS {
        if *bl == l && (l != 7 || *bs == c) && s.has & f == 0 {
            x[*reg] &= !(1 << bit);
        }
    }
    for (reg, v) in [libc::REG_RAX, libc::REG_RBX, libc::REG_RCX, libc::REG_RDX].iter().zip(x) {
        r[*reg as usize] = v as i64;
    }
    2
}

extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = st();
    if !s.on {
        return;
    }
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let r = &mut uc.uc_mcontext.gregs;
        s.steps += 1;
        loop {
            let pc = r[libc::REG_RIP as usize] as u64;
            let p = pc as *const u8;
            let id = *p == 0x0f && *p.add(1) == 0xa2;
            if id || (*p == 0x0f && *p.add(1) == 0x01 && *p.add(2) == 0xd0) {
                r[libc::REG_RIP as usize] += answer(s, r, id);
                continue;
            }
            if pc >= s.text.0 && pc < s.text.1 {
                let n = needs(p);
                s.used |= n;
                if n & !s.has != 0 && s.bad == 0 {
                    s.bad = pc;
                    s.lacks = n & !s.has;
                }
            }
            return;
        }
    }
}

/// the instructions of this program that need something, by offset from `needs`; what asks the
/// processor needs 0
pub fn scan() -> Vec<(i32, u32)> {
    let exe = std::env::current_exe().expect("exe");
    let o = std::process::Command::new("objdump").args(["-d", "--no-show-raw-insn", "-j", ".text"]).arg(exe).output().expect("objdump");
    let text = String::from_utf8_lossy(&o.stdout);
    let mut v = vec![];
    // addresses in the file differ from those here by a constant: that of `needs` itself is unknown to
    // objdump by name, so take the program's load address
    let base = base();
    let (lo, hi) = text_range();
    for l in text.lines() {
        let Some((a, rest)) = l.split_once(":\t") else {
            continue;
        };
        let Ok(a) = u64::from_str_radix(a.trim(), 16) else {
            continue;
        };
        let pc = base + a;
        if rest.starts_with("(bad)") || pc < lo || pc + 16 > hi {
            continue;
        }
        let asks = rest.starts_with("cpuid") || rest.starts_with("xgetbv");
        let n = unsafe { needs(pc as *const u8) };
        if asks || n != 0 {
            v.push(((pc as i64 - needs as *const () as i64) as i32, if asks { 0 } else { n }));
        }
    }
    v
}
fn base() -> u64 {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let l = maps.lines().find(|l| l.ends_with(&exe) && l.split_whitespace().nth(2) == Some("00000000")).expect("map");
    u64::from_str_radix(l.split('-').next().unwrap(), 16).unwrap()
}
extern "C" fn on_break(_sig: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = st();
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let r = &mut uc.uc_mcontext.gregs;
        let pc = r[libc::REG_RIP as usize] as u64 - 1;
        let off = (pc as i64 - needs as *const () as i64) as i32;
        s.steps += 1;
        if let Ok(i) = s.asks.binary_search_by_key(&off, |x| x.0) {
            r[libc::REG_RIP as usize] = pc as i64;
            let len = answer(s, r, s.asks[i].1);
            r[libc::REG_RIP as usize] += len;
            return;
        }
        s.bad = pc;
        s.lacks = s.broken.binary_search_by_key(&off, |x| x.0).map(|i| s.broken[i].1).unwrap_or(0) & !s.has;
        if let Some(f) = s.leave {
            f();
        }
        libc::_exit(9);
    }
}
/// like `go`, at full speed; calls `leave` at the first instruction that is not there
#[inline(never)]
pub fn go_fast(has: u32, os: u32, scan: &[(i32, u32)], leave: fn(), f: &mut dyn FnMut()) {
    prepare(has, os, on_break);
    let s = st();
    s.leave = Some(leave);
    let me = needs as *const () as i64;
    unsafe {
        for (o, n) in scan {
            let p = (me + *o as i64) as *const u8;
            if *n == 0 {
                s.asks.push((*o, *p.add(1) == 0xa2));
            } else if n & !s.has != 0 {
                s.broken.push((*o, *n));
            }
        }
        s.asks.sort();
        s.broken.sort();
        let (a, b) = s.text;
        let all = [s.asks.iter().map(|x| x.0).collect::<Vec<_>>(), s.broken.iter().map(|x| x.0).collect()].concat();
        assert_eq!(libc::mprotect(a as *mut _, (b - a) as usize, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC), 0);
        for o in all {
            *((me + o as i64) as *mut u8) = 0xcc;
        }
        assert_eq!(libc::mprotect(a as *mut _, (b - a) as usize, libc::PROT_READ | libc::PROT_EXEC), 0);
    }
    f();
}

/// where this program's own code is
fn text_range() -> (u64, u64) {
    let me = needs as *const () as u64;
    for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
        let mut ab = l.split(' ').next().unwrap_or("").split('-').map(|x| u64::from_str_radix(x, 16).unwrap_or(0));
        let (a, b) = (ab.next().unwrap_or(0), ab.next().unwrap_or(0));
        if a <= me && me < b {
            return (a, b);
        }
    }
    panic!("no text");
}

/// `has`: what the processor has; `os`: the operating system keeps 0 no vector state, 1 that of AVX, 2 all
fn prepare(has: u32, os: u32, handler: extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void)) {
    let s = st();
    for l in [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 0x8000_0000, 0x8000_0001, 0x8000_0002, 0x8000_0003, 0x8000_0004, 0x8000_0006, 0x8000_0007, 0x8000_0008] {
        s.table.push((l, 0, cpuid(l, 0)));
    }
    for n in 0..3 {
        s.table.push((7, n, cpuid(7, n)));
        s.table.push((13, n, cpuid(13, n)));
    }
    // no AMX, APX, AVX10, Key Locker
    s.table.iter_mut().filter(|e| e.0 == 7).for_each(|e| match e.1 {
        0 => e.2 = [e.2[0], e.2[1], e.2[2] & !(1 << 23), e.2[3] & !(7 << 22)],
        _ => {}
    });
    s.has = match os {
        0 => close(has & !AVX),
        1 => close(has & !AVX512F),
        _ => has,
    };
    unsafe {
        s.xcr0 = xcr0()
            & match os {
                0 => 0x3,
                1 => 0x7,
                _ => !0,
            };
        s.text = text_range();
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = handler as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
    }
}
#[inline(never)]
pub fn go(has: u32, os: u32, f: &mut dyn FnMut()) {
    prepare(has, os, on_trap);
    st().on = true;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    stop();
}
#[target_feature(enable = "xsave")]
unsafe fn xcr0() -> u64 {
    _xgetbv(0)
}
pub fn stop() {
    if !st().on {
        return;
    }
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    st().on = false;
}
