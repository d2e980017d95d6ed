//! Single-steps a piece of code (x86 trap flag) and records, for each instruction, its address, the
//! base and index of its memory operand, and the operands of divisions. Displacements are fixed by the
//! instruction address. The first run is stored; later runs are compared with it as they happen.
use std::cell::UnsafeCell;

struct St {
    on: bool,
    paused: bool,
    storing: bool,
    buf: *mut [u64; 2],
    cap: usize,
    len: usize,
    pos: usize,
    full: bool,
    diff: Option<Diff>,
    last_pc: u64,
    tid: i32,
}
#[derive(Clone, Copy, Debug)]
pub struct Diff {
    pub at: usize,
    pub prev_pc: u64,
    pub want: [u64; 2],
    pub got: [u64; 2],
}
struct Cell(UnsafeCell<St>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(St {
    on: false,
    paused: false,
    storing: false,
    buf: std::ptr::null_mut(),
    cap: 0,
    len: 0,
    pos: 0,
    full: false,
    diff: None,
    last_pc: 0,
    tid: 0,
}));
fn st() -> &'static mut St {
    unsafe { &mut *ST.0.get() }
}

/// x86 register number to index in gregs
const G: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
const RIP: usize = 16;

fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15)).rotate_left(29).wrapping_mul(0xbf58_476d_1ce4_e5b9)
}

/// what the instruction at `p` is about to touch
unsafe fn operand(p: *const u8, r: &[i64; 23]) -> u64 {
    let reg = |n: usize| r[G[n]] as u64;
    let mut i = 0;
    let mut seg = 0u64;
    loop {
        match *p.add(i) {
            0x66 | 0x67 | 0xf2 | 0xf3 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 => {}
            x @ (0x64 | 0x65) => seg = x as u64,
            _ => break,
        }
        i += 1;
    }
    let (mut rr, mut rx, mut rb) = (0usize, 0usize, 0usize);
    let mut b = *p.add(i);
    if b & 0xf0 == 0x40 {
        rr = (b as usize >> 2 & 1) * 8;
        rx = (b as usize >> 1 & 1) * 8;
        rb = (b as usize & 1) * 8;
        i += 1;
        b = *p.add(i);
    }
    let map;
    let op;
    let mut has = true;
    match b {
        0xc5 => {
            map = 1;
            op = *p.add(i + 2);
            i += 3;
            has = op != 0x77;
        }
        0xc4 => {
            let x = *p.add(i + 1) as usize;
            rr = (!x >> 7 & 1) * 8;
            rx = (!x >> 6 & 1) * 8;
            rb = (!x >> 5 & 1) * 8;
            map = x & 0x1f;
            op = *p.add(i + 3);
            i += 4;
            has = !(map == 1 && op == 0x77);
        }
        0x62 => {
            let x = *p.add(i + 1) as usize;
            rr = (!x >> 7 & 1) * 8;
            rx = (!x >> 6 & 1) * 8;
            rb = (!x >> 5 & 1) * 8;
            map = x & 7;
            op = *p.add(i + 4);
            i += 5;
        }
        0x0f => {
            let c = *p.add(i + 1);
            if c == 0x38 || c == 0x3a {
                map = if c == 0x38 { 2 } else { 3 };
                op = *p.add(i + 2);
                i += 3;
            } else {
                map = 1;
                op = c;
                i += 2;
                has = !matches!(c, 0x05..=0x09 | 0x0b | 0x0e | 0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf);
            }
        }
        _ => {
            map = 0;
            op = b;
            i += 1;
            has = match op {
                0x00..=0x3f => op & 7 < 4,
                0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
                _ => false,
            };
            match op {
                // string instructions
                0xa4..=0xa7 | 0xaa..=0xaf => return mix(mix(reg(6), reg(7)), reg(1)),
                0xd7 => return mix(reg(3), reg(0) & 0xff),
                // stack
                0x50..=0x5f | 0x68 | 0x6a | 0xc3 | 0xc2 | 0xc9 | 0xe8 | 0x9c | 0x9d => return mix(1, reg(4)),
                _ => {}
            }
        }
    }
    if !has {
        return 0;
    }
    let m = *p.add(i) as usize;
    let (md, mr, rm) = (m >> 6, m >> 3 & 7, m & 7);
    let mut out = seg;
    if map == 0 && (op == 0xf6 || op == 0xf7) && mr >= 6 {
        out = mix(mix(out, reg(0)), reg(2));
        if md == 3 {
            out = mix(out, reg(rm + rb));
        }
    }
    if md == 3 {
        return out;
    }
    if map == 1 && matches!(op, 0xa3 | 0xab | 0xb3 | 0xbb) {
        out = mix(out, reg(mr + rr) >> 3);
    }
    if rm == 4 {
        let sib = *p.add(i + 1) as usize;
        let (sc, ix, bs) = (sib >> 6, (sib >> 3 & 7) + rx, sib & 7);
        let vsib = map == 2 && matches!(op, 0x90..=0x93 | 0xa0..=0xa3 | 0xc6 | 0xc7);
        let mut ea = 0u64;
        if ix != 4 && !vsib {
            ea = ea.wrapping_add(reg(ix) << sc);
        }
        if !(bs == 5 && md == 0) {
            ea = ea.wrapping_add(reg(bs + rb));
        }
        mix(out, ea)
    } else if rm == 5 && md == 0 {
        out
    } else {
        mix(out, reg(rm + rb))
    }
}

extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let s = st();
    if !s.on || s.paused {
        return;
    }
    unsafe {
        let uc = &*(ctx as *const libc::ucontext_t);
        let r = &uc.uc_mcontext.gregs;
        let pc = r[RIP] as u64;
        let e = [pc, operand(pc as *const u8, r)];
        if s.storing {
            if s.len < s.cap {
                *s.buf.add(s.len) = e;
                s.len += 1;
            } else {
                s.full = true;
            }
        } else if s.diff.is_none() {
            let want = if s.pos < s.len { *s.buf.add(s.pos) } else { [0, 0] };
            if want != e && !(s.full && s.pos >= s.len) {
                s.diff = Some(Diff {
                    at: s.pos,
                    prev_pc: s.last_pc,
                    want,
                    got: e,
                });
            }
            s.pos += 1;
        }
        s.last_pc = pc;
        if (s.len + s.pos) & 0xffff == 0 && !s.full && s.pos < s.cap {
            crate::engine::beat();
        }
    }
}

/// not recorded while this is set
pub fn pause(v: bool) {
    let s = st();
    if s.on && s.tid == unsafe { libc::gettid() } {
        s.paused = v;
    }
}

fn setup() {
    let s = st();
    if s.buf.is_null() {
        unsafe {
            s.cap = 24 << 20;
            let p = libc::mmap(
                std::ptr::null_mut(),
                s.cap * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            s.buf = p as *mut [u64; 2];
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_trap as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO;
            assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
        }
    }
}

#[inline(never)]
fn run(f: &mut dyn FnMut()) {
    let s = st();
    s.tid = unsafe { libc::gettid() };
    s.paused = false;
    s.last_pc = 0;
    s.on = true;
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    f();
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    st().on = false;
}

/// runs `f`; stores the trace, or compares with the stored one
#[inline(never)]
pub fn go(store: bool, f: &mut dyn FnMut()) -> (usize, Option<Diff>) {
    setup();
    let s = st();
    s.storing = store;
    s.diff = None;
    s.pos = 0;
    if store {
        s.len = 0;
        s.full = false;
    }
    run(f);
    let s = st();
    if !store && s.diff.is_none() && !s.full && s.pos != s.len {
        s.diff = Some(Diff {
            at: s.pos,
            prev_pc: s.last_pc,
            want: unsafe { *s.buf.add(s.pos) },
            got: [0, 0],
        });
    }
    (s.len, s.diff)
}
pub fn truncated() -> bool {
    st().full
}

/// the function containing a code address, for messages
pub fn whereis(pc: u64) -> String {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    for l in maps.lines() {
        let mut f = l.split_whitespace();
        let range = f.next().unwrap_or("");
        let _ = f.next();
        let off = f.next().unwrap_or("0");
        let path = l.split_whitespace().nth(5).unwrap_or("");
        let mut ab = range.split('-').map(|x| u64::from_str_radix(x, 16).unwrap_or(0));
        let (a, b) = (ab.next().unwrap_or(0), ab.next().unwrap_or(0));
        if a <= pc && pc < b {
            // file offset; the linker's virtual address differs by the segment's displacement
            let base = maps
                .lines()
                .find(|m| m.ends_with(path) && m.split_whitespace().nth(2) == Some("00000000"))
                .and_then(|m| u64::from_str_radix(m.split('-').next().unwrap_or(""), 16).ok())
                .unwrap_or(a - u64::from_str_radix(off, 16).unwrap_or(0));
            let va = pc - base;
            let sym = std::process::Command::new("addr2line")
                .args(["-f", "-C", "-e", path, &format!("{va:#x}")])
                .output()
                .ok()
                .map(|o| String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string())
                .unwrap_or_default();
            return format!("{sym} ({}+{va:#x})", path.rsplit('/').next().unwrap_or(""));
        }
    }
    format!("{pc:#x}")
}
