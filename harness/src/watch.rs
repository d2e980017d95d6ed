//! Global allocator wrapper: while armed on this thread, every freed heap block is searched for
//! the registered secret byte strings.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Watch;

struct Needles {
    n: [([u8; 32], usize); 64],
    count: usize,
}
thread_local! {
    static PADDED: Cell<usize> = const { Cell::new(usize::MAX) };
    static CLEAN: Cell<bool> = const { Cell::new(false) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static HITS: Cell<usize> = const { Cell::new(0) };
    static FREED: Cell<usize> = const { Cell::new(0) };
    static LAST: Cell<(usize, usize, usize)> = const { Cell::new((0, 0, 0)) };
    static NEEDLES: UnsafeCell<Needles> = const { UnsafeCell::new(Needles { n: [([0; 32], 0); 64], count: 0 }) };
}
/// While on, blocks of this thread come from a region that is handed out from its start, so that their
/// addresses do not depend on what happened before.
const ARENA: usize = 64 << 20;
thread_local! {
    static ARENA_ON: Cell<bool> = const { Cell::new(false) };
    static ARENA_BASE: Cell<usize> = const { Cell::new(0) };
    static ARENA_POS: Cell<usize> = const { Cell::new(0) };
}
/// hand out from offset `pos`
pub fn arena(pos: Option<usize>) {
    if ARENA_BASE.with(|b| b.get()) == 0 {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        ARENA_BASE.with(|b| b.set(p as usize));
    }
    ARENA_ON.with(|o| o.set(pos.is_some()));
    if let Some(x) = pos {
        ARENA_POS.with(|q| q.set(x));
    }
}
fn arena_alloc(l: Layout) -> Option<*mut u8> {
    if !ARENA_ON.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    let base = ARENA_BASE.with(|b| b.get());
    let at = (base + ARENA_POS.with(|p| p.get())).next_multiple_of(l.align().max(64));
    if at + l.size() > base + ARENA {
        return Some(std::ptr::null_mut());
    }
    ARENA_POS.with(|p| p.set(at + l.size() - base));
    Some(at as *mut u8)
}
fn in_arena(p: *mut u8) -> bool {
    let base = ARENA_BASE.try_with(|b| b.get()).unwrap_or(0);
    base != 0 && (base..base + ARENA).contains(&(p as usize))
}
pub fn reset() {
    ARMED.with(|a| a.set(false));
    CLEAN.with(|a| a.set(false));
    PADDED.with(|a| a.set(usize::MAX));
    HITS.with(|a| a.set(0));
    FREED.with(|a| a.set(0));
    NEEDLES.with(|n| unsafe { (*n.get()).count = 0 });
}
pub fn add(needle: &[u8]) {
    let l = needle.len().min(32);
    NEEDLES.with(|n| unsafe {
        let n = &mut *n.get();
        if n.count < 64 {
            n.n[n.count].0[..l].copy_from_slice(&needle[..l]);
            n.n[n.count].1 = l;
            n.count += 1;
        }
    });
}
/// what lies beyond this offset of a block is padding, and holds whatever was on the stack
pub fn padding_from(off: usize) {
    PADDED.with(|a| a.set(off));
}
/// while on, new blocks of this thread start out zero, so that padding holds nothing old
pub fn clean(on: bool) {
    CLEAN.with(|a| a.set(on));
}
pub fn arm(on: bool) {
    ARMED.with(|a| a.set(on));
}
pub fn hits() -> usize {
    HITS.with(|a| a.get())
}
pub fn freed() -> usize {
    FREED.with(|a| a.get())
}
/// (block size, offset, needle index) of the last hit
pub fn last() -> (usize, usize, usize) {
    LAST.with(|a| a.get())
}
pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.is_empty() || hay.len() < needle.len() {
        return None;
    }
    (0..=hay.len() - needle.len()).find(|&i| hay[i] == needle[0] && &hay[i..i + needle.len()] == needle)
}
unsafe fn scan(ptr: *mut u8, size: usize) {
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    if !armed {
        return;
    }
    ARMED.with(|a| a.set(false));
    FREED.with(|a| a.set(a.get() + 1));
    let mem = std::slice::from_raw_parts(ptr, size.min(PADDED.with(|a| a.get())));
    NEEDLES.with(|n| {
        let n = &*n.get();
        for i in 0..n.count {
            let (b, l) = &n.n[i];
            if let Some(off) = find(mem, &b[..*l]) {
                HITS.with(|a| a.set(a.get() + 1));
                LAST.with(|a| a.set((size, off, i)));
            }
        }
    });
    ARMED.with(|a| a.set(true));
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(p) = arena_alloc(l) {
            return p;
        }
        if CLEAN.try_with(|a| a.get()).unwrap_or(false) {
            return System.alloc_zeroed(l);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if let Some(p) = arena_alloc(l) {
            if !p.is_null() {
                p.write_bytes(0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scan(p, l.size());
        if in_arena(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let from_arena = in_arena(p);
        if let Some(q) = arena_alloc(nl).or_else(|| from_arena.then(|| System.alloc(nl))) {
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                scan(p, l.size());
                if !from_arena {
                    System.dealloc(p, l);
                }
            }
            return q;
        }
        if ARMED.try_with(|a| a.get()).unwrap_or(false) {
            // behave as alloc+copy+free so the old block is examined
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                scan(p, l.size());
                System.dealloc(p, l);
            }
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}
