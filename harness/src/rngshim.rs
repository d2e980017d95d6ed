//! Interposes the C library's `getrandom`, which is where the system random source of the
//! code under test ends. By default calls go to the kernel; a case may install a script.
use std::cell::RefCell;

#[derive(Default)]
struct State {
    on: bool,
    data: Vec<u8>,
    pos: usize,
    /// what happens once `data` is used up
    after: After,
    /// fail the n-th call (0-based)
    fail_at: Option<usize>,
    calls: Vec<usize>,
    failed: usize,
    seed: u64,
    /// fail once this many bytes were handed out (0 = no limit)
    limit: usize,
    keep: bool,
    hist: Vec<Vec<u8>>,
    errno: i32,
    /// hand out at most this many bytes per system call (0 = all)
    chunk: usize,
    /// interrupt every other system call
    eintr: bool,
    tick: bool,
}
#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
pub enum After {
    #[default]
    Fail,
    /// repeat the script from the start
    Cycle,
    /// deterministic pseudo-random bytes
    Prng,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default());
}
/// all following draws on this thread come from `data`
pub fn script(data: &[u8], after: After) {
    ST.with(|s| {
        *s.borrow_mut() = State {
            on: true,
            data: data.to_vec(),
            after,
            ..Default::default()
        }
    });
}
/// `data`, then a deterministic stream chosen by `seed`
pub fn prng(data: &[u8], seed: u64) {
    script(data, After::Prng);
    ST.with(|s| s.borrow_mut().seed = seed);
}
pub fn fail_at(n: usize) {
    ST.with(|s| s.borrow_mut().fail_at = Some(n));
}
/// fail every draw once `n` bytes were handed out
pub fn limit(n: usize) {
    ST.with(|s| s.borrow_mut().limit = n);
}
/// remember what each draw returned
pub fn keep() {
    ST.with(|s| s.borrow_mut().keep = true);
}
pub fn history() -> Vec<Vec<u8>> {
    ST.with(|s| s.borrow().hist.clone())
}
pub fn consumed() -> usize {
    ST.with(|s| s.borrow().pos)
}
pub fn calls() -> Vec<usize> {
    ST.with(|s| s.borrow().calls.clone())
}
pub fn failed() -> usize {
    ST.with(|s| s.borrow().failed)
}
/// the error a failing draw reports
pub fn errno(e: i32) {
    ST.with(|s| s.borrow_mut().errno = e);
}
/// short reads of at most `n` bytes, and interruptions
pub fn choppy(n: usize, eintr: bool) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.chunk = n;
        s.eintr = eintr;
    });
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if len == 0 {
        return 0;
    }
    crate::ctstep::pause(true);
    let n = answer(buf, len, flags);
    crate::ctstep::pause(false);
    n
}
unsafe fn answer(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let mut len = len;
    let mut err = libc::EIO;
    let r = ST.try_with(|s| {
        let mut s = match s.try_borrow_mut() {
            Ok(s) => s,
            Err(_) => return None,
        };
        if s.errno != 0 {
            err = s.errno;
        }
        if s.on && s.eintr {
            s.tick = !s.tick;
            if s.tick {
                err = libc::EINTR;
                return Some(false);
            }
        }
        if s.on && s.chunk > 0 {
            len = len.min(s.chunk);
        }
        let n = s.calls.len();
        s.calls.push(len);
        if s.fail_at == Some(n) {
            s.failed += 1;
            return Some(false);
        }
        if !s.on {
            return None;
        }
        if s.limit > 0 && s.pos + len > s.limit {
            s.failed += 1;
            return Some(false);
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for o in out.iter_mut() {
            let dl = s.data.len();
            let v = if s.pos < dl {
                s.data[s.pos]
            } else {
                match s.after {
                    After::Fail => {
                        s.failed += 1;
                        return Some(false);
                    }
                    After::Cycle if dl > 0 => s.data[s.pos % dl],
                    After::Cycle => 0,
                    After::Prng => {
                        let mut x = (s.pos as u64).wrapping_mul(0x2545F4914F6CDD1D) ^ s.seed;
                        let mut x = crate::engine::splitmix(&mut x);
                        crate::engine::splitmix(&mut x) as u8
                    }
                }
            };
            *o = v;
            s.pos += 1;
        }
        if s.keep {
            let h = out.to_vec();
            s.hist.push(h);
        }
        Some(true)
    });
    match r {
        Ok(Some(true)) => len as libc::ssize_t,
        Ok(Some(false)) => {
            *libc::__errno_location() = err;
            -1
        }
        _ => libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t,
    }
}
