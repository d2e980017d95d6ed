//! C31: vector registers hold no secrets once a call is over.
//!
//! The registers are cleared, the operation runs, the registers are read. Lanes that differ between two
//! secrets, and are not part of what the operation gave its caller, hold something made from the secret.
use super::c30::{self, Out, REGISTERS};
use crate::engine::*;
use crate::{rngshim, watch};
use std::arch::asm;

#[repr(C, align(64))]
struct Regs([[u8; 64]; 32]);

#[inline(never)]
fn after(wide: bool, f: &mut dyn FnMut(), r: &mut Regs) {
    unsafe {
        if wide {
            clear_wide();
            f();
            read_wide(r);
        } else {
            asm!("vzeroall", out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _, out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _, out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _);
            f();
            read_narrow(r);
        }
    }
}
#[inline(never)]
unsafe fn clear_wide() {
    macro_rules! z { ($($n:literal)*) => { concat!($("vpxorq zmm", $n, ", zmm", $n, ", zmm", $n, "\n"),*) } }
    asm!("vzeroall", z!(16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31), clobber_abi("sysv64"));
}
#[inline(never)]
unsafe fn read_wide(r: &mut Regs) {
    macro_rules! st { ($($n:literal)*) => { concat!($("vmovdqu64 [{p} + 64 * ", $n, "], zmm", $n, "\n"),*) } }
    asm!(st!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31), p = in(reg) r.0.as_mut_ptr());
}
#[inline(never)]
unsafe fn read_narrow(r: &mut Regs) {
    macro_rules! st { ($($n:literal)*) => { concat!($("vmovdqu [{p} + 64 * ", $n, "], ymm", $n, "\n"),*) } }
    asm!(st!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15), p = in(reg) r.0.as_mut_ptr());
}

pub fn same<V, T>(s: &mut Src, name: &'static str, vs: &[V], make: impl Fn(&V) -> T, op: impl Fn(&mut T, &mut Out)) -> R {
    let wide = std::is_x86_feature_detected!("avx512f");
    let mut slot: Box<Option<T>> = Box::new(None);
    // each secret twice, in turn: a lane that varies with equal inputs says nothing about the secret
    let mut runs: Vec<(Box<Regs>, Vec<u8>)> = vec![];
    for i in [0].into_iter().chain(0..vs.len()).chain(0..vs.len()) {
        *slot = None;
        let mut out = Box::new(Out::new());
        let mut regs = Box::new(Regs([[0; 64]; 32]));
        watch::arena(Some(0));
        *slot = Some(make(&vs[i]));
        let t = (*slot).as_mut().unwrap();
        watch::arena(Some(32 << 20));
        after(wide, &mut || op(t, &mut out), &mut regs);
        watch::arena(None);
        runs.push((regs, out.get().to_vec()));
    }
    let (one, two) = runs[1..].split_at(vs.len());
    for n in 0..32 {
        for l in 0..8 {
            let at = |r: &(Box<Regs>, Vec<u8>)| -> [u8; 8] { r.0 .0[n][8 * l..8 * l + 8].try_into().unwrap() };
            let (a, o0) = (at(&one[0]), &one[0].1);
            if one.iter().zip(two).any(|(x, y)| at(x) != at(y)) {
                continue;
            }
            for r in &one[1..] {
                let b = at(r);
                let Some(from) = (0..8).find(|i| a[*i] != b[*i]) else {
                    continue;
                };
                let to = (0..8).rfind(|i| a[*i] != b[*i]).unwrap() + 1;
                if !(part(&a[from..to], o0) && part(&b[from..to], &r.1)) {
                    return fail(
                        &format!("{name}/register"),
                        format!("{name}: register {n} lane {l} depends on the secret: {} and, with another, {}", hex(&a), hex(&b)),
                    );
                }
            }
        }
    }
    s.label(name);
    s.nontrivial();
    Ok(())
}
/// zero, or a piece of what the caller got
fn part(lane: &[u8], out: &[u8]) -> bool {
    let Some(a) = lane.iter().position(|x| *x != 0) else {
        return true;
    };
    let b = lane.iter().rposition(|x| *x != 0).unwrap() + 1;
    watch::find(out, &lane[a..b]).is_some()
}

macro_rules! on {
    ($($f:ident)*) => { $(fn $f(s: &mut Src) -> R {
        REGISTERS.with(|r| r.set(true));
        let r = c30::$f(s);
        rngshim::reset();
        r
    })* };
}
on!(rsa_sign ecdsa_p256 ecdsa_p384 p256_ops p384_ops ed25519_ops x25519_ops kem aead keys);

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "Vector registers are cleared, an operation is run with one of two or three secrets (all else equal, objects at equal addresses), and all vector registers are read; non-trivial: lanes that differ between secrets were compared with the operation's results.",
        assumptions: &["general-purpose registers and the stack are not examined"],
        subs: vec![
            Sub::new("rsa", rsa_sign, 24, 400).all(),
            Sub::new("ecdsa-p384", ecdsa_p384, 60, 3000).all(),
            Sub::new("ecdsa-p256", ecdsa_p256, 60, 3000).all(),
            Sub::new("p384", p384_ops, 120, 6000).all(),
            Sub::new("p256", p256_ops, 120, 6000).all(),
            Sub::new("keys", keys, 600, 30000).all(),
            Sub::new("ed25519", ed25519_ops, 120, 6000).all(),
            Sub::new("x25519", x25519_ops, 180, 9000).all(),
            Sub::new("mlkem", kem, 120, 6000).all(),
            Sub::new("aead", aead, 1200, 60000).all(),
        ],
    }
}
