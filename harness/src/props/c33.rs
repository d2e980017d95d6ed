//! C33: calls depend on their inputs alone, and keep the machine state that calls must keep.
//!
//! Each operation is called with arbitrary contents of all registers, flags, mask registers and of the
//! stack below; the result must be that of an ordinary call, and callee-saved registers, stack pointer,
//! direction flag and floating-point control must be as they were.
use super::c32::{run, Op, OPS};
use crate::callstate::{call, In, Out};
use crate::engine::*;
use crate::rngshim;

fn word(s: &mut Src) -> u64 {
    match s.idx(4) {
        0 => *s.pick(&[0, !0, 1, 1 << 63]),
        _ => s.u64(),
    }
}
fn state(s: &mut Src) -> Box<In> {
    let mut i = Box::new(In {
        kept: [0; 6],
        other: [0; 8],
        flags: 2,
        mxcsr: 0x1f80,
        fcw: 0x037f,
        wide: (std::is_x86_feature_detected!("avx512f") && std::is_x86_feature_detected!("avx512bw")) as u16,
        masks: [0; 8],
        vec: [[0; 64]; 32],
    });
    for w in i.kept.iter_mut().chain(&mut i.other).chain(&mut i.masks) {
        *w = word(s);
    }
    // CF PF AF ZF SF OF
    i.flags |= s.u64() & 0x8d5;
    // rounding, flush-to-zero, denormals; sticky flags
    i.mxcsr |= (s.u64() as u32) & 0xe07f;
    i.fcw = (i.fcw & !0xf00) | (*s.pick(&[0, 2, 3]) << 8) | ((s.idx(4) as u16) << 10);
    match s.idx(4) {
        0 => {}
        1 => i.vec = [[0xff; 64]; 32],
        _ => {
            for v in i.vec.iter_mut() {
                *v = s.arr();
            }
        }
    }
    i
}

fn one(s: &mut Src) -> R {
    let op: &Op = &OPS[(s.idx % OPS.len() as u64) as usize];
    let name = op.0;
    let p = (op.1)(s);
    let seed = s.u64();
    let go = || {
        rngshim::prng(&[], seed);
        run(op, &p)
    };
    let want = go();
    for _ in 0..2 {
        let i = state(s);
        let junk = word(s);
        let mut got = vec![];
        let o = call(&i, junk, &mut || got = go());
        let expect = Out {
            kept: i.kept,
            rsp: 0,
            flags: o.flags & !0x400,
            mxcsr: i.mxcsr & 0xffc0 | o.mxcsr & 0x3f,
            fcw: i.fcw,
            tags: 0xffff,
        };
        ensure!(o == expect, format!("{name}/state"), "{name}: entered with {:x?}, mxcsr {:x}, control {:x}; came back with {o:x?}", i.kept, i.mxcsr, i.fcw);
        ensure!(got == want, format!("{name}/result"), "{name}: {} when called with registers, flags and stack of other contents, otherwise {}", hex(&got), hex(&want));
    }
    rngshim::reset();
    s.label(name);
    s.nontrivial();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        rule: "An operation is called twice with arbitrary contents of all general-purpose, vector and mask registers, arithmetic flags, floating-point control and the stack below it, and compared with an ordinary call; non-trivial: the results and the state kept were compared.",
        assumptions: &["registers are set at the boundary of the call; compiled code in between may overwrite them"],
        subs: vec![Sub::new("call", one, OPS.len() as u64 * 40, OPS.len() as u64 * 2000).all()],
    }
}
