//! C35: what the library computes does not depend on how it was compiled.
//!
//! This program is built once more for each way of compiling the two crates: without optimisation, as a
//! release (no debug assertions, no overflow checks, one code generation unit), and for size. Each case
//! runs in all of them and everything it produced is compared.
use super::{c21, c28, c32, c34};
use crate::engine::*;
use crate::rngshim;
use std::sync::OnceLock;

/// one documented operation
fn ops(s: &mut Src) -> R {
    let op = &c32::OPS[(s.idx % c32::OPS.len() as u64) as usize];
    // inputs are made with the library, too
    rngshim::prng(&[], s.u64());
    let p = (op.1)(s);
    let seed = s.u64();
    rngshim::prng(&[], seed);
    let got = c32::run(op, &p);
    rngshim::reset();
    for x in &p {
        s.emit(x);
    }
    s.emit(&got);
    s.label(op.0);
    s.nontrivial();
    s.note(format!("{} gives {} bytes", op.0, got.len()));
    Ok(())
}

/// uses of keys and inputs that are related, or wrong, or whose random draws fail
fn kinds(s: &mut Src) -> R {
    let kind = (s.idx % c34::KINDS.len() as u64) as usize;
    rngshim::prng(&[], s.u64());
    let f = c34::family(s, kind);
    let n = if kind == 13 { 2 } else { 6 };
    let mut produced = 0;
    for _ in 0..n {
        let key = &f.keys[s.idx(f.keys.len())];
        let a = &f.args[s.idx(f.args.len())];
        let seed = s.u64();
        let fails = if s.one_in(6) { s.idx(3) } else { 255 };
        let o = c34::make(kind, key);
        rngshim::prng(&[], seed);
        if fails != 255 {
            rngshim::fail_at(fails);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.as_ref().map(|o| c34::apply(o, a))));
        rngshim::reset();
        match r {
            Err(_) => s.emit(b"panic"),
            Ok(None) => s.emit(b"refused"),
            Ok(Some(b)) => {
                produced += b.len();
                s.emit(&b);
            }
        }
    }
    s.label(c34::KINDS[kind]);
    if produced > 0 {
        s.nontrivial();
    }
    Ok(())
}

/// objects of both crates, as threads share them in C28
fn objects(s: &mut Src) -> R {
    let kind = (s.idx % c28::NAMES.len() as u64) as usize;
    rngshim::prng(&[], s.u64());
    let x = c28::seed(s, kind);
    let Some(o) = c28::build(&x) else {
        s.emit(b"refused");
        return Ok(());
    };
    for _ in 0..4 {
        let n = s.u64();
        let got = c28::apply(&x, &o, n);
        s.emit(&got);
    }
    rngshim::reset();
    s.label(c28::NAMES[kind]);
    s.nontrivial();
    Ok(())
}

type Check = (String, CheckFn, u64);
/// sub-checks of the other properties whose verdict is a function of the case, and quick
fn checks() -> &'static [Check] {
    static ALL: OnceLock<Vec<Check>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        for i in 1..=27 {
            let p = super::get(&format!("C{i:02}"));
            for x in p.subs {
                let slow = matches!(x.name, "huge" | "long" | "chosen" | "large" | "threads") || (i == 10 && x.name == "flips");
                // C21 is included itself; C22 reads memory after use, where padding is not the same in every build
                if !slow && i != 21 && i != 22 {
                    v.push((format!("{} {}", p.id, x.name), x.f, x.quick));
                }
            }
        }
        v
    })
}
/// the verdict of another property's check
fn verdicts(s: &mut Src) -> R {
    let all = checks();
    let (name, f, n) = &all[(s.idx % all.len() as u64) as usize];
    // which of its cases
    s.idx = s.u64() % n;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s)));
    rngshim::reset();
    match r {
        Ok(Ok(())) => s.emit(b"held"),
        Ok(Err(e)) => {
            s.emit(format!("failed {}", e.key).as_bytes());
            s.note(format!("{name} fails: {}", e.msg));
        }
        Err(_) => s.emit(b"panic"),
    }
    s.labels = vec![name.split(' ').next().unwrap()];
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C35",
        rule: "the case ran an operation of the library to its end in every build and what it gave was compared byte for byte",
        assumptions: &["the compiler and target are the ones installed here; the builds differ in optimisation level, debug assertions, overflow checks and code generation units"],
        subs: vec![
            Sub::new("ops", ops, c32::OPS.len() as u64 * 60, c32::OPS.len() as u64 * 4000).cross(),
            Sub::new("kinds", kinds, c34::KINDS.len() as u64 * 80, c34::KINDS.len() as u64 * 8000).cross(),
            Sub::new("objects", objects, c28::NAMES.len() as u64 * 60, c28::NAMES.len() as u64 * 5000).cross(),
            Sub::new("verdicts", verdicts, 3000, 400_000).cross(),
            Sub::new("hashes", c21::hashes, 5000, 600_000).cross(),
            Sub::new("sha3", c21::sha3, 2500, 200_000).cross(),
            Sub::new("aead", c21::aead, 6000, 800_000).cross(),
            Sub::new("generating", c21::generating, 600, 60_000).cross(),
            Sub::new("signatures", c21::signatures, 1000, 100_000).cross(),
            Sub::new("kem", c21::kem, 500, 40_000).cross(),
            Sub::new("imports", c21::imports, 1500, 100_000).cross(),
            Sub::new("records", c21::records, 3000, 200_000).cross(),
            Sub::new("long", c21::long, 8, 200).cross(),
            Sub::new("rsa-sizes", c21::rsa_sizes, 200, 20_000).cross(),
        ],
    }
}
