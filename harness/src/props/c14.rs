//! C14: RSA signing only ever returns correct signatures.
use super::ecdsautil::message;
use super::rsautil::*;
use crate::engine::*;
use crate::refs::ec::be;
use crate::rngshim;
use graviola::signing::rsa::SigningKey;
use num_bigint::BigUint;
use num_traits::One;

/// sizes for which an independent reading of the documentation expects support: both primes
/// between 1024 and 4096 bits
fn supported(k: &Key) -> bool {
    let ok = |p: &BigUint| (1024..=4096).contains(&p.bits());
    ok(&k.p) && ok(&k.q) && k.p.bits().div_ceil(64) == k.q.bits().div_ceil(64) && (2048..=8192).contains(&k.n.bits())
}
/// sign once and judge the outcome; `must` = the key is consistent
fn one(s: &mut Src, sk: &SigningKey, k: &Key, must: bool) -> R {
    let pss = s.bool();
    let h = s.idx(3);
    let m = message(s);
    let kl = k.k();
    let extra = s.idx(20);
    let salt = s.bytes(hlen(h));
    let tag = name(pss, h);
    rngshim::script(&salt, rngshim::After::Fail);
    let mut out = vec![0xa5u8; kl + extra];
    let got = sign(sk, pss, h, &m, &mut out);
    let used = rngshim::consumed();
    rngshim::reset();
    s.note = format!("{tag} bits={} e={:x} must={must} ok={}", k.n.bits(), k.e, got.is_some());
    match got {
        None => {
            ensure!(!must, format!("{tag}-refused"), "signing failed with a consistent key: n={:x} e={:x} p={:x} q={:x} m={}", k.n, k.e, k.p, k.q, hexs(&m));
            s.label("refused");
        }
        Some(sig) => {
            ensure!(sig.len() == kl, format!("{tag}-length"), "signature of {} bytes for a {kl}-byte modulus", sig.len());
            ensure!(out[kl..].iter().all(|b| *b == 0xa5), format!("{tag}-overrun"), "wrote beyond the signature");
            ensure!(out[..kl] == sig[..], format!("{tag}-position"), "signature not at the front of the buffer");
            let v = BigUint::from_bytes_be(&sig);
            ensure!(v < k.n, format!("{tag}-range"), "signature not below the modulus: {}", hexs(&sig));
            if sig[0] == 0 {
                s.label("leading-zero");
            }
            let em = be(&v.modpow(&k.e, &k.n), kl);
            if pss {
                let want = emsa_pss(
                    k.n.bits() as usize,
                    &super::ecdsautil::hash(h, &m),
                    &Pss { h, mgf: h, salt: salt.clone(), sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] },
                );
                ensure!(used == salt.len(), format!("{tag}-salt-drawn"), "{used} random bytes drawn for a {}-byte salt", salt.len());
                let mut full = vec![0; kl - want.len()];
                full.extend(want);
                ensure!(em == full, format!("{tag}-wrong"), "returned signature is wrong (or does not use the drawn salt): n={:x} e={:x} sig={} m={}", k.n, k.e, hexs(&sig), hexs(&m));
            } else {
                ensure!(em == emsa_pkcs1(kl, h, &m), format!("{tag}-wrong"), "returned signature is wrong: n={:x} e={:x} sig={} m={}", k.n, k.e, hexs(&sig), hexs(&m));
            }
            ensure!(verify(&sk.public_key(), pss, h, &m, &sig), format!("{tag}-own"), "own public key refuses the signature");
            s.emit(&sig);
            s.label("signed");
        }
    }
    // too small an output buffer
    if s.one_in(4) {
        let l = if s.bool() { kl - 1 } else { s.idx(kl) };
        let mut out = vec![0u8; l];
        rngshim::script(&salt, rngshim::After::Cycle);
        let got = sign(sk, pss, h, &m, &mut out);
        rngshim::reset();
        ensure!(got.is_none(), format!("{tag}-short"), "signed into a {l}-byte buffer with a {kl}-byte modulus");
    }
    Ok(())
}
fn consistent(s: &mut Src) -> R {
    let shape = if s.weighted(&[1, 2]) == 0 { Shape::Common } else { Shape::Any };
    let Some(k) = key(s, shape) else { return Ok(()) };
    s.nontrivial();
    let sk = SigningKey::from_pkcs1_der(&k.private_der());
    let sk = match sk {
        Ok(x) => x,
        Err(e) => {
            ensure!(!supported(&k), "import", "consistent key refused ({e:?}): p={:x} q={:x} e={:x}", k.p, k.q, k.e);
            s.label("unsupported-size");
            return Ok(());
        }
    };
    s.label(if k.p > k.q { "p-above-q" } else { "q-above-p" });
    ensure!(sk.modulus_len_bytes() == k.k(), "modulus-len", "modulus_len_bytes {} for {} bits", sk.modulus_len_bytes(), k.n.bits());
    let rounds = s.range(1, 3);
    for _ in 0..rounds {
        one(s, &sk, &k, true)?;
    }
    Ok(())
}
/// a number in place of a component
fn junk(s: &mut Src, v: &BigUint, k: &Key) -> BigUint {
    match s.idx(14) {
        0 => v ^ (BigUint::one() << s.idx(v.bits().max(1) as usize)),
        1 => BigUint::from(s.below(4)),
        2 => v + 1u32,
        3 if *v > BigUint::one() => v - 1u32,
        4 => v + 2u32,
        5 => v << s.range(1, 65) as usize,
        6 => v >> s.range(1, 65) as usize,
        7 => BigUint::from_bytes_be(&s.bytes(v.bits().div_ceil(8) as usize)),
        8 => k.p.clone(),
        9 => k.q.clone(),
        10 => v + &k.p,
        11 => k.n.clone(),
        12 => primes()[s.idx(primes().len())].clone(),
        _ => (BigUint::one() << (8 * s.range(120, 520) as usize)) - 1u32,
    }
}
/// keys whose components do not belong together
fn inconsistent(s: &mut Src) -> R {
    let shape = if s.weighted(&[2, 1]) == 0 { Shape::Common } else { Shape::Any };
    let Some(k) = key(s, shape) else { return Ok(()) };
    s.nontrivial();
    let mut b = k.clone();
    let what = match s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let n = if s.one_in(4) { 2 } else { 1 };
            for _ in 0..n {
                let i = s.idx(8);
                let cur = [&k.p, &k.q, &k.n, &k.e, &k.d, &k.dp, &k.dq, &k.qi][i].clone();
                let v = junk(s, &cur, &k);
                *[&mut b.p, &mut b.q, &mut b.n, &mut b.e, &mut b.d, &mut b.dp, &mut b.dq, &mut b.qi][i] = v;
            }
            "component"
        }
        1 => {
            std::mem::swap(&mut b.dp, &mut b.dq);
            "swap-exponents"
        }
        2 => {
            std::mem::swap(&mut b.p, &mut b.q);
            "swap-primes"
        }
        3 => {
            b.q = b.p.clone();
            b.dq = b.dp.clone();
            b.n = &b.p * &b.p;
            "equal-primes"
        }
        4 => {
            // the other half of another key
            let Some(o) = key(s, shape) else { return Ok(()) };
            b.dp = o.dp;
            b.dq = o.dq;
            b.qi = o.qi;
            "other-private"
        }
        5 => {
            let Some(o) = key(s, shape) else { return Ok(()) };
            b.n = o.n;
            b.e = o.e;
            "other-public"
        }
        6 => {
            // right modulo, but not reduced
            b.dp += &b.p - 1u32;
            b.dq += &b.q - 1u32;
            b.qi += &b.p;
            "unreduced"
        }
        _ => {
            // a prime that is not one
            b.p = &b.p + 2u32;
            b.n = &b.p * &b.q;
            "composite"
        }
    };
    s.label(what);
    let sk = match SigningKey::from_pkcs1_der(&b.private_der()) {
        Ok(x) => x,
        Err(_) => {
            s.label("import-refused");
            return Ok(());
        }
    };
    // replaced components may by luck still make a key; the only demand is that no wrong
    // signature comes out
    one(s, &sk, &b, false)
}
/// determinism: repeated and interleaved signing, whatever the random source does
fn repeat(s: &mut Src) -> R {
    let Some(k) = key(s, Shape::Common) else { return Ok(()) };
    s.nontrivial();
    let Ok(sk) = SigningKey::from_pkcs1_der(&k.private_der()) else {
        return fail("import", "consistent key refused");
    };
    let h = s.idx(3);
    let m = message(s);
    let mut buf = vec![0u8; 1024];
    let seed = s.u64();
    rngshim::prng(&[], seed);
    let a = sign(&sk, false, h, &m, &mut buf);
    ensure!(rngshim::calls().is_empty(), "pkcs1-draws", "PKCS#1 v1.5 signing drew randomness");
    let p1 = sign(&sk, true, h, &m, &mut buf);
    let p2 = sign(&sk, true, h, &m, &mut buf);
    rngshim::prng(&[], seed);
    let p3 = sign(&sk, true, h, &m, &mut buf);
    rngshim::prng(&[], !seed);
    let b = sign(&sk, false, h, &m, &mut buf);
    rngshim::reset();
    ensure!(a.is_some() && a == b, "pkcs1-determinism", "two PKCS#1 v1.5 signatures of one message differ");
    ensure!(p1.is_some() && p2.is_some() && p1 != p2, "pss-salt", "two PSS signatures with different randomness are the same");
    ensure!(p1 == p3, "pss-source", "PSS signature depends on more than key, message and drawn salt");
    let d = s.bytes(32);
    rngshim::script(&d, rngshim::After::Fail);
    let f = sign(&sk, true, 2, &m, &mut buf);
    rngshim::reset();
    ensure!(f.is_none(), "pss-no-randomness", "PSS signature although the salt could not be drawn");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a key was built from two pool primes of supported size (or corrupted from one) and imported or refused",
        assumptions: &["reference RSA, EMSA-PKCS1-v1_5 and EMSA-PSS written from RFC 8017 over num-bigint; primes from a committed pool (1017..4096 bits)"],
        subs: vec![
            Sub::new("consistent", consistent, 6000, 200_000),
            Sub::new("inconsistent", inconsistent, 8000, 300_000),
            Sub::new("repeat", repeat, 400, 10_000),
        ],
    }
}
