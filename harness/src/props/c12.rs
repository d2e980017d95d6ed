//! Ed25519
use super::ecdsautil::message;
use crate::engine::*;
use crate::refs::c25519::*;
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use num_bigint::BigUint;
use num_traits::{One, Zero};

fn seed(s: &mut Src) -> [u8; 32] {
    if s.bool() {
        s.edgy()
    } else {
        s.barr()
    }
}
fn sign(s: &mut Src) -> R {
    let sd = seed(s);
    let m = message(s);
    s.nontrivial();
    s.note(format!("seed={} msg {} bytes", hexs(&sd), m.len()));
    let Ok(k) = Ed25519SigningKey::from_bytes(&sd) else {
        return fail("seed-refused", "32-byte seed refused");
    };
    let pk = k.public_key().as_bytes();
    let want_pk = ed_public(&sd);
    s.emit(&pk);
    ensure!(pk == want_pk, "public-key", "seed {}: public key {} expected {}", hex(&sd), hex(&pk), hex(&want_pk));
    ensure!(k.as_seed() == sd, "seed-export", "seed {} exported as {}", hex(&sd), hex(&k.as_seed()));
    let sig = k.sign(&m);
    let want = ed_sign(&sd, &m);
    s.emit(&sig);
    ensure!(sig == want, "signature", "seed {} msg {}: signature {} expected {}", hex(&sd), hex(&m), hex(&sig), hex(&want));
    ensure!(k.sign(&m) == want, "deterministic", "second signature differs");
    ensure!(k.public_key().verify(&sig, &m).is_ok(), "own-verify", "own signature refused");
    let n = s.idx(80);
    if n != 32 {
        let b = s.blob(n);
        ensure!(Ed25519SigningKey::from_bytes(&b).is_err(), "seed-length", "seed of {n} bytes accepted");
    }
    Ok(())
}
/// a large deterministic sample against aws-lc, cheap per case
fn sign_fast(s: &mut Src) -> R {
    use aws_lc_rs::signature::{Ed25519KeyPair, KeyPair};
    let sd = seed(s);
    let m = message(s);
    s.nontrivial();
    s.note(format!("seed={} msg {} bytes", hexs(&sd), m.len()));
    let a = Ed25519KeyPair::from_seed_unchecked(&sd).unwrap();
    let k = Ed25519SigningKey::from_bytes(&sd).unwrap();
    let (x, y) = (k.sign(&m), a.sign(&m));
    s.emit(&x);
    ensure!(x[..] == *y.as_ref(), "signature", "seed {} msg {}: signature {} expected {}", hex(&sd), hex(&m), hex(&x), hex(y.as_ref()));
    ensure!(k.public_key().as_bytes()[..] == *a.public_key().as_ref(), "public-key", "seed {}: public key differs from aws-lc", hex(&sd));
    ensure!(k.public_key().verify(&x, &m).is_ok(), "own-verify", "seed {} msg {}: own signature refused", hex(&sd), hex(&m));
    let mut z = x;
    let i = s.idx(512);
    z[i / 8] ^= 1 << (i % 8);
    ensure!(k.public_key().verify(&z, &m).is_err(), "flip", "seed {} msg {}: altered signature {} accepted", hex(&sd), hex(&m), hex(&z));
    Ok(())
}
fn decide(s: &mut Src, pk: &[u8], sig: &[u8], m: &[u8], what: &'static str) -> R {
    let want_key = pk.len() == 32 && Ed::decode(pk.try_into().unwrap()).is_some();
    let got = Ed25519VerifyingKey::from_bytes(pk);
    s.emit_ok(got.is_ok());
    ensure!(got.is_ok() == want_key, format!("key-{what}"), "{what}: public key {} accepted={} expected={want_key}", hex(pk), got.is_ok());
    let Ok(vk) = got else {
        s.label("key-refused");
        return Ok(());
    };
    ensure!(vk.as_bytes()[..] == *pk, "key-reencode", "public key {} re-encodes as {}", hex(pk), hex(&vk.as_bytes()));
    let want = sig.len() == 64 && ed_verify(pk.try_into().unwrap(), sig, m);
    let got = vk.verify(sig, m).is_ok();
    s.emit_ok(got);
    s.label(if want { "valid" } else { "invalid" });
    ensure!(got == want, format!("verify-{what}"), "{what}: key {} msg {} sig {}: accepted={got} expected={want}", hex(pk), hex(m), hex(sig));
    Ok(())
}
fn sig_of(r: &Ed, sc: &BigUint) -> Vec<u8> {
    let mut v = r.encode().to_vec();
    v.extend(le32(sc));
    v
}
fn edgy_scalar(s: &mut Src) -> BigUint {
    let l = order();
    match s.idx(5) {
        0 => BigUint::from(s.below(20)),
        1 => l - 1u32 - s.below(20),
        2 => BigUint::from_bytes_be(&s.edgy::<32>()) % l,
        3 => (BigUint::one() << s.idx(252)) + s.below(3),
        _ => BigUint::from_bytes_be(&s.blob(32)) % l,
    }
}
/// signatures valid for keys with a small-order component, including pure small-order keys
fn crafted(s: &mut Src) -> R {
    let l = order();
    let m = message(s);
    let t = s.pick(torsion()).clone();
    s.nontrivial();
    let pure = s.bool();
    let a = if pure { BigUint::zero() } else { edgy_scalar(s) };
    let pkp = Ed::base().mul(&a).add(&t);
    let pk = pkp.encode();
    let mut what = if pure { "small-order-key" } else { "mixed-order-key" };
    // R = SB - kA; try to make it consistent: with A = aB + T, R = rB - jT and k = j mod 8
    let mut sig = Vec::new();
    let mut sc0 = edgy_scalar(s);
    'o: for _ in 0..8 {
        for j in 0..8u32 {
            let r = Ed::base().mul(&sc0).add(&t.mul(&BigUint::from(j)).neg());
            let k = ed_challenge(&r.encode(), &pk, &m);
            let sc = (&sc0 + &k * &a) % l;
            sig = sig_of(&r, &sc);
            if (&k % 8u32) == BigUint::from(j) {
                break 'o;
            }
        }
        sc0 = (sc0 + 1u32) % l;
    }
    // variations that are only wrong by torsion, or non-canonical
    match s.idx(6) {
        0 | 1 => {}
        2 => {
            // R off by a torsion point: cofactored verifiers accept, RFC 8032's single equation does not
            if let Some(r) = Ed::decode(&sig[..32].try_into().unwrap()) {
                let r2 = r.add(s.pick(torsion()));
                sig[..32].copy_from_slice(&r2.encode());
            }
            what = "torsion-r";
        }
        3 => {
            let sc = BigUint::from_bytes_le(&sig[32..]) + l * (s.below(15) + 1);
            if sc.bits() <= 256 {
                sig[32..].copy_from_slice(&le32(&sc));
            }
            what = "s-plus-l";
        }
        4 => {
            sig[31] ^= 0x80;
            what = "r-sign";
        }
        _ => {
            sig[63] |= 1 << s.range(5, 7);
            what = "s-high-bits";
        }
    }
    s.label(what);
    s.note(format!("{what} key={} sig={}", hexs(&pk), hexs(&sig)));
    decide(s, &pk, &sig, &m, what)
}
/// identity-like encodings: non-canonical R must not match, non-canonical keys are not decoded
fn noncanonical(s: &mut Src) -> R {
    let pp = p();
    let m = message(s);
    s.nontrivial();
    let enc = |y: &BigUint, sign: bool| {
        let mut e = le32(y);
        e[31] |= (sign as u8) << 7;
        e
    };
    // y in the non-canonical window [p, 2^255), small y, or y near p, with either sign
    let weird = |s: &mut Src| {
        let sign = s.bool();
        let y = match s.idx(4) {
            0 => pp + s.below(19),
            1 => BigUint::from(s.below(30)),
            2 => pp - 1u32 - s.below(30),
            _ => BigUint::from_bytes_le(&s.edgy::<32>()) % (BigUint::one() << 255u32),
        };
        enc(&y, sign)
    };
    let pk: [u8; 32];
    let what;
    let mut sig;
    if s.bool() {
        // non-canonical / odd key
        pk = weird(s);
        let sc = edgy_scalar(s);
        let mut r = Ed::base().mul(&sc);
        if let Some(a) = Ed::decode(&pk) {
            // make it valid if the key has small order
            for j in 0..8u32 {
                let c = Ed::base().mul(&sc).add(&a.mul(&BigUint::from(j)).neg());
                if ed_challenge(&c.encode(), &pk, &m) % 8u32 == BigUint::from(j) {
                    r = c;
                }
            }
        }
        sig = sig_of(&r, &sc);
        what = "odd-key";
    } else {
        // identity key, R an encoding of S*B for S = 0 (identity), or an odd encoding
        pk = enc(&BigUint::one(), false);
        let sc = BigUint::zero();
        sig = sig_of(&Ed::base().mul(&sc), &sc);
        let r = match s.idx(4) {
            0 => enc(&(pp + 1u32), s.bool()),
            1 => enc(&BigUint::one(), true),
            2 => weird(s),
            _ => enc(&BigUint::one(), false),
        };
        sig[..32].copy_from_slice(&r);
        what = "odd-r";
    }
    s.label(what);
    s.note(format!("{what} key={} sig={}", hexs(&pk), hexs(&sig)));
    decide(s, &pk, &sig, &m, what)
}
/// perturbations of ordinary signatures
fn near(s: &mut Src) -> R {
    let sd = seed(s);
    let mut m = message(s);
    let mut pk = ed_public(&sd).to_vec();
    let mut sig = ed_sign(&sd, &m).to_vec();
    s.nontrivial();
    let what = match s.idx(9) {
        0 => "as-is",
        1 => {
            let i = s.idx(512);
            sig[i / 8] ^= 1 << (i % 8);
            "sig-flip"
        }
        2 => {
            let i = s.idx(256);
            pk[i / 8] ^= 1 << (i % 8);
            "key-flip"
        }
        3 => {
            if m.is_empty() {
                m.push(0);
            } else {
                let i = s.idx(m.len());
                m[i] ^= 1 << s.idx(8);
            }
            "message"
        }
        4 => {
            let sc = BigUint::from_bytes_le(&sig[32..]) + order() * (s.below(15) + 1);
            if sc.bits() <= 256 {
                sig[32..].copy_from_slice(&le32(&sc));
            }
            "s-plus-l"
        }
        5 => {
            let n = s.idx(130);
            sig.resize(n, 0);
            "length"
        }
        6 => {
            let n = s.idx(70);
            pk.resize(n, 0);
            "key-length"
        }
        7 => {
            let sc = order() - BigUint::from_bytes_le(&sig[32..]) % order();
            sig[32..].copy_from_slice(&le32(&sc));
            if s.bool() {
                sig[31] ^= 0x80;
            }
            "neg-s"
        }
        _ => {
            pk[31] ^= 0x80;
            "neg-key"
        }
    };
    s.label(what);
    s.note(format!("{what} key={} sig={}", hexs(&pk), hexs(&sig)));
    decide(s, &pk, &sig, &m, what)
}
/// point decoding alone
fn decode(s: &mut Src) -> R {
    let mut e: [u8; 32] = match s.idx(3) {
        0 => s.edgy(),
        1 => s.barr(),
        _ => {
            let y = if s.bool() { p() + s.below(19) } else { p() - 1u32 - s.below(300) };
            le32(&y)
        }
    };
    if s.bool() {
        e[31] ^= 0x80;
    }
    s.nontrivial();
    let want = Ed::decode(&e).is_some();
    let got = Ed25519VerifyingKey::from_bytes(&e);
    s.label(if want { "point" } else { "no-point" });
    s.note(hexs(&e));
    s.emit_ok(got.is_ok());
    ensure!(got.is_ok() == want, "decode", "public key {} accepted={} expected={want}", hex(&e), got.is_ok());
    if let Ok(k) = got {
        ensure!(k.as_bytes() == e, "key-reencode", "public key {} re-encodes as {}", hex(&e), hex(&k.as_bytes()));
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "Edge-structured seeds and messages signed and compared with a big-integer RFC 8032 reference and aws-lc; verification on crafted keys (small order, mixed order, non-canonical) with signatures made valid for them, then perturbed by torsion, order multiples, sign and length. Every case is decided by the reference; distinct by generated input.",
        assumptions: &["verification oracle is the cofactorless equation with canonical encodings, as stated"],
        subs: vec![
            Sub::new("sign", sign, 3000, 100_000).all(),
            Sub::new("sign-fast", sign_fast, 40_000, 3_000_000).all(),
            Sub::new("crafted", crafted, 1500, 60_000),
            Sub::new("noncanonical", noncanonical, 3000, 100_000),
            Sub::new("near", near, 4000, 150_000),
            Sub::new("decode", decode, 20_000, 1_000_000),
        ],
    }
}
