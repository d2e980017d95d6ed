//! C32: instructions the processor does not have are never executed.
//!
//! A process of its own makes its first use of the library, one instruction at a time, believing that
//! it runs on a processor with a given set of features. It may refuse (panic) if that processor is not a
//! supported one; otherwise the result must be the usual one; in neither case may it have executed an
//! instruction that the processor lacks.
use super::ecutil::{curve, scalar};
use super::{c17, rsautil};
use crate::cpustep::*;
use crate::engine::*;
use crate::refs::der;
use crate::rngshim;
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha2, sha3, Hash, HashContext, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::{ecdsa, rsa};
use std::process::Stdio;
use std::sync::OnceLock;

pub type Parts = Vec<Vec<u8>>;
pub type Op = (&'static str, fn(&mut Src) -> Parts, fn(&Parts) -> Vec<u8>);

thread_local! {
    /// long messages only, so that what handles many blocks at once comes to be used
    static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn msg(s: &mut Src) -> Vec<u8> {
    let n = match s.idx(4) {
        _ if LONG.get() => 600 + s.idx(1000),
        0 => s.idx(40),
        1 => s.idx(300),
        _ => 200 + s.idx(1200),
    };
    s.bytes(n)
}
fn one(s: &mut Src) -> Parts {
    vec![msg(s)]
}
fn none(_: &mut Src) -> Parts {
    vec![]
}
fn r32(s: &mut Src) -> Parts {
    vec![s.bytes(32)]
}
/// key, nonce, additional data, text
fn sealed(s: &mut Src, kl: usize) -> Parts {
    let al = s.idx(60);
    vec![s.bytes(kl), s.bytes(24), s.bytes(al), msg(s)]
}
fn two(s: &mut Src) -> Parts {
    vec![s.bytes(32), s.bytes(32)]
}
/// private scalar, SEC1, PKCS#8, public point, message, signature, its DER form
fn ec(s: &mut Src, ci: usize) -> Parts {
    let c = curve(ci);
    let d = scalar(s, c);
    let db = c.enc(&d);
    let q = c.point(&c.mul_g(&d));
    let e = c17::ec_encodings(ci, &db, &q);
    let m = msg(s);
    let mut out = [0u8; 200];
    let mut der = [0u8; 200];
    let (sig, der) = if ci == 0 {
        let k = ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&e.sec1).unwrap();
        (k.sign::<Sha256>(&[&m], &mut out).unwrap().to_vec(), k.sign_asn1::<Sha256>(&[&m], &mut der).unwrap().to_vec())
    } else {
        let k = ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(&e.sec1).unwrap();
        (k.sign::<Sha256>(&[&m], &mut out).unwrap().to_vec(), k.sign_asn1::<Sha256>(&[&m], &mut der).unwrap().to_vec())
    };
    vec![db, e.sec1, e.pkcs8, q, m, sig, der]
}
fn ec256(s: &mut Src) -> Parts {
    ec(s, 0)
}
fn ec384(s: &mut Src) -> Parts {
    ec(s, 1)
}
/// seed, message, signature, public key, PKCS#8, SPKI
fn ed(s: &mut Src) -> Parts {
    let seed = s.bytes(32);
    let m = msg(s);
    let k = Ed25519SigningKey::from_bytes(&seed).unwrap();
    let p = k.public_key();
    let (mut a, mut b) = ([0u8; 200], [0u8; 200]);
    let pk8 = k.to_pkcs8_der(&mut a).unwrap().to_vec();
    let spki = p.to_spki_der(&mut b).unwrap().to_vec();
    vec![seed, m.clone(), k.sign(&m).to_vec(), p.as_bytes().to_vec(), pk8, spki]
}
/// encapsulation key, ciphertext
fn kem(s: &mut Src) -> Parts {
    let seed: [u8; 64] = s.arr();
    let d = mlkem768::DecapKey::keygen_internal(&seed);
    let ek = d.encapsulation_key().as_bytes();
    let (_, c) = mlkem768::EncapKey::from_bytes(&ek).unwrap().encaps_internal(mlkem768::Message(s.arr()));
    let mut c = c.as_ref().to_vec();
    if s.one_in(4) {
        c[s.idx(1088)] ^= 1;
    }
    vec![ek.to_vec(), c]
}
/// PKCS#1 private, PKCS#8 private, PKCS#1 public, message, PKCS#1 signature, PSS signature
fn rsa_parts(s: &mut Src) -> Parts {
    let e = num_bigint::BigUint::from(65537u32);
    let ps: Vec<_> = rsautil::primes().iter().filter(|p| p.bits() == 1024).collect();
    loop {
        let (p, q) = (ps[s.idx(ps.len())], ps[s.idx(ps.len())]);
        if p <= q {
            continue;
        }
        let Some(k) = rsautil::Key::new(p, q, &e) else {
            continue;
        };
        if k.n.bits() != 2048 {
            continue;
        }
        let der1 = k.private_der();
        let pk8 = der::seq(&[der::uint(&[]), c17::rsa_alg(), der::octets(&der1)]);
        let m = msg(s);
        let sk = rsa::SigningKey::from_pkcs1_der(&der1).unwrap();
        let (mut a, mut b) = ([0u8; 512], [0u8; 512]);
        let s1 = sk.sign_pkcs1_sha256(&mut a, &m).unwrap().to_vec();
        let s2 = sk.sign_pss_sha256(&mut b, &m).unwrap().to_vec();
        return vec![der1, pk8, k.public_der(), m, s1, s2];
    }
}

fn aead(p: &Parts, seal: impl Fn(&[u8], &[u8], &mut [u8], &mut [u8; 16]), open: impl Fn(&[u8], &[u8], &mut [u8], &[u8]) -> bool) -> Vec<u8> {
    let mut b = p[3].clone();
    let mut t = [0u8; 16];
    seal(&p[1], &p[2], &mut b, &mut t);
    let mut o = b.clone();
    o.extend(t);
    o.push(open(&p[1], &p[2], &mut b, &t) as u8);
    o.extend(&b);
    t[3] ^= 4;
    o.push(open(&p[1], &p[2], &mut b, &t) as u8);
    o
}
fn gcm(p: &Parts) -> Vec<u8> {
    let k = AesGcm::new(&p[0]);
    aead(
        p,
        |n, a, b, t| k.encrypt(n[..12].try_into().unwrap(), a, b, t),
        |n, a, b, t| k.decrypt(n[..12].try_into().unwrap(), a, b, t).is_ok(),
    )
}
fn a32(b: &[u8]) -> [u8; 32] {
    b.try_into().unwrap()
}
fn ok<T, E>(r: &Result<T, E>) -> Vec<u8> {
    vec![r.is_ok() as u8]
}
macro_rules! inc {
    ($p:expr, $c:expr) => {{
        let (a, b) = $p[0].split_at($p[0].len() / 3);
        let mut c = $c;
        c.update(a);
        c.update(b);
        c.finish().as_ref().to_vec()
    }};
}
macro_rules! fin {
    ($p:expr, $c:expr) => {{
        let (a, b) = $p[0].split_at($p[0].len() / 3);
        let mut c = $c;
        c.update(a);
        c.update(b);
        c.finish().to_vec()
    }};
}
macro_rules! hmac {
    ($h:ty) => {
        |p| {
            let mut m = Hmac::<$h>::new(&p[0]);
            m.update(&p[3]);
            let t = m.finish();
            let mut m = Hmac::<$h>::new(&p[0]);
            m.update(&p[3]);
            let mut o = t.as_ref().to_vec();
            o.push(m.verify(t.as_ref()).is_ok() as u8);
            o
        }
    };
}
macro_rules! shake {
    ($t:ident) => {
        |p| {
            let mut o = vec![0u8; 400];
            let mut x = sha3::$t::new(&[&p[0]]);
            let (a, b) = o.split_at_mut(37);
            x.read(a);
            x.read(b);
            o
        }
    };
}
macro_rules! ecdsa_sign {
    ($c:ident, $f:ident, $h:ty, $i:expr) => {
        |p| {
            let k = ecdsa::SigningKey::<ecdsa::$c>::$f(&p[$i]).unwrap();
            let mut b = [0u8; 200];
            k.sign::<$h>(&[&p[4]], &mut b).unwrap().to_vec()
        }
    };
}
macro_rules! export {
    ($k:expr, $($m:ident),*) => {{
        let k = $k;
        let mut o = vec![];
        $(
            let mut b = [0u8; 2048];
            o.extend(k.$m(&mut b).unwrap());
        )*
        o
    }};
}

pub const OPS: &[Op] = &[
    ("sha256", one, |p| Sha256::hash(&p[0]).as_ref().to_vec()),
    ("sha384", one, |p| Sha384::hash(&p[0]).as_ref().to_vec()),
    ("sha512", one, |p| Sha512::hash(&p[0]).as_ref().to_vec()),
    ("sha256-parts", one, |p| inc!(p, Sha256::new())),
    ("sha384-parts", one, |p| inc!(p, Sha384::new())),
    ("sha512-parts", one, |p| inc!(p, Sha512::new())),
    ("sha256-context", one, |p| fin!(p, sha2::Sha256Context::new())),
    ("sha384-context", one, |p| fin!(p, sha2::Sha384Context::new())),
    ("sha512-context", one, |p| fin!(p, sha2::Sha512Context::new())),
    ("sha3-256", one, |p| fin!(p, sha3::Sha3_256Context::new())),
    ("sha3-512", one, |p| fin!(p, sha3::Sha3_512Context::new())),
    ("shake128", one, shake!(Shake128)),
    ("shake256", one, shake!(Shake256)),
    ("hmac-sha256", |s| sealed(s, 32), hmac!(Sha256)),
    ("hmac-sha384", |s| sealed(s, 200), hmac!(Sha384)),
    ("hmac-sha512", |s| sealed(s, 64), hmac!(Sha512)),
    ("aes128gcm", |s| sealed(s, 16), gcm),
    ("aes256gcm", |s| sealed(s, 32), gcm),
    ("aesgcm-key", |s| sealed(s, 32), |p| {
        drop(AesGcm::new(&p[0]));
        vec![]
    }),
    ("chacha20poly1305", |s| sealed(s, 32), |p| {
        let k = ChaCha20Poly1305::new(a32(&p[0]));
        aead(
            p,
            |n, a, b, t| k.encrypt(n[..12].try_into().unwrap(), a, b, t),
            |n, a, b, t| k.decrypt(n[..12].try_into().unwrap(), a, b, t).is_ok(),
        )
    }),
    ("xchacha20poly1305", |s| sealed(s, 32), |p| {
        let k = XChaCha20Poly1305::new(a32(&p[0]));
        aead(
            p,
            |n, a, b, t| k.encrypt(n.try_into().unwrap(), a, b, t),
            |n, a, b, t| k.decrypt(n.try_into().unwrap(), a, b, t).is_ok(),
        )
    }),
    ("x25519-agree", two, |p| {
        let k = x25519::StaticPrivateKey::from_array(&a32(&p[0]));
        let q = x25519::PublicKey::try_from_slice(&p[1]).unwrap();
        k.diffie_hellman(&q).map(|x| x.0.to_vec()).unwrap_or_default()
    }),
    ("x25519-import", two, |p| {
        let k = x25519::StaticPrivateKey::try_from_slice(&p[0]).unwrap();
        k.as_bytes().to_vec()
    }),
    ("x25519-public", two, |p| {
        let q = x25519::PublicKey::try_from_slice(&p[0]).unwrap();
        q.as_bytes().to_vec()
    }),
    ("x25519-static", none, |_| x25519::StaticPrivateKey::new_random().unwrap().public_key().as_bytes().to_vec()),
    ("x25519-ephemeral", none, |_| x25519::PrivateKey::new_random().unwrap().public_key().as_bytes().to_vec()),
    ("p256-agree", ec256, |p| {
        let k = p256::StaticPrivateKey::from_bytes(&p[0]).unwrap();
        let q = p256::PublicKey::from_x962_uncompressed(&p[3]).unwrap();
        k.diffie_hellman(&q).map(|x| x.0.to_vec()).unwrap_or_default()
    }),
    ("p256-import", ec256, |p| p256::StaticPrivateKey::from_bytes(&p[0]).unwrap().as_bytes().to_vec()),
    ("p256-public", ec256, |p| p256::PublicKey::from_x962_uncompressed(&p[3]).unwrap().as_bytes_uncompressed().to_vec()),
    ("p256-static", none, |_| p256::StaticPrivateKey::new_random().unwrap().public_key_uncompressed().to_vec()),
    ("p256-ephemeral", none, |_| p256::PrivateKey::new_random().unwrap().public_key_uncompressed().to_vec()),
    ("p384-agree", ec384, |p| {
        let k = p384::StaticPrivateKey::from_bytes(&p[0]).unwrap();
        let q = p384::PublicKey::from_x962_uncompressed(&p[3]).unwrap();
        k.diffie_hellman(&q).map(|x| x.0.to_vec()).unwrap_or_default()
    }),
    ("p384-import", ec384, |p| p384::StaticPrivateKey::from_bytes(&p[0]).unwrap().as_bytes().to_vec()),
    ("p384-public", ec384, |p| p384::PublicKey::from_x962_uncompressed(&p[3]).unwrap().as_bytes_uncompressed().to_vec()),
    ("p384-static", none, |_| p384::StaticPrivateKey::new_random().unwrap().public_key_uncompressed().to_vec()),
    ("p384-ephemeral", none, |_| p384::PrivateKey::new_random().unwrap().public_key_uncompressed().to_vec()),
    ("ecdsa-p256-sign", ec256, ecdsa_sign!(P256, from_sec1_der, Sha256, 1)),
    ("ecdsa-p256-pkcs8-sign", ec256, ecdsa_sign!(P256, from_pkcs8_der, Sha512, 2)),
    ("ecdsa-p384-sign", ec384, ecdsa_sign!(P384, from_sec1_der, Sha384, 1)),
    ("ecdsa-p384-pkcs8-sign", ec384, ecdsa_sign!(P384, from_pkcs8_der, Sha256, 2)),
    ("ecdsa-p256-export", ec256, |p| {
        export!(ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&p[1]).unwrap(), to_sec1_der, to_pkcs8_der, to_spki_der)
    }),
    ("ecdsa-p384-export", ec384, |p| {
        export!(ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(&p[2]).unwrap(), to_sec1_der, to_pkcs8_der, to_spki_der)
    }),
    ("ecdsa-p256-generate", none, |_| export!(ecdsa::SigningKey::<ecdsa::P256>::generate().unwrap(), to_sec1_der)),
    ("ecdsa-p384-generate", none, |_| export!(ecdsa::SigningKey::<ecdsa::P384>::generate().unwrap(), to_sec1_der)),
    ("ecdsa-p256-verify", ec256, |p| {
        let k = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&p[3]).unwrap();
        ok(&k.verify::<Sha256>(&[&p[4]], &p[5]))
    }),
    ("ecdsa-p256-verify-der", ec256, |p| {
        let k = ecdsa::VerifyingKey::<ecdsa::P256>::from_x962_uncompressed(&p[3]).unwrap();
        ok(&k.verify_asn1::<Sha256>(&[&p[4]], &p[6]))
    }),
    ("ecdsa-p384-verify", ec384, |p| {
        let k = ecdsa::VerifyingKey::<ecdsa::P384>::from_x962_uncompressed(&p[3]).unwrap();
        ok(&k.verify::<Sha256>(&[&p[4]], &p[5]))
    }),
    ("ed25519-sign", ed, |p| Ed25519SigningKey::from_bytes(&p[0]).unwrap().sign(&p[1]).to_vec()),
    ("ed25519-pkcs8", ed, |p| export!(Ed25519SigningKey::from_pkcs8_der(&p[4]).unwrap(), to_pkcs8_der)),
    ("ed25519-generate", none, |_| Ed25519SigningKey::generate().unwrap().as_seed().to_vec()),
    ("ed25519-verify", ed, |p| ok(&Ed25519VerifyingKey::from_bytes(&p[3]).unwrap().verify(&p[2], &p[1]))),
    ("ed25519-spki", ed, |p| export!(Ed25519VerifyingKey::from_spki_der(&p[5]).unwrap(), to_spki_der)),
    ("mlkem-generate", none, |_| mlkem768::DecapKey::generate().unwrap().encapsulation_key().as_bytes().to_vec()),
    ("mlkem-decaps", none, |_| {
        let d = mlkem768::DecapKey::generate().unwrap();
        let (k, c) = d.encapsulation_key().encaps().unwrap();
        let mut o = k.as_ref().to_vec();
        o.extend(d.decaps(&c).as_ref());
        o
    }),
    ("mlkem-refuse", kem, |p| {
        let d = mlkem768::DecapKey::generate().unwrap();
        let c: [u8; 1088] = p[1][..].try_into().unwrap();
        d.decaps(&c.into()).as_ref().to_vec()
    }),
    ("mlkem-encaps", kem, |p| {
        let e = mlkem768::EncapKey::from_bytes(&p[0][..].try_into().unwrap()).unwrap();
        let (k, c) = e.encaps().unwrap();
        let mut o = k.as_ref().to_vec();
        o.extend(c.as_ref());
        o
    }),
    ("mlkem-import", kem, |p| mlkem768::EncapKey::from_bytes(&p[0][..].try_into().unwrap()).unwrap().as_bytes().to_vec()),
    ("rsa-verify", rsa_parts, |p| ok(&rsa::VerifyingKey::from_pkcs1_der(&p[2]).unwrap().verify_pkcs1_sha256(&p[4], &p[3]))),
    ("rsa-verify-pss", rsa_parts, |p| ok(&rsa::VerifyingKey::from_pkcs1_der(&p[2]).unwrap().verify_pss_sha256(&p[5], &p[3]))),
    ("rsa-public", rsa_parts, |p| export!(rsa::VerifyingKey::from_pkcs1_der(&p[2]).unwrap(), to_pkcs1_der, to_spki_der)),
    ("rsa-import", rsa_parts, |p| export!(rsa::SigningKey::from_pkcs1_der(&p[0]).unwrap(), to_pkcs1_der)),
    ("rsa-import-pkcs8", rsa_parts, |p| export!(rsa::SigningKey::from_pkcs8_der(&p[1]).unwrap(), to_pkcs8_der)),
    ("random", none, |_| {
        let mut b = vec![0u8; 100];
        graviola::random::fill(&mut b).unwrap();
        b
    }),
    // slow from here
    ("rsa-sign", rsa_parts, |p| {
        let mut b = [0u8; 256];
        rsa::SigningKey::from_pkcs1_der(&p[0]).unwrap().sign_pkcs1_sha256(&mut b, &p[3]).unwrap().to_vec()
    }),
    ("rsa-sign-pss", rsa_parts, |p| {
        let mut b = [0u8; 256];
        rsa::SigningKey::from_pkcs8_der(&p[1]).unwrap().sign_pss_sha256(&mut b, &p[3]).unwrap().to_vec()
    }),
];
const SLOW: usize = 2;

/// what the README asks for, and what x86-64 processors with that also have
const MANDATORY: u32 = POPCNT | SSE3 | SSSE3 | SSE41 | SSE42 | AES | PCLMUL | AVX | AVX2 | BMI1 | BMI2 | ADX;

/// the feature sets of COMPATIBILITY.md, by what sets them apart
const FAMILIES: &[(&str, u32)] = &[
    ("Prescott", SSE3),
    ("Merom", SSE3 | SSSE3),
    ("Nehalem", SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT),
    ("Westmere", SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | AES | PCLMUL),
    ("Sandy Bridge", SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | AES | PCLMUL | AVX),
    ("Ivy Bridge", SSE3 | SSSE3 | SSE41 | SSE42 | POPCNT | AES | PCLMUL | AVX | F16C),
    ("Goldmont", SSE3 | SSSE3 | SSE41 | SSE42 | MOVBE | POPCNT | AES | PCLMUL | SHA),
    ("Tremont", SSE3 | SSSE3 | SSE41 | SSE42 | MOVBE | POPCNT | AES | PCLMUL | SHA | GFNI),
    ("Haswell", SSE3 | SSSE3 | SSE41 | SSE42 | MOVBE | POPCNT | LZCNT | AES | PCLMUL | AVX | F16C | FMA | AVX2 | BMI1 | BMI2),
    ("Broadwell", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA),
    ("Zen 1-2", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | SHA),
    ("Zen 3", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | SHA | VAES | VPCLMUL),
    ("Alder Lake", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | SHA | VAES | VPCLMUL | GFNI),
    ("Skylake server", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | AVX512F | AVX512VL | AVX512BW | AVX512DQ),
    ("Cannon Lake", MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | SHA | AVX512F | AVX512VL | AVX512BW | AVX512DQ | AVX512X),
    ("Knights Landing", (MANDATORY | MOVBE | POPCNT | LZCNT | F16C | FMA | AVX512F)),
    ("Ice Lake", ALL),
];
const OPTIONAL: &[u32] = &[MOVBE, LZCNT, F16C, FMA, SHA, VAES, VPCLMUL, GFNI, AVX512F, AVX512VL, AVX512BW, AVX512DQ, AVX512X];

/// first each required feature missing and each family, then anything
fn machine(s: &mut Src, round: u64) -> Machine {
    let host = host();
    let required: Vec<u32> = (0..NAMES.len()).map(|i| 1 << i).filter(|f| MANDATORY & f != 0).collect();
    let round = round as usize;
    if round < required.len() {
        let f = required[round];
        return Machine { has: close(host & !f), os: 2, what: format!("no {}", names(f)) };
    }
    if round < required.len() + FAMILIES.len() {
        let (n, m) = FAMILIES[round - required.len()];
        return Machine { has: close(m & host), os: 2, what: n.to_string() };
    }
    let round = round - required.len() - FAMILIES.len();
    if round < 2 * OPTIONAL.len() {
        // once with long messages, once with any
        LONG.set(round % 2 == 0);
        let f = OPTIONAL[round / 2];
        return Machine { has: close(host & !f), os: 2, what: format!("no {}", names(f)) };
    }
    let (has, os, what) = match s.weighted(&[4, 6, 6, 6, 4, 2]) {
        0 => {
            let (n, m) = s.pick(FAMILIES);
            (close(m & host), 2, n.to_string())
        }
        1 => {
            // one thing missing
            let f = 1 << s.idx(NAMES.len());
            (close(host & !f), 2, format!("no {}", names(f)))
        }
        2 => {
            // supported, with any of the options
            let mut m = MANDATORY;
            for f in OPTIONAL {
                if s.bool() {
                    m |= f;
                }
            }
            (close(m & host), 2, "options".into())
        }
        3 => {
            // all options but one or two
            let mut m = ALL;
            for _ in 0..s.range(1, 2) {
                m &= !*s.pick(OPTIONAL);
            }
            (close(m & host), 2, "fewer options".into())
        }
        4 => {
            let m = s.u64() as u32 | s.u64() as u32;
            (close(m & host), 2, "random".into())
        }
        _ => {
            let os = s.idx(2) as u32;
            (host, os, "system without vector state".into())
        }
    };
    Machine { has, os, what }
}

fn pack(p: &Parts) -> Vec<u8> {
    let mut o = vec![];
    for x in p {
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x);
    }
    o
}
fn unpack(mut b: &[u8]) -> Parts {
    let mut o = vec![];
    while b.len() >= 4 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        o.push(b[4..4 + n].to_vec());
        b = &b[4 + n..];
    }
    o
}

#[inline(never)]
pub fn run(op: &Op, p: &Parts) -> Vec<u8> {
    (op.2)(p)
}
fn report(result: &str) {
    let s = st();
    let at = if s.bad != 0 { s.bad as i64 - needs as *const () as i64 } else { 0 };
    println!("TRAPS {}\nASKED {}\nLACKS {}\nAT {at}\n{result}", s.steps, s.asked, s.lacks);
}

/// the process that believes
pub fn child(a: &[String]) -> i32 {
    let num = |i: usize| a[i].parse::<u32>().unwrap();
    let (has, os, n, fast) = (num(0), num(1), num(2) as usize, num(3) == 1);
    let mut b = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).unwrap();
    let k = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    let p = unpack(&b[4..4 + k]);
    let scan: Vec<(i32, u32)> =
        b[4 + k..].chunks(8).map(|x| (i32::from_le_bytes(x[..4].try_into().unwrap()), u32::from_le_bytes(x[4..].try_into().unwrap()))).collect();
    std::panic::set_hook(Box::new(|i| {
        stop();
        let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        report(&format!("PANIC {m}"));
        std::process::exit(0);
    }));
    let op = &OPS[n];
    rngshim::prng(&[], n as u64);
    let mut out = vec![];
    if fast {
        go_fast(
            has,
            os,
            &scan,
            || {
                report("BAD");
                unsafe { libc::_exit(0) }
            },
            &mut || out = run(op, &p),
        );
    } else {
        go(has, os, &mut || out = run(op, &p));
    }
    report(&format!("OUT {}", hex(&out)));
    0
}

struct Machine {
    has: u32,
    os: u32,
    what: String,
}
fn trial(n: usize, m: &Machine, p: &Parts, want: &[u8], fast: bool, s: &mut Src) -> R {
    use std::io::Write;
    static EXE: OnceLock<std::path::PathBuf> = OnceLock::new();
    static SCAN: OnceLock<Vec<u8>> = OnceLock::new();
    let exe = EXE.get_or_init(|| std::env::current_exe().expect("exe"));
    let mut c = std::process::Command::new(exe);
    for (k, _) in std::env::vars() {
        if k.starts_with("GRAVIOLA_CPU_DISABLE_") {
            c.env_remove(k);
        }
    }
    let mut input = pack(p);
    input.splice(0..0, (input.len() as u32).to_le_bytes());
    if fast {
        input.extend(SCAN.get_or_init(|| scan().iter().flat_map(|(o, n)| [o.to_le_bytes(), n.to_le_bytes()].concat()).collect()));
        ensure!(input.len() > 8000, "harness", "no disassembly");
    }
    c.args(["cpu".to_string(), m.has.to_string(), m.os.to_string(), n.to_string(), (fast as u32).to_string()]);
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = c.spawn().and_then(|mut ch| {
        ch.stdin.take().unwrap().write_all(&input)?;
        ch.wait_with_output()
    });
    let out = match out {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("cannot start a process: {e}")),
    };
    beat();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string());
    let num = |k: &str| get(k).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
    let eff = match m.os {
        0 => close(m.has & !AVX),
        1 => close(m.has & !AVX512F),
        _ => m.has,
    };
    let supported = eff & MANDATORY == MANDATORY;
    let name = OPS[n].0;
    let cpu = format!("{}: {}", m.what, names(eff));
    ensure!(
        out.status.success() && get("TRAPS").is_some(),
        format!("{name}/died"),
        "{name} on a processor with {cpu}: {} {}",
        out.status,
        String::from_utf8_lossy(&out.stderr).trim().chars().take(300).collect::<String>()
    );
    let lacks = num("LACKS") as u32;
    ensure!(
        lacks == 0 && get("BAD").is_none(),
        format!("{name}/{}", names(lacks)),
        "{name} on a processor with {cpu}: executes an instruction of {} in {}",
        names(lacks),
        crate::ctstep::whereis((num("AT") + needs as *const () as i64) as u64)
    );
    match get("PANIC") {
        Some(m) => {
            ensure!(!supported, format!("{name}/refused"), "{name} on a supported processor, with {cpu}: panics: {m}");
            s.label("refused");
        }
        None => {
            let got = get("OUT").unwrap_or_default();
            ensure!(got == hex(want), format!("{name}/result"), "{name} on a processor with {cpu}: {got}, otherwise {}", hex(want));
            s.label(if supported { "worked" } else { "worked without what is required" });
        }
    }
    if num("ASKED") > 0 {
        s.nontrivial();
    }
    s.note(format!("{name}, {cpu}"));
    Ok(())
}
fn case(s: &mut Src, n: usize, fast: bool) -> R {
    let op = &OPS[n];
    let m = machine(s, if fast { s.idx / OPS.len() as u64 } else { u64::MAX });
    let p = (op.1)(s);
    LONG.set(false);
    rngshim::prng(&[], n as u64);
    let want = run(op, &p);
    rngshim::reset();
    match trial(n, &m, &p, &want, fast, s) {
        // the last word is that of the instruction-by-instruction run
        Err(_) if fast => trial(n, &m, &p, &want, false, s),
        r => r,
    }
}
fn broken(s: &mut Src) -> R {
    let n = (s.idx % OPS.len() as u64) as usize;
    case(s, n, true)
}
fn stepped(s: &mut Src) -> R {
    let n = (s.idx % (OPS.len() - SLOW) as u64) as usize;
    case(s, n, false)
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "A process makes its first use of the library with the answers of cpuid and xgetbv cut down to those of a chosen processor, either single-stepped, each instruction executed being checked against that processor's features, or with a breakpoint in place of each instruction the processor lacks (what this shows is confirmed by single-stepping); non-trivial: the processor was asked what it has, so that the answers mattered.",
        assumptions: &[
            "instructions executed inside the C library are its own business",
            "processors have features in the usual order (AVX2 implies AVX implies SSE4.2 and so on)",
            "the chosen processor has at most the features of the one that runs the check",
        ],
        subs: vec![
            Sub::new("stepped", stepped, (OPS.len() - SLOW) as u64, (OPS.len() - SLOW) as u64 * 20),
            Sub::new("ops", broken, OPS.len() as u64 * 90, OPS.len() as u64 * 3000),
        ],
    }
}
