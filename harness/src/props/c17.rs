//! key export and import
use super::ecdsautil as eu;
use super::ecdsautil::{SK, VK};
use super::ecutil::{curve, scalar};
use super::rsautil::{self as ru, Shape};
use crate::engine::*;
use crate::refs::{c25519, der};
use aws_lc_rs::signature as asig;
use aws_lc_rs::signature::KeyPair;
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::ecdsa::{SigningKey as EcSk, P256, P384};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use graviola::Error;

const CANARY: u8 = 0xA5;

/// run an export into buffers of many sizes; it must give exactly `want` or an error, and touch
/// nothing past the encoding
pub fn export(s: &mut Src, what: &str, want: &[u8], f: &dyn Fn(&mut [u8]) -> Result<Vec<u8>, Error>) -> R {
    let n = want.len();
    let mut sizes = vec![n, n + 1, n + 2, n + 3 + s.idx(200), n + 4096];
    if n < 400 && s.one_in(16) {
        sizes.extend(0..n);
    } else {
        sizes.extend([0, 1, 2, 3, 4, 5, 10, n / 2, n - 1, n - 2, n - 3]);
        for _ in 0..6 {
            sizes.push(s.idx(n));
        }
    }
    for size in sizes {
        let mut buf = vec![CANARY; size];
        match f(&mut buf) {
            Ok(got) => {
                ensure!(size >= n, format!("{what}-truncated"), "{what}: {}-byte encoding returned from a {size}-byte buffer that needs {n}: {}", got.len(), hex(&got));
                ensure!(got == want, format!("{what}-bytes"), "{what}: exported {} want {}", hex(&got), hex(want));
                ensure!(&buf[..n] == want, format!("{what}-place"), "{what}: the returned encoding is not at the start of the buffer");
                ensure!(buf[n..].iter().all(|b| *b == CANARY), format!("{what}-overrun"), "{what}: bytes after the {n}-byte encoding were changed in a {size}-byte buffer");
            }
            Err(e) => ensure!(size < n, format!("{what}-refused"), "{what}: {e:?} for a {size}-byte buffer although {n} bytes suffice"),
        }
    }
    Ok(())
}

fn ed25519(s: &mut Src) -> R {
    let seed: [u8; 32] = if s.bool() { s.barr() } else { s.edgy() };
    let pk = c25519::ed_public(&seed);
    s.nontrivial();
    s.note(format!("Ed25519 seed {}", hex(&seed)));
    let k = match Ed25519SigningKey::from_bytes(&seed) {
        Ok(k) => k,
        Err(e) => return fail("ed-import", format!("seed {}: {e:?}", hex(&seed))),
    };
    ensure!(k.as_seed() == seed, "ed-seed", "seed {} exports as {}", hex(&seed), hex(&k.as_seed()));
    ensure!(k.public_key().as_bytes() == pk, "ed-public", "seed {}", hex(&seed));
    let alg = der::seq(&[der::oid(der::ED25519)]);
    let mut tail = der::bits(&pk);
    tail[0] = 0x81;
    let inner = der::octets(&der::octets(&seed));
    let v2 = der::seq(&[der::uint(&[1]), alg.clone(), inner.clone(), tail]);
    let v1 = der::seq(&[der::uint(&[]), alg.clone(), inner]);
    let spki = der::seq(&[alg, der::bits(&pk)]);
    export(s, "ed-pkcs8", &v2, &|b| k.to_pkcs8_der(b).map(|x| x.to_vec()))?;
    let vk = k.public_key();
    export(s, "ed-spki", &spki, &|b| vk.to_spki_der(b).map(|x| x.to_vec()))?;
    let n = s.idx(100);
    let msg = s.blob(n);
    for (name, enc) in [("v1", &v1), ("v2", &v2)] {
        match Ed25519SigningKey::from_pkcs8_der(enc) {
            Ok(k2) => {
                ensure!(k2.as_seed() == seed, "ed-roundtrip", "{name} seed {} became {}", hex(&seed), hex(&k2.as_seed()));
                ensure!(k2.public_key().as_bytes() == pk, "ed-roundtrip-pub", "{name} seed {}", hex(&seed));
                let mut b = [0; 200];
                ensure!(k2.to_pkcs8_der(&mut b).ok() == Some(&v2[..]), "ed-reexport", "{name} seed {}", hex(&seed));
                ensure!(k2.sign(&msg) == k.sign(&msg), "ed-sign", "{name} seed {}: signatures differ", hex(&seed));
                ensure!(c25519::ed_verify(&pk, &k2.sign(&msg), &msg), "ed-verify", "{name} seed {}", hex(&seed));
            }
            Err(e) => return fail("ed-pkcs8-refused", format!("{name} of seed {}: {e:?}", hex(&seed))),
        }
    }
    match Ed25519VerifyingKey::from_spki_der(&spki) {
        Ok(v) => {
            ensure!(v.as_bytes() == pk, "ed-spki-roundtrip", "public key {} became {}", hex(&pk), hex(&v.as_bytes()));
            ensure!(v.verify(&k.sign(&msg), &msg).is_ok(), "ed-spki-verify", "public key {}", hex(&pk));
        }
        Err(e) => return fail("ed-spki-refused", format!("{}: {e:?}", hex(&pk))),
    }
    ensure!(Ed25519VerifyingKey::from_bytes(&pk).map(|v| v.as_bytes()).ok() == Some(pk), "ed-raw", "public key {}", hex(&pk));
    for enc in [&v1, &v2] {
        let their = if enc == &v1 { asig::Ed25519KeyPair::from_pkcs8_maybe_unchecked(enc) } else { asig::Ed25519KeyPair::from_pkcs8(enc) };
        match their {
            Ok(t) => ensure!(t.public_key().as_ref() == pk, "ed-interop", "aws-lc reads another key from {}", hex(enc)),
            Err(e) => return fail("ed-interop-refused", format!("aws-lc refuses {}: {e}", hex(enc))),
        }
    }
    Ok(())
}

pub struct EcEnc {
    pub sec1: Vec<u8>,
    pub pkcs8: Vec<u8>,
    pub spki: Vec<u8>,
    pub alg: Vec<u8>,
}
pub fn ec_sec1(ci: usize, d: &[u8], q: Option<&[u8]>, params: bool) -> Vec<u8> {
    let co = der::oid(if ci == 0 { der::P256 } else { der::P384 });
    let mut parts = vec![der::uint(&[1]), der::octets(d)];
    if params {
        parts.push(der::tlv(0xa0, &co));
    }
    if let Some(q) = q {
        parts.push(der::tlv(0xa1, &der::bits(q)));
    }
    der::seq(&parts)
}
pub fn ec_encodings(ci: usize, d: &[u8], q: &[u8]) -> EcEnc {
    let co = der::oid(if ci == 0 { der::P256 } else { der::P384 });
    let alg = der::seq(&[der::oid(der::EC_PUBLIC_KEY), co]);
    EcEnc {
        sec1: ec_sec1(ci, d, Some(q), true),
        pkcs8: der::seq(&[der::uint(&[]), alg.clone(), der::octets(&ec_sec1(ci, d, Some(q), false))]),
        spki: der::seq(&[alg.clone(), der::bits(q)]),
        alg,
    }
}
impl SK {
    pub fn from_pkcs8(ci: usize, b: &[u8]) -> Result<SK, Error> {
        if ci == 0 {
            EcSk::<P256>::from_pkcs8_der(b).map(SK::P256)
        } else {
            EcSk::<P384>::from_pkcs8_der(b).map(SK::P384)
        }
    }
    pub fn from_sec1(ci: usize, b: &[u8]) -> Result<SK, Error> {
        if ci == 0 {
            EcSk::<P256>::from_sec1_der(b).map(SK::P256)
        } else {
            EcSk::<P384>::from_sec1_der(b).map(SK::P384)
        }
    }
    pub fn to(&self, what: usize, b: &mut [u8]) -> Result<Vec<u8>, Error> {
        match (self, what) {
            (SK::P256(k), 0) => k.to_pkcs8_der(b).map(|x| x.to_vec()),
            (SK::P256(k), 1) => k.to_sec1_der(b).map(|x| x.to_vec()),
            (SK::P256(k), _) => k.to_spki_der(b).map(|x| x.to_vec()),
            (SK::P384(k), 0) => k.to_pkcs8_der(b).map(|x| x.to_vec()),
            (SK::P384(k), 1) => k.to_sec1_der(b).map(|x| x.to_vec()),
            (SK::P384(k), _) => k.to_spki_der(b).map(|x| x.to_vec()),
        }
    }
}

fn ecdsa(s: &mut Src) -> R {
    let ci = s.idx(2);
    let c = curve(ci);
    let d = scalar(s, c);
    let db = c.enc(&d);
    let q = c.point(&c.mul_g(&d));
    s.nontrivial();
    s.note(format!("{} ECDSA d {}", c.name, hex(&db)));
    if db[0] == 0 {
        s.label("scalar-with-leading-zero");
    }
    let Some(k) = SK::new(ci, &d) else {
        return fail("ec-import", format!("{} d {}", c.name, hex(&db)));
    };
    let enc = ec_encodings(ci, &db, &q);
    export(s, "ec-pkcs8", &enc.pkcs8, &|b| k.to(0, b))?;
    export(s, "ec-sec1", &enc.sec1, &|b| k.to(1, b))?;
    export(s, "ec-spki", &enc.spki, &|b| k.to(2, b))?;
    let wrap = |inner: Vec<u8>| der::seq(&[der::uint(&[]), enc.alg.clone(), der::octets(&inner)]);
    let mut forms = vec![];
    for params in [true, false] {
        for pubkey in [Some(&q[..]), None] {
            let x = ec_sec1(ci, &db, pubkey, params);
            forms.push((format!("sec1 params={params} public={}", pubkey.is_some()), SK::from_sec1(ci, &x)));
            forms.push((format!("pkcs8 params={params} public={}", pubkey.is_some()), SK::from_pkcs8(ci, &wrap(x))));
        }
    }
    let msg = eu::message(s);
    let h = s.idx(3);
    let vk = VK::new(ci, &q);
    for (name, k2) in forms {
        let k2 = match k2 {
            Ok(k) => k,
            Err(e) => return fail("ec-refused", format!("{} d {} as {name}: {e:?}", c.name, hex(&db))),
        };
        ensure!(k2.d() == db && k2.public() == q, "ec-roundtrip", "{} d {} via {name} became {}", c.name, hex(&db), hex(&k2.d()));
        let mut b = [0; 400];
        for (what, want) in [(0, &enc.pkcs8), (1, &enc.sec1), (2, &enc.spki)] {
            let got = k2.to(what, &mut b).ok();
            ensure!(got.as_ref() == Some(want), "ec-reexport", "{} d {} via {name}: format {what} gives {:?}", c.name, hex(&db), got.map(|x| hex(&x)));
        }
        if s.one_in(4) {
            let mut b = [0; 100];
            let sig = match k2.sign(h, &[&msg], &mut b) {
                Ok(x) => x.to_vec(),
                Err(e) => return fail("ec-sign", format!("{} d {} via {name}: {e:?}", c.name, hex(&db))),
            };
            ensure!(vk.as_ref().is_some_and(|v| v.verify(h, &[&msg], &sig)), "ec-sign-verify", "{} d {} via {name}", c.name, hex(&db));
            if let Some(ok) = eu::awslc(ci, h, false, &q, &msg, &sig) {
                ensure!(ok, "ec-sign-interop", "{} d {} via {name}: signature refused by aws-lc", c.name, hex(&db));
            }
        }
    }
    let alg = if ci == 0 { &asig::ECDSA_P256_SHA256_FIXED_SIGNING } else { &asig::ECDSA_P384_SHA384_FIXED_SIGNING };
    match asig::EcdsaKeyPair::from_pkcs8(alg, &enc.pkcs8) {
        Ok(t) => ensure!(t.public_key().as_ref() == q, "ec-interop", "{} d {}: aws-lc reads another key", c.name, hex(&db)),
        Err(e) => return fail("ec-interop-refused", format!("{} d {}: {e}", c.name, hex(&db))),
    }
    match asig::EcdsaKeyPair::from_private_key_der(alg, &enc.sec1) {
        Ok(t) => ensure!(t.public_key().as_ref() == q, "ec-interop-sec1", "{} d {}: aws-lc reads another key", c.name, hex(&db)),
        Err(e) => return fail("ec-interop-sec1-refused", format!("{} d {}: {e}", c.name, hex(&db))),
    }
    Ok(())
}

pub fn rsa_alg() -> Vec<u8> {
    der::seq(&[der::oid(der::RSA), der::null()])
}
fn rsa_private(s: &mut Src) -> R {
    let shape = if s.bool() { Shape::Common } else { Shape::Any };
    let Some(k) = ru::key(s, shape) else {
        s.note("exponent not invertible");
        return Ok(());
    };
    s.nontrivial();
    s.note(format!("RSA {} bits e={}", k.n.bits(), k.e));
    if k.e.bits() > 31 {
        s.label("e-over-31-bits");
    }
    let p1 = k.private_der();
    let p8 = der::seq(&[der::uint(&[]), rsa_alg(), der::octets(&p1)]);
    let pub1 = k.public_der();
    let spki = der::seq(&[rsa_alg(), der::bits(&pub1)]);
    let sk = match rsa::SigningKey::from_pkcs1_der(&p1) {
        Ok(k) => k,
        Err(e) => {
            // sizes outside the supported range are not this property's business
            let bytes = k.n.bits().div_ceil(8);
            ensure!(bytes < 256 || k.p.bits() < 1017 || k.q.bits() < 1017, "rsa-refused", "{} bits, p {} q {} e={}: {e:?}", k.n.bits(), k.p.bits(), k.q.bits(), k.e);
            s.label("unsupported-size");
            return Ok(());
        }
    };
    export(s, "rsa-pkcs1", &p1, &|b| sk.to_pkcs1_der(b).map(|x| x.to_vec()))?;
    export(s, "rsa-pkcs8", &p8, &|b| sk.to_pkcs8_der(b).map(|x| x.to_vec()))?;
    let vk = sk.public_key();
    export(s, "rsa-public-pkcs1", &pub1, &|b| vk.to_pkcs1_der(b).map(|x| x.to_vec()))?;
    export(s, "rsa-spki", &spki, &|b| vk.to_spki_der(b).map(|x| x.to_vec()))?;
    let sk2 = match rsa::SigningKey::from_pkcs8_der(&p8) {
        Ok(k) => k,
        Err(e) => return fail("rsa-pkcs8-refused", format!("{} bits e={}: {e:?}", k.n.bits(), k.e)),
    };
    let vk2 = match rsa::VerifyingKey::from_pkcs1_der(&pub1) {
        Ok(k) => k,
        Err(e) => return fail("rsa-public-refused", format!("{} bits e={}: {e:?}", k.n.bits(), k.e)),
    };
    let mut b = vec![0; p8.len() + 10];
    ensure!(sk2.to_pkcs1_der(&mut b).ok() == Some(&p1[..]), "rsa-reexport", "{} bits e={}", k.n.bits(), k.e);
    ensure!(sk2.to_pkcs8_der(&mut b).ok() == Some(&p8[..]), "rsa-reexport8", "{} bits e={}", k.n.bits(), k.e);
    ensure!(vk2.to_pkcs1_der(&mut b).ok() == Some(&pub1[..]), "rsa-reexport-pub", "{} bits e={}", k.n.bits(), k.e);
    ensure!(vk2.to_spki_der(&mut b).ok() == Some(&spki[..]), "rsa-reexport-spki", "{} bits e={}", k.n.bits(), k.e);
    ensure!(sk2.modulus_len_bytes() == k.k(), "rsa-modulus-len", "{} for {} bits", sk2.modulus_len_bytes(), k.n.bits());
    if s.one_in(3) {
        let (pss, h) = (s.bool(), s.idx(3));
        let msg = eu::message(s);
        let mut b = vec![0; k.k()];
        let Some(sig) = ru::sign(&sk2, pss, h, &msg, &mut b) else {
            return fail("rsa-sign", format!("{} bits e={} {}", k.n.bits(), k.e, ru::name(pss, h)));
        };
        ensure!(ru::verify_ref(&k.n, &k.e, pss, h, &msg, &sig), "rsa-sign-ref", "{} bits e={} {}", k.n.bits(), k.e, ru::name(pss, h));
        ensure!(ru::verify(&vk2, pss, h, &msg, &sig), "rsa-sign-verify", "{} bits e={} {}", k.n.bits(), k.e, ru::name(pss, h));
        s.label("signed");
    }
    if shape == Shape::Common && k.e == num_bigint::BigUint::from(65537u32) && k.n.bits() >= 2048 {
        s.label("interop");
        ensure!(asig::RsaKeyPair::from_pkcs8(&p8).is_ok(), "rsa-interop", "aws-lc refuses the PKCS#8 encoding of a {}-bit key", k.n.bits());
    }
    Ok(())
}
fn rsa_public(s: &mut Src) -> R {
    // any odd modulus will do for the public half
    let bits = match s.idx(4) {
        0 => s.range(2041, 2060),
        1 => *s.pick(&[2048usize, 3072, 4096, 6144, 8192]),
        2 => s.range(2048, 8192),
        _ => s.range(8180, 8192),
    };
    let mut nb = s.blob(bits.div_ceil(8));
    let last = nb.len() - 1;
    nb[last] |= 1;
    let top = (bits - 1) % 8;
    nb[0] &= ((1u16 << (top + 1)) - 1) as u8;
    nb[0] |= 1 << top;
    let e: u32 = match s.idx(3) {
        0 => 65537,
        1 => s.u64() as u32 | 1,
        _ => {
            let k = s.range(1, 31) as u32;
            if s.bool() {
                (1 << k) + 1
            } else {
                ((1u64 << (k + 1)) - 1) as u32
            }
        }
    };
    s.nontrivial();
    s.note(format!("RSA public {bits} bits e={e}"));
    if e >> 31 == 1 {
        s.label("e-over-31-bits");
    }
    let p1 = der::seq(&[der::uint(&nb), der::uint(&e.to_be_bytes())]);
    let spki = der::seq(&[rsa_alg(), der::bits(&p1)]);
    let k = match rsa::VerifyingKey::from_pkcs1_der(&p1) {
        Ok(k) => k,
        Err(er) => {
            return fail("rsa-public-refused", format!("{bits} bits e={e}: {er:?}"));
        }
    };
    export(s, "rsa-public-pkcs1", &p1, &|b| k.to_pkcs1_der(b).map(|x| x.to_vec()))?;
    export(s, "rsa-spki", &spki, &|b| k.to_spki_der(b).map(|x| x.to_vec()))?;
    Ok(())
}

fn raw(s: &mut Src) -> R {
    s.nontrivial();
    match s.idx(4) {
        0 => {
            let b: [u8; 32] = s.edgy();
            s.note(format!("X25519 {}", hex(&b)));
            let k = x25519::StaticPrivateKey::from_array(&b);
            ensure!(k.as_bytes() == b, "x25519-private", "{} became {}", hex(&b), hex(&k.as_bytes()));
            let k2 = x25519::StaticPrivateKey::try_from_slice(&k.as_bytes()).map(|k| k.as_bytes()).ok();
            ensure!(k2 == Some(b), "x25519-private-slice", "{}", hex(&b));
            let p = x25519::PublicKey::from_array(&b);
            ensure!(p.as_bytes() == b, "x25519-public", "{} became {}", hex(&b), hex(&p.as_bytes()));
            let q = k.public_key().as_bytes();
            ensure!(x25519::PublicKey::try_from_slice(&q).map(|k| k.as_bytes()).ok() == Some(q), "x25519-public-slice", "{}", hex(&q));
        }
        1 | 2 => {
            let ci = s.idx(2);
            let c = curve(ci);
            let d = scalar(s, c);
            let db = c.enc(&d);
            let q = super::ecutil::point(s, c);
            let qb = c.point(&q);
            s.note(format!("{} d {} Q {}", c.name, hex(&db), hex(&qb)));
            let (a, b) = if ci == 0 {
                (p256::StaticPrivateKey::from_bytes(&db).map(|k| k.as_bytes().to_vec()).ok(), p256::PublicKey::from_x962_uncompressed(&qb).map(|k| k.as_bytes_uncompressed().to_vec()).ok())
            } else {
                (p384::StaticPrivateKey::from_bytes(&db).map(|k| k.as_bytes().to_vec()).ok(), p384::PublicKey::from_x962_uncompressed(&qb).map(|k| k.as_bytes_uncompressed().to_vec()).ok())
            };
            ensure!(a.as_ref() == Some(&db), "ec-raw-private", "{} d {} became {:?}", c.name, hex(&db), a.map(|x| hex(&x)));
            ensure!(b.as_ref() == Some(&qb), "ec-raw-public", "{} Q {} became {:?}", c.name, hex(&qb), b.map(|x| hex(&x)));
        }
        _ => {
            let seed: [u8; 64] = s.blob(64).try_into().unwrap();
            s.note(format!("ML-KEM seed {}", hex(&seed)));
            let k = mlkem768::DecapKey::keygen_internal(&seed);
            let ek = k.encapsulation_key().as_bytes();
            let again = mlkem768::EncapKey::from_bytes(&ek).map(|k| k.as_bytes()).ok();
            ensure!(again == Some(ek), "mlkem-public", "seed {}", hex(&seed));
            let dk = k.as_bytes();
            ensure!(dk[1152..1152 + 1184] == ek, "mlkem-private-layout", "seed {}: the decapsulation key does not contain the encapsulation key", hex(&seed));
            ensure!(mlkem768::DecapKey::keygen_internal(&seed).as_bytes() == dk, "mlkem-private", "seed {}: regenerated key differs", hex(&seed));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "Keys of every kind with edge values (Ed25519 seeds, ECDSA scalars with leading zeros or near the order, RSA keys of many shapes and exponents up to 2^32-1, raw key-agreement keys) are exported in every format into buffers of every size around the needed one, compared with an independent DER encoder, re-imported in every accepted variant and used; a case is non-trivial when a key was exported and re-imported, distinct by the recorded choices.",
        assumptions: &["the expected encodings are written by the harness' own DER writer", "aws-lc-rs is the independent reader for PKCS#8 and SEC1"],
        subs: vec![
            Sub::new("ed25519", ed25519, 3_000, 60_000),
            Sub::new("ecdsa", ecdsa, 3_000, 60_000),
            Sub::new("rsa_private", rsa_private, 1_500, 20_000),
            Sub::new("rsa_public", rsa_public, 4_000, 100_000),
            Sub::new("raw", raw, 6_000, 200_000),
        ],
    }
}
