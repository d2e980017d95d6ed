//! C21: results do not depend on optional CPU features.
//!
//! Every case emits all it got from the library (bytes and decisions); the runner executes the
//! same cases under each CPU feature set and compares what was emitted, case by case.
use super::aead_util::Aead;
use super::ecdsautil::{self, SK, VK};
use super::ecutil::{curve, scalar};
use super::rsautil;
use crate::engine::*;
use crate::rngshim;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::sha3::{Sha3_256Context, Sha3_512Context, Shake128, Shake256};
use graviola::hashing::{Hash, HashContext, Sha256, Sha384, Sha512};
use graviola::key_agreement::mlkem768;
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use num_bigint::BigUint;
use rustls::crypto::cipher::{AeadKey, InboundOpaqueMessage, Iv, OutboundPlainMessage};
use rustls::{ContentType, ProtocolVersion, SupportedCipherSuite};

fn feed<H: Hash>(s: &mut Src, key: Option<&[u8]>, m: &[u8]) -> Vec<u8> {
    let parts = s.partition(m.len());
    let whole = H::hash(m);
    let mut out = whole.as_ref().to_vec();
    match key {
        None => {
            let mut c = H::new();
            let mut at = 0;
            for p in parts {
                c.update(&m[at..at + p]);
                at += p;
                if s.one_in(3) {
                    out.extend(c.clone().finish().as_ref());
                }
            }
            out.extend(c.finish().as_ref());
        }
        Some(k) => {
            let mut c = Hmac::<H>::new(k);
            let mut at = 0;
            for p in parts {
                c.update(&m[at..at + p]);
                at += p;
            }
            let t = c.finish();
            let mut v = Hmac::<H>::new(k);
            v.update(m);
            out.push(v.verify(t.as_ref()).is_ok() as u8);
            out.extend(t.as_ref());
        }
    }
    out
}
pub fn hashes(s: &mut Src) -> R {
    let n = match s.idx(4) {
        0 => (s.idx % 1200) as usize,
        1 => s.len(3000),
        2 => s.idx(20_000),
        _ => 64 * s.idx(80) + s.idx(3),
    };
    let m = s.blob(n);
    let kn = s.idx(200);
    let key = s.blob(kn);
    let key = if s.bool() { Some(&key[..]) } else { None };
    let h = s.idx(3);
    let out = match h {
        0 => feed::<Sha256>(s, key, &m),
        1 => feed::<Sha384>(s, key, &m),
        _ => feed::<Sha512>(s, key, &m),
    };
    s.emit(&out);
    s.nontrivial();
    s.note(format!("hash {h} hmac {} over {n} bytes", key.is_some()));
    Ok(())
}
pub fn sha3(s: &mut Src) -> R {
    let n = s.len(3000);
    let m = s.blob(n);
    let parts = s.partition(n);
    let mp = ecdsautil::pieces(&m, &parts);
    let k = s.idx(4);
    match k {
        0 => {
            let mut c = Sha3_256Context::new();
            mp.iter().for_each(|p| c.update(p));
            s.emit(&c.finish());
        }
        1 => {
            let mut c = Sha3_512Context::new();
            mp.iter().for_each(|p| c.update(p));
            s.emit(&c.finish());
        }
        _ => {
            let on = s.len(1000);
            let mut out = vec![0u8; on];
            if k == 2 {
                Shake128::new(&mp).read(&mut out);
            } else {
                Shake256::new(&mp).read(&mut out);
            }
            s.emit(&out);
        }
    }
    s.nontrivial();
    s.note(format!("sha3 kind {k} over {n} bytes"));
    Ok(())
}
pub fn aead(s: &mut Src) -> R {
    let kind = if s.one_in(6) { s.range(2, 3) } else { s.idx(2) };
    let key: [u8; 32] = s.edgy();
    let nonce = s.bytes(Aead::nonce_len(kind));
    let n = match s.idx(4) {
        0 => (s.idx % 1500) as usize,
        1 => 16 * s.idx(300) + s.idx(3),
        2 => s.idx(30_000),
        _ => s.len(5000),
    };
    let al = if s.one_in(10) { s.idx(20_000) } else { s.len(700) };
    let aad = s.blob(al);
    let pt = s.blob(n);
    let align = s.idx(64);
    let mut buf = vec![0u8; n + 64];
    let a = Aead::new(kind, &key);
    buf[align..align + n].copy_from_slice(&pt);
    let tag = a.seal(&nonce, &aad, &mut buf[align..align + n]);
    s.emit(&buf);
    s.emit(&tag);
    // opened as it is, or altered somewhere
    let mut t = tag.to_vec();
    let mut aad2 = aad.clone();
    match s.idx(5) {
        0 => {}
        1 => {
            let i = s.idx(16);
            t[i] ^= 1 << s.idx(8);
        }
        2 if n > 0 => {
            let i = align + s.idx(n);
            buf[i] ^= 1 << s.idx(8);
        }
        3 if al > 0 => {
            let i = s.idx(al);
            aad2[i] ^= 1 << s.idx(8);
        }
        _ => {
            let k = s.idx(17);
            t.truncate(k);
        }
    }
    let ok = a.open(&nonce, &aad2, &mut buf[align..align + n], &t);
    s.emit_ok(ok);
    s.emit(&buf);
    s.nontrivial();
    s.label(if ok { "opened" } else { "refused" });
    s.note(format!("aead {kind} pt {n} aad {al} align {align} -> {ok}"));
    Ok(())
}
/// everything that draws randomness, on the same random bytes
pub fn generating(s: &mut Src) -> R {
    use super::c20::{op, NAMES, N};
    let which = if s.one_in(80) { N - 1 } else { s.idx(N - 1) };
    if which == 22 {
        // bound to a ticketer made elsewhere
        return Ok(());
    }
    let n = s.len(400);
    let msg = s.bytes(n);
    rngshim::prng(&[], s.u64());
    let r = no_panic(|| op(which, &msg));
    rngshim::reset();
    match r {
        Ok(Some(o)) => {
            s.emit(&o);
            s.note(format!("{} -> {} bytes", NAMES[which], o.len()));
        }
        Ok(None) => s.emit_ok(false),
        Err(p) => return fail("panic", format!("{} panicked: {p}", NAMES[which])),
    }
    s.nontrivial();
    Ok(())
}
fn alter(s: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    match s.idx(6) {
        0 | 1 => {}
        2 | 3 => {
            let i = s.idx(b.len());
            b[i] ^= 1 << s.idx(8);
        }
        4 => {
            b.pop();
        }
        _ => b.push(0),
    }
}
pub fn signatures(s: &mut Src) -> R {
    let n = s.len(600);
    let m = s.blob(n);
    let mut m2 = m.clone();
    rngshim::prng(&[], s.u64());
    let k = s.idx(3);
    let mut ok = false;
    match k {
        0 => {
            let ci = s.idx(2);
            let c = curve(ci);
            let d = scalar(s, c);
            let h = s.idx(3);
            let asn1 = s.bool();
            if let Some(sk) = SK::new(ci, &d) {
                let q = sk.public();
                s.emit(&q);
                let mut b = [0u8; 128];
                let parts = s.partition(n);
                let mp = ecdsautil::pieces(&m, &parts);
                let r = if asn1 { sk.sign_asn1(h, &mp, &mut b) } else { sk.sign(h, &mp, &mut b) };
                let mut sig = r.map(|x| x.to_vec()).unwrap_or_default();
                s.emit(&sig);
                alter(s, &mut sig);
                if s.one_in(4) {
                    alter(s, &mut m2);
                }
                if let Some(vk) = VK::new(ci, &q) {
                    ok = if asn1 { vk.verify_asn1(h, &[&m2], &sig) } else { vk.verify(h, &[&m2], &sig) };
                }
            }
        }
        1 => {
            let Ok(sk) = Ed25519SigningKey::generate() else {
                return fail("generate", "Ed25519 generation failed");
            };
            let mut sig = sk.sign(&m).to_vec();
            s.emit(&sig);
            let pk = sk.public_key().as_bytes();
            s.emit(&pk);
            alter(s, &mut sig);
            if s.one_in(4) {
                alter(s, &mut m2);
            }
            if let Ok(vk) = Ed25519VerifyingKey::from_bytes(&pk) {
                ok = vk.verify(&sig, &m2).is_ok();
            }
        }
        _ => {
            let Some(key) = rsautil::key(s, rsautil::Shape::Common) else {
                rngshim::reset();
                return Ok(());
            };
            let pss = s.bool();
            let h = s.idx(3);
            let mut b = vec![0u8; key.k()];
            if let Ok(sk) = graviola::signing::rsa::SigningKey::from_pkcs1_der(&key.private_der()) {
                let mut sig = rsautil::sign(&sk, pss, h, &m, &mut b).unwrap_or_default();
                s.emit(&sig);
                alter(s, &mut sig);
                if s.one_in(4) {
                    alter(s, &mut m2);
                }
                ok = rsautil::verify(&sk.public_key(), pss, h, &m2, &sig);
            }
        }
    }
    rngshim::reset();
    s.emit_ok(ok);
    s.label(if ok { "accepted" } else { "refused" });
    s.nontrivial();
    s.note(format!("signature kind {k}, message of {n} bytes -> {ok}"));
    Ok(())
}
pub fn kem(s: &mut Src) -> R {
    rngshim::prng(&[], s.u64());
    let dk = match mlkem768::DecapKey::generate() {
        Ok(k) => k,
        Err(e) => return fail("generate", format!("{e:?}")),
    };
    let mut ek = dk.encapsulation_key().as_bytes();
    s.emit(&ek);
    if s.one_in(4) {
        let i = s.idx(1184);
        ek[i] ^= 1 << s.idx(8);
    }
    let e = mlkem768::EncapKey::from_bytes(&ek);
    s.emit_ok(e.is_ok());
    if let Ok(e) = e {
        if let Ok((k, c)) = e.encaps() {
            s.emit(k.as_ref());
            let mut c = *c.as_ref();
            s.emit(&c);
            if s.one_in(3) {
                let i = s.idx(1088);
                c[i] ^= 1 << s.idx(8);
            }
            s.emit(dk.decaps(&mlkem768::Ciphertext::from(c)).as_ref());
        }
    }
    rngshim::reset();
    s.nontrivial();
    s.note("ML-KEM-768 generate, encapsulate, decapsulate");
    Ok(())
}
/// imports of damaged and undamaged keys decide alike and export alike
pub fn imports(s: &mut Src) -> R {
    use super::c18;
    let kind = s.idx(c18::KINDS.len());
    let (enc, _) = c18::generate(s, kind);
    let (b, desc) = if s.bool() { (enc, "intact".to_string()) } else { c18::mutate(s, &enc) };
    let mut n = 0u64;
    for i in 0..8 {
        let got = import(i, &b);
        s.emit_ok(got.is_some());
        if let Some(g) = got {
            s.emit(&g);
            n += 1;
        }
    }
    s.nontrivial();
    s.label(if n > 0 { "accepted" } else { "refused" });
    s.note(format!("{desc}: accepted by {n} importers"));
    Ok(())
}
fn import(i: usize, b: &[u8]) -> Option<Vec<u8>> {
    use graviola::signing::ecdsa::{SigningKey, VerifyingKey, P256, P384};
    use graviola::signing::rsa;
    let mut o = vec![0u8; 8192];
    match i {
        0 => SigningKey::<P256>::from_pkcs8_der(b).ok()?.to_sec1_der(&mut o).ok().map(|x| x.to_vec()),
        1 => SigningKey::<P384>::from_sec1_der(b).ok()?.to_pkcs8_der(&mut o).ok().map(|x| x.to_vec()),
        2 => rsa::SigningKey::from_pkcs8_der(b).ok()?.to_pkcs1_der(&mut o).ok().map(|x| x.to_vec()),
        3 => rsa::SigningKey::from_pkcs1_der(b).ok()?.to_pkcs8_der(&mut o).ok().map(|x| x.to_vec()),
        4 => rsa::VerifyingKey::from_pkcs1_der(b).ok()?.to_spki_der(&mut o).ok().map(|x| x.to_vec()),
        5 => Ed25519SigningKey::from_pkcs8_der(b).ok()?.to_pkcs8_der(&mut o).ok().map(|x| x.to_vec()),
        6 => Ed25519VerifyingKey::from_spki_der(b).ok()?.to_spki_der(&mut o).ok().map(|x| x.to_vec()),
        _ => VerifyingKey::<P256>::from_x962_uncompressed(b).ok().map(|_| vec![1]),
    }
}
/// TLS records of every suite
pub fn records(s: &mut Src) -> R {
    let suites = rustls_graviola::suites::ALL_CIPHER_SUITES;
    let suites: Vec<_> = suites.iter().filter(|s| matches!(s, SupportedCipherSuite::Tls13(_))).collect();
    let suite = suites[s.idx(suites.len())];
    let SupportedCipherSuite::Tls13(t) = suite else {
        return Ok(());
    };
    let key = s.bytes(t.aead_alg.key_len());
    let iv: [u8; 12] = s.arr();
    let n = s.len(16_384);
    let pt = s.blob(n);
    let seq = s.u64() >> 1;
    let k = || -> AeadKey { super::tlsutil::key(&key, t.aead_alg.key_len()) };
    let mut e = t.aead_alg.encrypter(k(), Iv::from(iv));
    let mut d = t.aead_alg.decrypter(k(), Iv::from(iv));
    let m = OutboundPlainMessage { typ: ContentType::ApplicationData, version: ProtocolVersion::TLSv1_2, payload: pt.as_slice().into() };
    let Ok(o) = e.encrypt(m, seq) else {
        return fail("encrypt", format!("{:?}: record of {n} bytes not sealed", suite.suite()));
    };
    let mut body = o.encode()[5..].to_vec();
    s.emit(&body);
    if s.bool() {
        alter(s, &mut body);
    }
    let r = d.decrypt(InboundOpaqueMessage::new(ContentType::ApplicationData, ProtocolVersion::TLSv1_2, &mut body), seq);
    s.emit_ok(r.is_ok());
    if let Ok(p) = r {
        s.emit(p.payload);
    }
    s.nontrivial();
    s.note(format!("{:?} record of {n} bytes", suite.suite()));
    Ok(())
}
/// lengths at which each byte of the block counters rolls over
pub fn long(s: &mut Src) -> R {
    let base = [1usize << 12, 1 << 16, 1 << 20][(s.idx % 3) as usize];
    let n = base + s.idx(700);
    let m = s.blob(n);
    let key: [u8; 32] = s.arr();
    let nonce = s.bytes(12);
    for kind in 0..2 {
        let a = Aead::new(kind, &key);
        let mut b = m.clone();
        let t = a.seal(&nonce, &m[..n % 999], &mut b);
        s.emit(&b);
        s.emit(&t);
        s.emit_ok(a.open(&nonce, &m[..n % 999], &mut b, &t));
        s.emit(&b);
    }
    s.emit(Sha256::hash(&m).as_ref());
    s.emit(Sha512::hash(&m).as_ref());
    s.nontrivial();
    s.note(format!("{n} bytes"));
    Ok(())
}
/// numbers for the public-key code that are larger than usual
pub fn rsa_sizes(s: &mut Src) -> R {
    let Some(key) = rsautil::key(s, rsautil::Shape::Any) else {
        return Ok(());
    };
    let n = key.n.clone();
    let k = key.k();
    let sig = match s.idx(3) {
        0 => s.bytes(k),
        1 => super::rsautil::ui(&(&n - BigUint::from(s.u64()))),
        _ => {
            let m = b"message";
            let em = rsautil::emsa_pkcs1(k, 0, m);
            let v = key.private(&BigUint::from_bytes_be(&em));
            crate::refs::ec::be(&v, k)
        }
    };
    match graviola::signing::rsa::VerifyingKey::from_pkcs1_der(&key.public_der()) {
        Ok(vk) => {
            let ok = rsautil::verify(&vk, false, 0, b"message", &sig);
            s.emit_ok(ok);
            s.label(if ok { "accepted" } else { "refused" });
        }
        Err(_) => s.emit_ok(false),
    }
    s.nontrivial();
    s.note(format!("RSA modulus of {} bits", n.bits()));
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "the case ran an operation of the library to its end in every CPU configuration and what it gave was compared byte for byte",
        assumptions: &[
            "CPU features are denied through the library's own debug-build switch; the code still runs on the host CPU",
            "the aarch64 code cannot run here",
        ],
        subs: vec![
            Sub::new("hashes", hashes, 20_000, 600_000).cross(),
            Sub::new("sha3", sha3, 10_000, 200_000).cross(),
            Sub::new("aead", aead, 25_000, 800_000).cross(),
            Sub::new("generating", generating, 2000, 100_000).cross(),
            Sub::new("signatures", signatures, 3000, 150_000).cross(),
            Sub::new("kem", kem, 1500, 60_000).cross(),
            Sub::new("imports", imports, 3000, 150_000).cross(),
            Sub::new("records", records, 8000, 200_000).cross(),
            Sub::new("long", long, 24, 300).cross(),
            Sub::new("rsa-sizes", rsa_sizes, 800, 40_000).cross(),
        ],
    }
}
