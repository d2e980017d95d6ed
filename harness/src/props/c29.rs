//! C29: what is printed about keys and secrets does not contain them.
use super::c17::ec_sec1;
use super::ecutil::{curve, scalar};
use super::rsautil::{self as ru, Shape};
use super::tlsid::Id;
use crate::engine::*;
use crate::rngshim::{self, After};
use graviola::aead::{AesGcm, ChaCha20Poly1305, XChaCha20Poly1305};
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha3, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, p256, p384, x25519};
use graviola::signing::{ecdsa, eddsa::Ed25519SigningKey, rsa};
use num_bigint::BigUint;
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer, PrivateSec1KeyDer};
use rustls::SignatureScheme as S;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::sync::Arc;

// ---------------------------------------------------------------- printing whatever can be printed

struct W<'a, T: ?Sized>(&'a T);
trait ByDebug {
    fn debug(&self) -> Option<String>;
}
trait NoDebug {
    fn debug(&self) -> Option<String>;
}
impl<T: Debug + ?Sized> ByDebug for W<'_, T> {
    fn debug(&self) -> Option<String> {
        Some(format!("{:?}\n{:#?}\n{:x?}\n{:X?}", self.0, self.0, self.0, self.0))
    }
}
impl<T: ?Sized> NoDebug for &W<'_, T> {
    fn debug(&self) -> Option<String> {
        None
    }
}
trait ByDisplay {
    fn display(&self) -> Option<String>;
}
trait NoDisplay {
    fn display(&self) -> Option<String>;
}
impl<T: Display + ?Sized> ByDisplay for W<'_, T> {
    fn display(&self) -> Option<String> {
        Some(format!("{}", self.0))
    }
}
impl<T: ?Sized> NoDisplay for &W<'_, T> {
    fn display(&self) -> Option<String> {
        None
    }
}
macro_rules! printed {
    ($x:expr) => {{
        let w = W($x);
        #[allow(unused_imports)]
        let t: Vec<String> = [(&w).debug(), (&w).display()].into_iter().flatten().collect();
        if t.is_empty() {
            None
        } else {
            Some(t.join("\n"))
        }
    }};
}

// ---------------------------------------------------------------- searching text for bytes

const WINDOW: usize = 6;
struct Needles(HashSet<[u8; WINDOW]>);
impl Needles {
    fn of(secrets: &[&[u8]]) -> Needles {
        let mut h = HashSet::new();
        for s in secrets {
            for w in s.windows(WINDOW) {
                // runs of one value say nothing
                if w.iter().collect::<HashSet<_>>().len() < 4 {
                    continue;
                }
                let mut a: [u8; WINDOW] = w.try_into().unwrap();
                h.insert(a);
                a.reverse();
                h.insert(a);
            }
        }
        Needles(h)
    }
    /// what is public anyway
    fn without(mut self, public: &[u8]) -> Needles {
        for w in public.windows(WINDOW) {
            let mut a: [u8; WINDOW] = w.try_into().unwrap();
            self.0.remove(&a);
            a.reverse();
            self.0.remove(&a);
        }
        self
    }
    fn within(&self, bytes: &[u8]) -> Option<usize> {
        bytes.windows(WINDOW).position(|w| self.0.contains(w))
    }
    /// how the secret shows in the text
    fn shown(&self, text: &str) -> Option<String> {
        let b = text.as_bytes();
        if self.within(b).is_some() {
            return Some("as raw bytes".into());
        }
        // escaped strings
        let mut un = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' && i + 1 < b.len() {
                match b[i + 1] {
                    b'x' if i + 3 < b.len() => {
                        if let Ok(v) = u8::from_str_radix(&text[i + 2..i + 4], 16) {
                            un.push(v);
                        }
                        i += 4;
                        continue;
                    }
                    b'n' => un.push(10),
                    b'r' => un.push(13),
                    b't' => un.push(9),
                    b'0' => un.push(0),
                    c => un.push(c),
                }
                i += 2;
            } else {
                un.push(b[i]);
                i += 1;
            }
        }
        if self.within(&un).is_some() {
            return Some("as an escaped string".into());
        }
        // hex strings, also with separators
        for keep in ["", ":", " ", "-", "_", ", ", "0x"] {
            let t = if keep.is_empty() { text.to_string() } else { text.replace(keep, "") };
            for run in t.split(|c: char| !c.is_ascii_hexdigit()) {
                for at in 0..2 {
                    if run.len() >= at + 2 * WINDOW {
                        let n = (run.len() - at) / 2;
                        if self.within(&unhex(&run[at..at + 2 * n])).is_some() {
                            return Some("in hex".into());
                        }
                    }
                }
            }
        }
        // base64
        for run in text.split(|c: char| !(c.is_ascii_alphanumeric() || "+/-_".contains(c))) {
            for at in 0..4 {
                if run.len() >= at + 8 && self.within(&unbase64(&run.as_bytes()[at..])).is_some() {
                    return Some("in base64".into());
                }
            }
        }
        // numbers, of any width, in either order
        for radix in [10, 16] {
            let nums = numbers(text, radix);
            for (_, big) in &nums {
                if self.within(&big.to_bytes_be()).is_some() {
                    return Some(format!("as a number in base {radix}"));
                }
            }
            for w in [1usize, 2, 4, 8, 16] {
                let (mut le, mut be) = (vec![], vec![]);
                let m = BigUint::from(1u8) << (8 * w);
                for (neg, v) in &nums {
                    let v = if *v >= m {
                        BigUint::default()
                    } else if *neg {
                        (&m - v) % &m
                    } else {
                        v.clone()
                    };
                    let mut x = v.to_bytes_le();
                    x.resize(w, 0);
                    le.extend_from_slice(&x);
                    x.reverse();
                    be.extend_from_slice(&x);
                }
                if self.within(&le).is_some() || self.within(&be).is_some() {
                    return Some(format!("as {}-bit numbers in base {radix}", 8 * w));
                }
            }
        }
        None
    }
}
fn numbers(text: &str, radix: u32) -> Vec<(bool, BigUint)> {
    let mut out = vec![];
    let mut prev = ' ';
    let digit = |c: char| c.is_digit(radix);
    let mut cur = String::new();
    let mut neg = false;
    for c in text.replace("0x", " ").chars().chain([' ']) {
        if digit(c) && (!cur.is_empty() || !prev.is_alphanumeric() && prev != '_') {
            if cur.is_empty() {
                neg = prev == '-';
            }
            cur.push(c);
        } else {
            if !cur.is_empty() && !c.is_alphabetic() {
                out.push((neg, BigUint::parse_bytes(cur.as_bytes(), radix).unwrap()));
            }
            cur.clear();
        }
        prev = c;
    }
    out
}
fn unbase64(b: &[u8]) -> Vec<u8> {
    let (mut out, mut acc, mut n) = (vec![], 0u32, 0);
    for &c in b {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' | b'-' => 62,
            _ => 63,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    out
}

// ---------------------------------------------------------------- values

/// the search must find what is really there
fn search(s: &mut Src) -> R {
    let sec = s.bytes(32);
    let n = Needles::of(&[&sec]);
    let a: [u8; 32] = sec[..].try_into().unwrap();
    let w64: Vec<u64> = sec.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let be64: Vec<i64> = sec.chunks(8).rev().map(|c| i64::from_be_bytes(c.try_into().unwrap())).collect();
    let w32: Vec<u32> = sec.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Leaky<T> {
        lifetime: u32,
        key: T,
    }
    let t = match s.idx % 11 {
        0 => format!("{:?}", Leaky { lifetime: 1, key: a }),
        1 => format!("{:#?}", Leaky { lifetime: 1, key: &w64 }),
        2 => format!("{:?}", Leaky { lifetime: 1, key: &be64 }),
        3 => format!("{:x?}", Leaky { lifetime: 7, key: &w32 }),
        4 => format!("{:#x?}", Leaky { lifetime: 7, key: &a }),
        5 => format!("key={}", hex(&sec)),
        6 => format!("key={:X?}", a),
        7 => format!("{}", BigUint::from_bytes_be(&sec)),
        8 => format!("{:?}", sec.iter().map(|b| format!("\\x{b:02x}")).collect::<String>()).replace("\\\\", "\\"),
        9 => format!("{:x}", BigUint::from_bytes_le(&sec)),
        _ => sec.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(":"),
    };
    ensure!(n.shown(&t).is_some(), "harness/search", "the search misses {t}");
    let other = s.bytes(32);
    let m = Needles::of(&[&other]);
    ensure!(m.shown(&t).is_none(), "harness/search-false", "the search finds {} in {t}", hex(&other));
    s.label("search");
    s.nontrivial();
    Ok(())
}

fn oops(key: &str, msg: String) -> Fail {
    Fail { key: format!("harness/{key}"), msg }
}
fn hidden(s: &mut Src, what: &'static str, text: Option<String>, secrets: &[&[u8]]) -> R {
    hidden_from(s, what, text, Needles::of(secrets))
}
fn hidden_from(s: &mut Src, what: &'static str, text: Option<String>, secrets: Needles) -> R {
    let Some(text) = text else {
        s.label("not printable");
        return Ok(());
    };
    s.label(what);
    s.nontrivial();
    if let Some(how) = secrets.shown(&text) {
        return fail(&format!("{what}/shown"), format!("printing {what} shows its secret {how}: {}", &text[..text.len().min(300)]));
    }
    Ok(())
}
/// nothing but the secrets differs between `a` and `b`
fn alike(what: &'static str, a: &Option<String>, b: &Option<String>) -> R {
    ensure!(a == b, format!("{what}/differs"), "printing {what} depends on its secret: {a:?} and {b:?}");
    Ok(())
}

/// unless the public part is printed, two private keys of one type must print the same
fn blind(what: &'static str, a: (&Option<String>, &[u8]), b: (&Option<String>, &[u8])) -> R {
    for (t, public) in [a, b] {
        if t.as_ref().is_some_and(|t| Needles::of(&[public]).shown(t).is_some()) {
            return Ok(());
        }
    }
    alike(what, a.0, b.0)
}

fn symmetric(s: &mut Src) -> R {
    let a: [u8; 32] = s.arr();
    let b: [u8; 32] = s.arr();
    let n = s.bytes(24);
    macro_rules! pair {
        ($what:expr, $k:ident => $mk:expr) => {{
            let pa = {
                let $k = &a;
                printed!(&$mk)
            };
            let pb = {
                let $k = &b;
                printed!(&$mk)
            };
            alike($what, &pa, &pb)?;
            hidden(s, $what, pa, &[&a])
        }};
    }
    match s.idx % 17 {
        0 => pair!("AES-128-GCM key", k => AesGcm::new(&k[..16])),
        1 => pair!("AES-256-GCM key", k => AesGcm::new(k)),
        2 => pair!("ChaCha20-Poly1305 key", k => ChaCha20Poly1305::new(*k)),
        3 => pair!("XChaCha20-Poly1305 key", k => XChaCha20Poly1305::new(*k)),
        4 => pair!("HMAC-SHA256 key", k => Hmac::<Sha256>::new(k)),
        5 => pair!("HMAC-SHA384 key", k => Hmac::<Sha384>::new(k)),
        6 => pair!("HMAC-SHA512 key", k => Hmac::<Sha512>::new(k)),
        7 => pair!("X25519 static key", k => x25519::StaticPrivateKey::from_array(k)),
        8 => pair!("X25519 shared secret", k => x25519::SharedSecret(*k)),
        9 => pair!("P-256 shared secret", k => p256::SharedSecret(*k)),
        10 => pair!("P-384 shared secret", k => p384::SharedSecret([&k[..], &k[..16]].concat().try_into().unwrap())),
        11 => pair!("ML-KEM message", k => mlkem768::Message(*k)),
        12 => {
            let ek = mlkem768::DecapKey::keygen_internal(&s.arr()).encapsulation_key();
            let raw = ek.as_bytes();
            let mut t = vec![];
            let mut sec = vec![];
            for m in [a, b] {
                let (ss, _) = mlkem768::EncapKey::from_bytes(&raw).unwrap().encaps_internal(mlkem768::Message(m));
                sec.push(*ss.as_ref());
                t.push(printed!(&ss));
            }
            alike("ML-KEM shared secret", &t[0], &t[1])?;
            hidden(s, "ML-KEM shared secret", t.remove(0), &[&sec[0]])
        }
        13 => {
            let mut v = vec![];
            for x in [&a, &b] {
                rngshim::script(x, After::Fail);
                let k = x25519::PrivateKey::new_random();
                rngshim::reset();
                let k = k.map_err(|e| oops("X25519 ephemeral", format!("{e:?}")))?;
                v.push((printed!(&k), k.public_key().as_bytes()));
            }
            blind("X25519 ephemeral key", (&v[0].0, &v[0].1), (&v[1].0, &v[1].1))?;
            hidden(s, "X25519 ephemeral key", v.remove(0).0, &[&a])
        }
        14 => {
            let provider = rustls_graviola::default_provider();
            let mut t = vec![];
            for k in [&a, &b] {
                let mut x = String::new();
                for cs in &provider.cipher_suites {
                    if let rustls::SupportedCipherSuite::Tls13(cs) = cs {
                        let key = super::tlsutil::key(k, cs.aead_alg.key_len());
                        x += &format!("{:?}", printed!(&cs.aead_alg.encrypter(key, rustls::crypto::cipher::Iv::new(n[..12].try_into().unwrap()))));
                        let key = super::tlsutil::key(k, cs.aead_alg.key_len());
                        x += &format!("{:?}", printed!(&cs.aead_alg.decrypter(key, rustls::crypto::cipher::Iv::new(n[..12].try_into().unwrap()))));
                        x += &format!("{:?}", printed!(&cs.hkdf_provider.extract_from_secret(None, &k[..])));
                    }
                }
                t.push(Some(x));
            }
            alike("TLS record keys", &t[0], &t[1])?;
            hidden(s, "TLS record keys", t.remove(0), &[&a])
        }
        15 => {
            rngshim::prng(&[], s.u64());
            rngshim::keep();
            let t = rustls_graviola::Ticketer::new();
            let used = rngshim::history().concat();
            let t = t.map_err(|e| oops("ticketer", format!("{e:?}")));
            let ticket = t.as_ref().ok().and_then(|t| t.encrypt(&a)).unwrap_or_default();
            rngshim::reset();
            let t = t?;
            let text = format!("{t:?}\n{t:#?}\n{t:x?}");
            // tickets carry the name of their key
            hidden_from(s, "ticketer", Some(text), Needles::of(&[&used, &a]).without(&ticket))
        }
        _ => {
            let mut k = x25519::StaticPrivateKey::from_array(&a);
            let peer = x25519::StaticPrivateKey::from_array(&b).public_key();
            let ss = k.diffie_hellman(&peer).map_err(|e| oops("agree", format!("{e:?}")))?;
            let t = format!("{:?} {:?} {:?}", printed!(&k), printed!(&ss), printed!(&peer));
            let r = hidden(s, "X25519 exchange", Some(t), &[&a, &ss.0]);
            k = x25519::StaticPrivateKey::from_array(&b);
            let _ = k.as_bytes();
            r
        }
    }
}

fn asymmetric(s: &mut Src) -> R {
    match s.idx % 10 {
        i @ 0..=3 => {
            let ci = i as usize % 2;
            let l = [32, 48][ci];
            let d = loop {
                let b = s.bytes(l);
                let v = BigUint::from_bytes_be(&b);
                if v < curve(ci).n && v.bits() > 8 {
                    break b;
                }
            };
            // another, often shorter
            let mut d2 = s.bytes(l);
            let cut = if s.bool() { 1 } else { 1 + s.idx(l - 2) };
            d2[..cut].fill(0);
            d2[l - 1] |= 1;
            let public = |d: &[u8]| curve(ci).point(&curve(ci).mul_g(&BigUint::from_bytes_be(d)))[1..].to_vec();
            let (q, q2) = (public(&d), public(&d2));
            macro_rules! go {
                ($m:ident, $c:ty, $a:expr, $b:expr, $e:expr) => {{
                    if i < 2 {
                        let mut v = vec![];
                        for d in [&d, &d2] {
                            let k = $m::StaticPrivateKey::from_bytes(d).map_err(|e| oops($a, format!("{e:?}")))?;
                            v.push(printed!(&k));
                        }
                        blind($a, (&v[0], &q), (&v[1], &q2))?;
                        hidden(s, $a, v.remove(0), &[&d])?;
                        v.clear();
                        for d in [&d, &d2] {
                            rngshim::script(d, After::Fail);
                            let k = $m::PrivateKey::new_random();
                            rngshim::reset();
                            let k = k.map_err(|e| oops($e, format!("{e:?}")))?;
                            v.push(printed!(&k));
                        }
                        blind($e, (&v[0], &q), (&v[1], &q2))?;
                        hidden(s, $e, v.remove(0), &[&d])
                    } else {
                        let mut v = vec![];
                        for d in [&d, &d2] {
                            let k = ecdsa::SigningKey::<$c>::from_sec1_der(&ec_sec1(ci, d, None, true)).map_err(|e| oops($b, format!("{e:?}")))?;
                            v.push(printed!(&k));
                        }
                        blind($b, (&v[0], &q), (&v[1], &q2))?;
                        hidden(s, $b, v.remove(0), &[&d])
                    }
                }};
            }
            if ci == 0 {
                go!(p256, ecdsa::P256, "P-256 static key", "ECDSA P-256 key", "P-256 ephemeral key")
            } else {
                go!(p384, ecdsa::P384, "P-384 static key", "ECDSA P-384 key", "P-384 ephemeral key")
            }
        }
        4 => {
            let seed: [u8; 32] = s.arr();
            let k = Ed25519SigningKey::from_bytes(&seed).unwrap();
            let h = super::ecdsautil::hash(2, &seed);
            let mut clamped = h[..32].to_vec();
            clamped[0] &= 248;
            clamped[31] = clamped[31] & 127 | 64;
            let k2 = Ed25519SigningKey::from_bytes(&s.arr::<32>()).unwrap();
            let v = [printed!(&k), printed!(&k2)];
            blind("Ed25519 key", (&v[0], &k.public_key().as_bytes()), (&v[1], &k2.public_key().as_bytes()))?;
            hidden(s, "Ed25519 key", printed!(&k), &[&seed, &h, &clamped])
        }
        5 => {
            let seed: [u8; 64] = s.arr();
            let k = mlkem768::DecapKey::keygen_internal(&seed);
            let k2 = mlkem768::DecapKey::keygen_internal(&s.arr());
            let v = [printed!(&k), printed!(&k2)];
            blind("ML-KEM decapsulation key", (&v[0], &k.encapsulation_key().as_bytes()), (&v[1], &k2.encapsulation_key().as_bytes()))?;
            hidden(s, "ML-KEM decapsulation key", printed!(&k), &[&seed])
        }
        6 => {
            // only the implicit-rejection secret differs
            let mut seed: [u8; 64] = s.arr();
            let a = printed!(&mlkem768::DecapKey::keygen_internal(&seed));
            seed[32..].copy_from_slice(&s.bytes(32));
            let b = printed!(&mlkem768::DecapKey::keygen_internal(&seed));
            alike("ML-KEM decapsulation key", &a, &b)?;
            hidden(s, "ML-KEM decapsulation key", b, &[&seed])
        }
        _ => {
            let k = small_rsa(s);
            let der = k.private_der();
            let key = rsa::SigningKey::from_pkcs1_der(&der).map_err(|e| oops("rsa", format!("{e:?}")))?;
            let sec = rsa_secrets(&k);
            let refs: Vec<&[u8]> = sec.iter().map(|x| &x[..]).collect();
            for _ in 0..4 {
                let k2 = small_rsa(s);
                if k2.n.bits() == k.n.bits() && k2.e == k.e && k2.n != k.n {
                    let key2 = rsa::SigningKey::from_pkcs1_der(&k2.private_der()).map_err(|e| oops("rsa", format!("{e:?}")))?;
                    let v = [printed!(&key), printed!(&key2)];
                    blind("RSA key", (&v[0], &k.n.to_bytes_be()), (&v[1], &k2.n.to_bytes_be()))?;
                    break;
                }
            }
            hidden(s, "RSA key", printed!(&key), &refs)
        }
    }
}
fn small_rsa(s: &mut Src) -> ru::Key {
    loop {
        if let Some(k) = ru::key(s, Shape::Common) {
            return k;
        }
    }
}
fn rsa_secrets(k: &ru::Key) -> Vec<Vec<u8>> {
    [&k.p, &k.q, &k.d, &k.dp, &k.dq, &k.qi].iter().map(|v| v.to_bytes_be()).collect()
}
/// a private key, and its secret numbers
fn identity(s: &mut Src, kind: usize) -> (Id, Vec<Vec<u8>>) {
    match kind {
        0 => {
            let k = small_rsa(s);
            let sec = rsa_secrets(&k);
            (Id::rsa(k), sec)
        }
        1 | 2 => {
            let d = scalar(s, curve(kind - 1));
            let b = d.to_bytes_be();
            (Id::ec(kind, d), vec![b])
        }
        _ => {
            let seed: [u8; 32] = s.arr();
            let h = super::ecdsautil::hash(2, &seed);
            (Id::ed(seed), vec![seed.to_vec(), h])
        }
    }
}

#[derive(Debug)]
struct Resolver(#[allow(dead_code)] Arc<rustls::sign::CertifiedKey>);
impl rustls::server::ResolvesServerCert for Resolver {
    fn resolve(&self, _: rustls::server::ClientHello) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
}

fn signers(s: &mut Src) -> R {
    let kind = (s.idx % 4) as usize;
    let (id, sec) = identity(s, kind);
    let refs: Vec<&[u8]> = sec.iter().map(|x| &x[..]).collect();
    let provider = Arc::new(rustls_graviola::default_provider());
    let form = s.idx(2);
    let key = provider.key_provider.load_private_key(id.private(form)).map_err(|e| oops("load", format!("{e:?}")))?;
    let what = ["TLS RSA key", "TLS P-256 key", "TLS P-384 key", "TLS Ed25519 key"][kind];
    let show = |k: &Arc<dyn rustls::sign::SigningKey>| Some(format!("{k:?}\n{k:#?}\n{k:x?}"));
    if kind != 0 {
        let (id2, _) = identity(s, kind);
        let key2 = provider.key_provider.load_private_key(id2.private(form)).map_err(|e| oops("load", format!("{e:?}")))?;
        blind(what, (&show(&key), &id.public), (&show(&key2), &id2.public))?;
    }
    hidden(s, what, show(&key), &refs)?;
    for scheme in [
        S::RSA_PSS_SHA512,
        S::RSA_PSS_SHA384,
        S::RSA_PSS_SHA256,
        S::RSA_PKCS1_SHA512,
        S::RSA_PKCS1_SHA384,
        S::RSA_PKCS1_SHA256,
        S::ECDSA_NISTP256_SHA256,
        S::ECDSA_NISTP384_SHA384,
        S::ED25519,
    ] {
        if let Some(x) = key.choose_scheme(&[scheme]) {
            hidden(s, what, Some(format!("{x:?}\n{x:#?}\n{x:x?}")), &refs)?;
        }
    }
    let ck = Arc::new(rustls::sign::CertifiedKey::new(vec![], key));
    hidden(s, what, Some(format!("{ck:?}")), &refs)?;
    let mut c = rustls::ServerConfig::builder_with_provider(provider)
        .with_safe_default_protocol_versions()
        .map_err(|e| oops("config", format!("{e:?}")))?
        .with_no_client_auth()
        .with_cert_resolver(Arc::new(Resolver(ck)));
    c.ticketer = rustls_graviola::Ticketer::new().map_err(|e| oops("ticketer", format!("{e:?}")))?;
    hidden(s, what, Some(format!("{c:?}\n{c:#?}")), &refs)
}

// ---------------------------------------------------------------- errors

fn errors(s: &mut Src) -> R {
    let kind = (s.idx % 4) as usize;
    let (id, mut sec) = identity(s, kind);
    let form = s.idx(2);
    let der = id.private(form);
    let mut b = match &der {
        PrivateKeyDer::Pkcs8(x) => x.secret_pkcs8_der().to_vec(),
        PrivateKeyDer::Pkcs1(x) => x.secret_pkcs1_der().to_vec(),
        PrivateKeyDer::Sec1(x) => x.secret_sec1_der().to_vec(),
        _ => return Ok(()),
    };
    let orig = b.clone();
    match s.weighted(&[3, 2, 2, 2, 2]) {
        0 => {
            // structure lies in the first bytes mostly
            let i = if s.bool() { s.idx(b.len().min(40)) } else { s.idx(b.len()) };
            b[i] ^= 1 << s.idx(8);
        }
        1 => b.truncate(s.idx(b.len())),
        2 => b.extend_from_slice(&[0; 3][..1 + s.idx(3)]),
        3 => {
            let i = s.idx(b.len());
            b.remove(i);
        }
        _ => {
            let i = s.idx(b.len());
            let x = s.bytes(1 + (s.idx % 3) as usize);
            for v in x {
                b.insert(i, v);
            }
        }
    }
    if b == orig {
        return Ok(());
    }
    // secret: the numbers, also as they now are in the damaged form
    sec.push(if kind == 0 { b[b.len().min(300)..].to_vec() } else { sec[0].clone() });
    let refs: Vec<&[u8]> = sec.iter().map(|x| &x[..]).collect();
    let provider = rustls_graviola::default_provider();
    let as_form = if s.one_in(4) { s.idx(3) } else { match der {
            PrivateKeyDer::Pkcs8(_) => 0,
            PrivateKeyDer::Pkcs1(_) => 1,
            _ => 2,
        }
    };
    let mut text = String::new();
    let mut any = false;
    let k = match as_form {
        0 => PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(b.clone())),
        1 => PrivateKeyDer::Pkcs1(PrivatePkcs1KeyDer::from(b.clone())),
        _ => PrivateKeyDer::Sec1(PrivateSec1KeyDer::from(b.clone())),
    };
    if let Err(e) = provider.key_provider.load_private_key(k) {
        text += &format!("{e:?} {e}\n");
        any = true;
    }
    macro_rules! also {
        ($x:expr) => {
            if let Err(e) = $x {
                text += &format!("{e:?} {e} {e:#?}\n");
                any = true;
            }
        };
    }
    also!(rsa::SigningKey::from_pkcs1_der(&b));
    also!(rsa::SigningKey::from_pkcs8_der(&b));
    also!(ecdsa::SigningKey::<ecdsa::P256>::from_pkcs8_der(&b));
    also!(ecdsa::SigningKey::<ecdsa::P384>::from_pkcs8_der(&b));
    also!(ecdsa::SigningKey::<ecdsa::P256>::from_sec1_der(&b));
    also!(ecdsa::SigningKey::<ecdsa::P384>::from_sec1_der(&b));
    also!(Ed25519SigningKey::from_pkcs8_der(&b));
    if !any {
        return Ok(());
    }
    hidden(s, ["RSA errors", "P-256 errors", "P-384 errors", "Ed25519 errors"][kind], Some(text), &refs)
}

/// operations that go wrong, or are given room that is too small
fn outcomes(s: &mut Src) -> R {
    let key: [u8; 32] = s.arr();
    let n: [u8; 24] = s.arr();
    let msg = s.bytes(64);
    let mut text = String::new();
    let mut buf = msg.clone();
    let mut tag = [0u8; 16];
    let what;
    match s.idx % 6 {
        0 => {
            what = "AEAD outcome";
            let k = AesGcm::new(&key);
            k.encrypt(n[..12].try_into().unwrap(), &[], &mut buf, &mut tag);
            tag[s.idx(16)] ^= 1;
            text += &format!("{:?}", k.decrypt(n[..12].try_into().unwrap(), &[], &mut buf, &tag));
        }
        1 => {
            what = "AEAD outcome";
            let k = ChaCha20Poly1305::new(key);
            k.encrypt(n[..12].try_into().unwrap(), &[], &mut buf, &mut tag);
            tag[s.idx(16)] ^= 1;
            text += &format!("{:?}", k.decrypt(n[..12].try_into().unwrap(), &[], &mut buf, &tag));
        }
        2 => {
            what = "AEAD outcome";
            let k = XChaCha20Poly1305::new(key);
            k.encrypt(&n, &[], &mut buf, &mut tag);
            tag[s.idx(16)] ^= 1;
            text += &format!("{:?}", k.decrypt(&n, &[], &mut buf, &tag));
        }
        3 => {
            what = "HMAC outcome";
            let mut m = Hmac::<Sha256>::new(key);
            m.update(&msg);
            let mut t = m.clone().finish().as_ref().to_vec();
            tag.copy_from_slice(&t[..16]);
            t[s.idx(32)] ^= 1;
            text += &format!("{:?}", m.verify(&t));
        }
        4 => {
            what = "X25519 outcome";
            let k = x25519::StaticPrivateKey::from_array(&key);
            text += &format!("{:?}", k.diffie_hellman(&x25519::PublicKey::from_array(&[0; 32])).err());
            text += &format!("{:?}", x25519::StaticPrivateKey::try_from_slice(&key[..31]).err());
        }
        _ => {
            what = "import outcome";
            let big = [&[0xff; 16][..], &key].concat();
            text += &format!("{:?}", p256::StaticPrivateKey::from_bytes(&big).err());
            text += &format!("{:?}", p384::StaticPrivateKey::from_bytes(&[&big[..], &big].concat()).err());
            text += &format!("{:?}", Ed25519SigningKey::from_bytes(&key[..31]).err());
            let mut c = sha3::Sha3_256Context::new();
            c.update(&key);
            text += &format!("{:?}", printed!(&c));
        }
    }
    hidden(s, what, Some(text), &[&key, &msg, &tag])
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "Values holding random secrets are printed in every way their type allows ({:?}, {:#?}, {:x?}, Display), alone and inside rustls's configuration types, and errors from damaged keys likewise; the text is searched for any 6 consecutive bytes of the secret in hex, base64, escaped form or as numbers of 8-128 bits, and for types with nothing public compared between two secrets. Non-trivial: the type could be printed, or an error arose.",
        assumptions: &["a leak shows at least 6 consecutive bytes of the raw secret, or differs between two secrets of a type with no public part"],
        subs: vec![
            Sub::new("search", search, 66, 1100),
            Sub::new("symmetric", symmetric, 340, 6800),
            Sub::new("asymmetric", asymmetric, 160, 4000),
            Sub::new("signers", signers, 160, 4000),
            Sub::new("errors", errors, 1600, 60000),
            Sub::new("outcomes", outcomes, 240, 6000),
        ],
    }
}
