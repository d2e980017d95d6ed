//! C34: what was done before does not matter.
//!
//! A process performs a history of operations, on long-lived and new key objects, some failing, some many
//! times, some on other threads, on related keys and messages. Each operation must give what it gives as
//! the first thing done in a fresh process (a fork taken before the library was used).
use super::aead_util::Aead;
use super::ecdsautil::{der_sig, SK, VK};
use super::ecutil::{curve, scalar, Public, Static};
use super::{c17, c20, rsautil as ru};
use crate::engine::*;
use crate::refs::{der, mlkem};
use crate::rngshim;
use graviola::hashing::hmac::Hmac;
use graviola::hashing::{sha2, sha3, Hash, HashContext, Sha256, Sha384, Sha512};
use graviola::key_agreement::{mlkem768, x25519};
use graviola::signing::eddsa::{Ed25519SigningKey, Ed25519VerifyingKey};
use graviola::signing::rsa;
use num_bigint::BigUint;
use std::collections::HashMap;
use std::process::Stdio;
use std::sync::OnceLock;

type Parts = Vec<Vec<u8>>;

pub const KINDS: [&str; 22] = [
    "AES-128-GCM", "AES-256-GCM", "ChaCha20-Poly1305", "XChaCha20-Poly1305", "hash", "HMAC", "X25519", "P-256 agreement", "P-384 agreement", "P-256 signing",
    "P-384 signing", "P-256 verification", "P-384 verification", "RSA signing", "RSA verification", "Ed25519 signing", "Ed25519 verification", "ML-KEM decapsulation",
    "ML-KEM encapsulation", "random draws", "TLS key exchange", "import",
];
pub enum Obj {
    Aead(usize, Aead),
    Sha(sha2::Sha256Context, <Sha384 as Hash>::Context, sha2::Sha512Context),
    Hmac(Hmac<Sha256>, Hmac<Sha384>, Hmac<Sha512>),
    X(x25519::StaticPrivateKey),
    Ec(usize, Static),
    Sk(SK),
    Vk(VK),
    RsaSk(rsa::SigningKey),
    RsaVk(rsa::VerifyingKey),
    EdSk(Ed25519SigningKey),
    EdVk(Ed25519VerifyingKey),
    Dk(mlkem768::DecapKey),
    Ek(mlkem768::EncapKey),
    Raw(usize, Vec<u8>),
}
pub fn make(kind: usize, key: &[u8]) -> Option<Obj> {
    Some(match kind {
        0..=3 => Obj::Aead(kind, Aead::new(kind, key)),
        4 => {
            let (mut a, mut b, mut c) = (sha2::Sha256Context::new(), Sha384::new(), sha2::Sha512Context::new());
            a.update(key);
            b.update(key);
            c.update(key);
            Obj::Sha(a, b, c)
        }
        5 => Obj::Hmac(Hmac::new(key), Hmac::new(key), Hmac::new(key)),
        6 => Obj::X(x25519::StaticPrivateKey::try_from_slice(key).ok()?),
        7 | 8 => Obj::Ec(kind - 7, Static::from_bytes(kind - 7, key)?),
        9 | 10 => Obj::Sk(SK::from_sec1(kind - 9, key).ok()?),
        11 | 12 => Obj::Vk(VK::new(kind - 11, key)?),
        13 => Obj::RsaSk(rsa::SigningKey::from_pkcs1_der(key).ok()?),
        14 => Obj::RsaVk(rsa::VerifyingKey::from_pkcs1_der(key).ok()?),
        15 => Obj::EdSk(Ed25519SigningKey::from_bytes(key).ok()?),
        16 => Obj::EdVk(Ed25519VerifyingKey::from_bytes(key).ok()?),
        17 => Obj::Dk(mlkem768::DecapKey::keygen_internal(key.try_into().ok()?)),
        18 => Obj::Ek(mlkem768::EncapKey::from_bytes(key.try_into().ok()?).ok()?),
        _ => Obj::Raw(kind, key.to_vec()),
    })
}
fn exports(o: &mut Vec<u8>, r: Result<Vec<u8>, graviola::Error>) {
    match r {
        Ok(b) => o.extend(b),
        Err(e) => o.extend(format!("{e:?}").bytes()),
    }
}
pub fn apply(o: &Obj, a: &Parts) -> Vec<u8> {
    let mut out = vec![];
    let nr = |i: usize| a[i][0] as usize;
    match o {
        Obj::Aead(_, k) => {
            let mut b = a[3].clone();
            if nr(0) < 2 {
                let mut t = k.seal(&a[1], &a[2], &mut b);
                out.extend(&b);
                out.extend(t);
                t[0] ^= nr(0) as u8;
                out.push(k.open(&a[1], &a[2], &mut b, &t) as u8);
            } else {
                out.push(k.open(&a[1], &a[2], &mut b, &a[4]) as u8);
            }
            out.extend(b);
        }
        Obj::Sha(x, y, z) => {
            macro_rules! h {
                ($x:expr) => {{
                    let mut h = $x;
                    h.update(&a[1]);
                    out.extend(h.finish().as_ref());
                }};
            }
            match nr(0) {
                0 => h!(x.clone()),
                1 => h!(y.clone()),
                2 => h!(z.clone()),
                3 => h!(sha3::Sha3_256Context::new()),
                4 => h!(sha3::Sha3_512Context::new()),
                5 => {
                    out = vec![0; 300];
                    sha3::Shake128::new(&[&a[1]]).read(&mut out);
                }
                _ => {
                    out = vec![0; 300];
                    sha3::Shake256::new(&[&a[1]]).read(&mut out);
                }
            }
        }
        Obj::Hmac(x, y, z) => {
            macro_rules! h {
                ($x:expr) => {{
                    let mut h = $x.clone();
                    h.update(&a[1]);
                    out.extend(h.finish().as_ref());
                    let mut h = $x.clone();
                    h.update(&a[1]);
                    out.push(h.verify(&a[2]).is_ok() as u8);
                }};
            }
            match nr(0) {
                0 => h!(x),
                1 => h!(y),
                _ => h!(z),
            }
        }
        Obj::X(k) => {
            match x25519::PublicKey::try_from_slice(&a[0]).and_then(|p| k.diffie_hellman(&p)) {
                Ok(z) => out.extend(z.0),
                Err(e) => out.extend(format!("{e:?}").bytes()),
            }
            out.extend(k.public_key().as_bytes());
        }
        Obj::Ec(c, k) => {
            match Public::from(*c, &a[0]) {
                Some(p) => out.extend(k.dh(&p).unwrap_or_default()),
                None => out.push(0),
            }
            out.extend(k.public());
        }
        Obj::Sk(k) => {
            let mut b = vec![0; 200];
            exports(&mut out, k.sign(nr(0), &[&a[1]], &mut b).map(|x| x.to_vec()));
            exports(&mut out, k.to(nr(0), &mut [0; 400]));
            out.extend(k.public());
        }
        Obj::Vk(k) => {
            out.push(k.verify(nr(0), &[&a[1]], &a[2]) as u8);
            out.push(k.verify_asn1(nr(0), &[&a[1]], &a[2]) as u8);
        }
        Obj::RsaSk(k) => {
            let mut b = vec![0; k.modulus_len_bytes()];
            out.extend(ru::sign(k, nr(0) > 2, nr(0) % 3, &a[1], &mut b).unwrap_or_default());
            let mut b = [0; 2000];
            exports(&mut out, k.public_key().to_pkcs1_der(&mut b).map(|x| x.to_vec()));
        }
        Obj::RsaVk(k) => out.push(ru::verify(k, nr(0) > 2, nr(0) % 3, &a[1], &a[2]) as u8),
        Obj::EdSk(k) => {
            out.extend(k.sign(&a[0]));
            out.extend(k.public_key().as_bytes());
        }
        Obj::EdVk(k) => out.push(k.verify(&a[1], &a[0]).is_ok() as u8),
        Obj::Dk(k) => {
            let c: [u8; 1088] = a[0][..].try_into().unwrap();
            out.extend(k.decaps_internal(&mlkem768::Ciphertext::from(c)).as_ref());
            out.extend(k.encapsulation_key().as_bytes());
        }
        Obj::Ek(k) => match k.clone().encaps() {
            Ok((z, c)) => {
                out.extend(z.as_ref());
                out.extend(c.as_ref());
            }
            Err(e) => out.extend(format!("{e:?}").bytes()),
        },
        Obj::Raw(19, _) => out.extend(c20::op(nr(0), &a[1]).unwrap_or_default()),
        Obj::Raw(20, _) => {
            let g = rustls_graviola::default_provider().kx_groups[nr(0)];
            match g.start() {
                Ok(k) => {
                    out.extend(k.pub_key());
                    match k.complete(&a[1]) {
                        Ok(z) => out.extend(z.secret_bytes()),
                        Err(e) => out.extend(format!("{e:?}").bytes()),
                    }
                }
                Err(e) => out.extend(format!("{e:?}").bytes()),
            }
            match g.start_and_complete(&a[2]) {
                Ok(d) => {
                    out.extend(&d.pub_key);
                    out.extend(d.secret.secret_bytes());
                }
                Err(e) => out.extend(format!("{e:?}").bytes()),
            }
        }
        Obj::Raw(_, d) => {
            let mut b = [0; 4000];
            match nr(0) {
                0 | 1 => exports(&mut out, SK::from_sec1(nr(0), d).and_then(|k| k.to(nr(1), &mut b))),
                2 | 3 => exports(&mut out, SK::from_pkcs8(nr(0) - 2, d).and_then(|k| k.to(nr(1), &mut b))),
                4 => exports(&mut out, rsa::SigningKey::from_pkcs1_der(d).and_then(|k| k.to_pkcs1_der(&mut b).map(|x| x.to_vec()))),
                5 => exports(&mut out, rsa::SigningKey::from_pkcs8_der(d).and_then(|k| k.to_pkcs8_der(&mut b).map(|x| x.to_vec()))),
                6 => exports(&mut out, rsa::VerifyingKey::from_pkcs1_der(d).and_then(|k| k.to_spki_der(&mut b).map(|x| x.to_vec()))),
                7 => exports(&mut out, Ed25519SigningKey::from_pkcs8_der(d).and_then(|k| k.to_pkcs8_der(&mut b).map(|x| x.to_vec()))),
                _ => exports(&mut out, Ed25519VerifyingKey::from_spki_der(d).and_then(|k| k.to_spki_der(&mut b).map(|x| x.to_vec()))),
            }
        }
    }
    out
}

/// keys and arguments that are related to each other
pub struct Family {
    pub kind: usize,
    pub keys: Vec<Vec<u8>>,
    pub args: Vec<Parts>,
    /// cheap enough to do this many times
    most: u32,
}
fn flip(s: &mut Src, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    if !v.is_empty() {
        let i = match s.idx(3) {
            0 => 0,
            1 => v.len() - 1,
            _ => s.idx(v.len()),
        };
        v[i] ^= 1 << s.idx(8);
    }
    v
}
/// a few values that share much
fn close(s: &mut Src, len: usize) -> Vec<Vec<u8>> {
    let a = s.bytes(len);
    let b = flip(s, &a);
    let mut v = vec![a, b];
    if s.bool() {
        v.push(s.bytes(len));
    }
    v
}
fn texts(s: &mut Src) -> Vec<Vec<u8>> {
    let n = match s.idx(3) {
        0 => s.idx(20),
        1 => s.idx(200),
        _ => s.idx(700),
    };
    let mut v = close(s, n);
    let cut = s.idx(n + 1);
    v.push(v[0][..cut].to_vec());
    let mut longer = v[0].clone();
    longer.push(0);
    v.push(longer);
    v
}
fn pick<'a, T>(s: &mut Src, v: &'a [T]) -> &'a T {
    &v[s.idx(v.len())]
}
fn rsa_keys(s: &mut Src) -> Vec<ru::Key> {
    let ps: Vec<_> = ru::primes().iter().filter(|p| p.bits() == 1024 && p.bit(1022)).collect();
    let i = s.idx(ps.len());
    let mut v = vec![];
    // one prime in common; one modulus with two exponents
    for (j, e) in [(1, 65537u32), (2, 65537), (1, 17), (1, 3)] {
        let (a, b) = (ps[i], ps[(i + j) % ps.len()]);
        v.extend(ru::Key::new(a.max(b), a.min(b), &e.into()));
    }
    v
}
pub fn family(s: &mut Src, kind: usize) -> Family {
    let mut keys = vec![];
    let mut args = vec![];
    let mut most = 40;
    let n = 3 + s.idx(4);
    match kind {
        0..=3 => {
            keys = close(s, Aead::key_len(kind));
            let (nonces, aads, txt) = (close(s, Aead::nonce_len(kind)), texts(s), texts(s));
            for _ in 0..n {
                args.push(vec![vec![s.idx(3) as u8], pick(s, &nonces).clone(), pick(s, &aads).clone(), pick(s, &txt).clone(), s.bytes(16)]);
            }
            most = 70000;
        }
        4 | 5 => {
            keys = texts(s);
            let txt = texts(s);
            let l = *s.pick(&[0, 16, 32, 48, 64]);
            for _ in 0..n {
                args.push(vec![vec![s.idx(7) as u8], pick(s, &txt).clone(), s.bytes(l)]);
            }
            most = 70000;
        }
        6 => {
            keys = close(s, 32);
            let mut us = close(s, 32);
            us.push(vec![0; 32]);
            let mut high = us[0].clone();
            high[31] ^= 0x80;
            us.push(high);
            us.push(us[0][..31].to_vec());
            args = us.into_iter().map(|u| vec![u]).collect();
            most = 300;
        }
        7 | 8 => {
            let c = curve(kind - 7);
            let (d, e) = (scalar(s, c), scalar(s, c));
            keys = vec![c.enc(&d), c.enc(&(&c.n - &d)), c.enc(&e)];
            for k in [scalar(s, c), scalar(s, c)] {
                let q = c.mul_g(&k);
                args.push(vec![c.point(&q)]);
                args.push(vec![c.point(&c.neg(&q))]);
                args.push(vec![flip(s, &c.point(&q))]);
            }
            args.push(vec![c.point(&c.mul_g(&d))]);
        }
        9 | 10 => {
            let c = curve(kind - 9);
            let (d, e) = (scalar(s, c), scalar(s, c));
            for d in [&d, &(&c.n - &d), &e] {
                keys.push(c17::ec_encodings(kind - 9, &c.enc(d), &c.point(&c.mul_g(d))).sec1);
            }
            keys.push(flip(s, &keys[0]));
            let txt = texts(s);
            for _ in 0..n {
                args.push(vec![vec![s.idx(3) as u8], pick(s, &txt).clone()]);
            }
        }
        11 | 12 => {
            let ci = kind - 11;
            let c = curve(ci);
            let (d, e) = (scalar(s, c), scalar(s, c));
            let txt = texts(s);
            let h = s.idx(3);
            let mut sigs = vec![];
            for d in [&d, &e] {
                let q = c.mul_g(d);
                keys.push(c.point(&q));
                keys.push(c.point(&c.neg(&q)));
                let m = pick(s, &txt);
                let k = scalar(s, c);
                let r = c.mul_g(&k).unwrap().0 % &c.n;
                let z = c.bits2int(&super::ecdsautil::hash(h, m));
                let v = c.ninv(&k) * (z + &r * d) % &c.n;
                sigs.push((m.clone(), [c.enc(&r), c.enc(&v)].concat()));
                sigs.push((m.clone(), [c.enc(&r), c.enc(&(&c.n - &v))].concat()));
                sigs.push((m.clone(), der_sig(&r, &v)));
            }
            for _ in 0..n + 3 {
                let x = pick(s, &sigs).clone();
                let m = if s.one_in(4) { pick(s, &txt).clone() } else { x.0 };
                let sig = if s.one_in(6) { flip(s, &x.1) } else { x.1 };
                args.push(vec![vec![if s.one_in(5) { s.idx(3) } else { h } as u8], m, sig]);
            }
        }
        13 | 14 => {
            let ks = rsa_keys(s);
            let txt = texts(s);
            if kind == 13 {
                keys = ks.iter().map(|k| k.private_der()).collect();
                for _ in 0..n {
                    args.push(vec![vec![s.idx(6) as u8], pick(s, &txt).clone()]);
                }
                most = 2;
            } else {
                keys = ks.iter().map(|k| k.public_der()).collect();
                for _ in 0..n {
                    let k = pick(s, &ks);
                    let (w, m) = (s.idx(6), pick(s, &txt));
                    let em = if w > 2 {
                        ru::emsa_pss(k.n.bits() as usize, &super::ecdsautil::hash(w % 3, m), &ru::Pss { h: w % 3, mgf: w % 3, salt: s.bytes(ru::hlen(w % 3)), sep: 1, ps_byte: None, bc: 0xbc, clear_top: true, prefix: [0; 8] })
                    } else {
                        ru::emsa_pkcs1(k.k(), w, m)
                    };
                    let sig = crate::refs::ec::be(&k.private(&BigUint::from_bytes_be(&em)), k.k());
                    let m = if s.one_in(4) { pick(s, &txt) } else { m };
                    let sig = if s.one_in(5) { flip(s, &sig) } else { sig };
                    args.push(vec![vec![w as u8], m.clone(), sig]);
                }
            }
        }
        15 | 16 => {
            let seeds = close(s, 32);
            let txt = texts(s);
            if kind == 15 {
                keys = seeds;
                args = txt.into_iter().map(|t| vec![t]).collect();
            } else {
                let ks: Vec<_> = seeds.iter().map(|x| Ed25519SigningKey::from_bytes(x).unwrap()).collect();
                keys = ks.iter().map(|k| k.public_key().as_bytes().to_vec()).collect();
                let mut neg = keys[0].clone();
                neg[31] ^= 0x80;
                keys.push(neg);
                for _ in 0..n + 2 {
                    let m = pick(s, &txt);
                    let sig = pick(s, &ks).sign(m).to_vec();
                    let m = if s.one_in(4) { pick(s, &txt) } else { m };
                    let sig = if s.one_in(5) { flip(s, &sig) } else { sig };
                    args.push(vec![m.clone(), sig]);
                }
            }
        }
        17 => {
            let (d, z) = (close(s, 32), close(s, 32));
            for (i, j) in [(0, 0), (0, 1), (1, 0)] {
                keys.push([&d[i][..], &z[j]].concat());
            }
            for k in [0, 2] {
                let ek = mlkem::keygen(&keys[k][..32], &keys[k][32..]).0;
                let c = mlkem::encaps(&ek, &s.arr::<32>()).1;
                args.push(vec![flip(s, &c)]);
                args.push(vec![c]);
            }
        }
        18 => {
            let (d, z) = (close(s, 32), s.bytes(32));
            for d in &d {
                keys.push(mlkem::keygen(d, &z).0);
            }
            // the same matrix, another vector
            let mut other = keys[0].clone();
            let m = keys[1][..1152].to_vec();
            other[..1152].copy_from_slice(&m);
            keys.push(other);
            // the same vector, nearly the same seed of the matrix
            let mut near = keys[0].clone();
            let rho = flip(s, &near[1152..]);
            near[1152..].copy_from_slice(&rho);
            keys.push(near);
            let mut bad = keys[0].clone();
            bad[..3].copy_from_slice(&[0xff; 3]);
            keys.push(bad);
            args = vec![vec![]];
        }
        19 => {
            keys = vec![vec![]];
            for _ in 0..n {
                let w = loop {
                    let w = s.idx(c20::N - 1);
                    if !(21..=22).contains(&w) {
                        break w;
                    }
                };
                let l = s.idx(40);
                args.push(vec![vec![w as u8], s.bytes(l)]);
            }
        }
        20 => {
            keys = vec![vec![]];
            let x = s.bytes(32);
            for _ in 0..n {
                let g = s.idx(4);
                let ec = |s: &mut Src, g: usize| {
                    let c = curve(g - 2);
                    c.point(&c.mul_g(&scalar(s, c)))
                };
                let (client, server) = match g {
                    0 => {
                        let ek = mlkem::keygen(&s.arr::<32>(), &[0; 32]).0;
                        ([&s.bytes(1088)[..], &x].concat(), [&ek[..], &x].concat())
                    }
                    1 => (x.clone(), x.clone()),
                    g => (ec(s, g), ec(s, g)),
                };
                let bad = s.one_in(4);
                args.push(vec![vec![g as u8], if bad { client[1..].to_vec() } else { client }, if bad { flip(s, &server) } else { server }]);
            }
        }
        _ => {
            for ci in 0..2 {
                let c = curve(ci);
                let d = scalar(s, c);
                let e = c17::ec_encodings(ci, &c.enc(&d), &c.point(&c.mul_g(&d)));
                keys.push(e.sec1);
                keys.push(e.pkcs8);
            }
            for k in rsa_keys(s).iter().take(2) {
                let d = k.private_der();
                keys.push(der::seq(&[der::uint(&[]), c17::rsa_alg(), der::octets(&d)]));
                keys.push(d);
                keys.push(k.public_der());
            }
            let k = Ed25519SigningKey::from_bytes(&s.bytes(32)).unwrap();
            keys.push(k.to_pkcs8_der(&mut [0; 200]).unwrap().to_vec());
            keys.push(k.public_key().to_spki_der(&mut [0; 200]).unwrap().to_vec());
            for i in 0..keys.len() {
                if s.one_in(3) {
                    keys.push(flip(s, &keys[i]));
                }
            }
            for w in 0..9 {
                args.push(vec![vec![w], vec![s.idx(3) as u8]]);
            }
            most = 2;
        }
    }
    Family { kind, keys, args, most }
}

struct Step {
    pub kind: usize,
    key: Vec<u8>,
    args: Parts,
    seed: u64,
    /// how many times
    times: u32,
    /// forget the object made from this key before
    again: bool,
    thread: bool,
    /// the draw that fails
    fails: u8,
}
fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}
fn get<'a>(b: &mut &'a [u8]) -> &'a [u8] {
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    let (x, r) = b[4..].split_at(n);
    *b = r;
    x
}
impl Step {
    fn pack(&self, o: &mut Vec<u8>) {
        o.extend([self.kind as u8, self.again as u8, self.thread as u8, self.fails, self.args.len() as u8]);
        o.extend(self.times.to_le_bytes());
        o.extend(self.seed.to_le_bytes());
        put(o, &self.key);
        for a in &self.args {
            put(o, a);
        }
    }
    fn unpack(b: &mut &[u8]) -> Step {
        let (h, r) = b.split_at(17);
        *b = r;
        Step {
            kind: h[0] as usize,
            again: h[1] == 1,
            thread: h[2] == 1,
            fails: h[3],
            times: u32::from_le_bytes(h[5..9].try_into().unwrap()),
            seed: u64::from_le_bytes(h[9..17].try_into().unwrap()),
            key: get(b).to_vec(),
            args: (0..h[4]).map(|_| get(b).to_vec()).collect(),
        }
    }
    fn run(&self, o: &Option<Obj>) -> Vec<u8> {
        rngshim::prng(&[], self.seed);
        if self.fails != 255 {
            rngshim::fail_at(self.fails as usize);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match o {
            Some(o) => apply(o, &self.args),
            None => b"refused".to_vec(),
        }));
        rngshim::reset();
        r.unwrap_or_else(|_| b"panic".to_vec())
    }
}
/// what the step gives in a process that did nothing before
fn pristine(x: &Step) -> Option<Vec<u8>> {
    let mut fd = [0i32; 2];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            let o = make(x.kind, &x.key);
            let r = x.run(&o);
            let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[1]);
            let _ = std::io::Write::write_all(&mut f, &r);
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd[0]);
        let mut r = vec![];
        let _ = std::io::Read::read_to_end(&mut f, &mut r);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (st == 0).then_some(r)
    }
}
/// the process with a history
pub fn child() -> i32 {
    let mut b = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rest = &b[..];
    let mut steps = vec![];
    while !rest.is_empty() {
        steps.push(Step::unpack(&mut rest));
    }
    let want: Vec<_> = steps.iter().map(pristine).collect();
    let mut objects: HashMap<(usize, Vec<u8>), Option<Obj>> = HashMap::new();
    for (i, (x, w)) in steps.iter().zip(&want).enumerate() {
        let Some(w) = w else {
            println!("DIED {i}");
            return 0;
        };
        let id = (x.kind, x.key.clone());
        if x.again {
            objects.remove(&id);
        }
        let o = &*objects.entry(id).or_insert_with(|| make(x.kind, &x.key));
        let go = || {
            for n in 0..x.times {
                let got = x.run(o);
                if got != *w {
                    return Some((n, got));
                }
            }
            None
        };
        let bad = if x.thread { std::thread::scope(|s| s.spawn(go).join().unwrap()) } else { go() };
        if let Some((n, got)) = bad {
            let from = got.iter().zip(w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
            let cut = |v: &[u8]| hex(&v[from..v.len().min(from + 40)]);
            println!("STEP {i}\nTIME {n}\nGOT {from}: {}, in a fresh process {}", cut(&got), cut(w));
            return 0;
        }
    }
    println!("SAME {}", want.iter().flatten().map(|w| w.len()).sum::<usize>());
    0
}

fn history(s: &mut Src) -> R {
    let mut fams = vec![];
    let first = (s.idx % KINDS.len() as u64) as usize;
    fams.push(family(s, first));
    for _ in 0..s.idx(3) {
        // the slow ones on their own only
        let k = loop {
            let k = s.idx(KINDS.len());
            if k != 13 && k != 21 {
                break k;
            }
        };
        fams.push(family(s, k));
    }
    let n = if first == 13 { 4 + s.idx(6) } else { 6 + s.idx(20) };
    let mut steps: Vec<Step> = vec![];
    let mut long = false;
    for _ in 0..n {
        if !steps.is_empty() && s.one_in(6) {
            // exactly as before
            let x = pick(s, &steps);
            let (kind, key, args, seed) = (x.kind, x.key.clone(), x.args.clone(), x.seed);
            steps.push(Step { kind, key, args, seed, times: 1, again: s.one_in(3), thread: s.one_in(4), fails: 255 });
            continue;
        }
        let f = if s.bool() { &fams[0] } else { pick(s, &fams) };
        let (key, args) = (pick(s, &f.keys).clone(), pick(s, &f.args).clone());
        let mut times = match s.weighted(&[80, 14, 3, 1]) {
            0 => 1,
            1 => 2 + s.idx(20) as u32,
            2 => 257 + s.idx(3) as u32,
            _ => 65537,
        }
        .min(f.most);
        if times > 300 {
            times = if long || args.iter().any(|a| a.len() > 100) { 300 } else { times };
            long = true;
        }
        steps.push(Step {
            kind: f.kind,
            key,
            args,
            seed: s.u64(),
            times,
            again: s.one_in(4),
            thread: s.one_in(5),
            fails: if s.one_in(6) { s.idx(3) as u8 } else { 255 },
        });
    }
    judge(s, &steps)
}
fn judge(s: &mut Src, steps: &[Step]) -> R {
    use std::io::Write;
    static EXE: OnceLock<std::path::PathBuf> = OnceLock::new();
    let exe = EXE.get_or_init(|| std::env::current_exe().expect("exe"));
    let mut input = vec![];
    for x in steps {
        x.pack(&mut input);
    }
    let mut c = std::process::Command::new(exe);
    c.arg("history").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let out = c.spawn().and_then(|mut ch| {
        ch.stdin.take().unwrap().write_all(&input)?;
        ch.wait_with_output()
    });
    let out = match out {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("cannot start a process: {e}")),
    };
    beat();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string());
    let num = |k: &str| get(k).and_then(|x| x.parse::<usize>().ok());
    let tell = |i: usize| {
        let x = &steps[i];
        format!(
            "{} key {} args {}{}{}{}",
            KINDS[x.kind],
            hex(&x.key[..x.key.len().min(64)]),
            x.args.iter().map(|a| hex(&a[..a.len().min(40)])).collect::<Vec<_>>().join(" "),
            if x.again { ", made anew" } else { "" },
            if x.thread { ", on another thread" } else { "" },
            if x.fails != 255 { ", draw failing" } else { "" },
        )
    };
    if let Some(i) = num("DIED ") {
        return fail(&format!("{}/died", KINDS[steps[i].kind]), format!("a process died at its first operation, {}", tell(i)));
    }
    if let (Some(i), Some(t)) = (num("STEP "), num("TIME ")) {
        return fail(
            &format!("{}/differs", KINDS[steps[i].kind]),
            format!(
                "operation {i} ({}), time {}: {}; before it: {}",
                tell(i),
                t + 1,
                get("GOT ").unwrap_or_default(),
                (0..i).map(|i| KINDS[steps[i].kind]).collect::<Vec<_>>().join(", ")
            ),
        );
    }
    ensure!(
        out.status.success() && num("SAME ").is_some(),
        format!("{}/died", KINDS[steps[0].kind]),
        "a history of {} ended with {} {}",
        steps.iter().map(|x| KINDS[x.kind]).collect::<Vec<_>>().join(", "),
        out.status,
        String::from_utf8_lossy(&out.stderr).trim().chars().take(300).collect::<String>()
    );
    s.label(KINDS[steps[0].kind]);
    if num("SAME ") > Some(0) {
        s.nontrivial();
    }
    s.note(format!("{} operations, first {}", steps.len(), KINDS[steps[0].kind]));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C34",
        rule: "A process of its own performs a history of 4 to 25 operations on related keys and inputs, with failures, repetitions, other threads and discarded objects; each result is compared with that of the same operation in a fork taken before any; non-trivial: the results are not empty.",
        assumptions: &["no static constructor of the program uses the library"],
        subs: vec![Sub::new("history", history, KINDS.len() as u64 * 20, KINDS.len() as u64 * 4000).all()],
    }
}
